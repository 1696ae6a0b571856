/* C++ objects described by scripts. A type is {"y":kind,...}; values are
 * scalars as in documents, {"k":"L","e":[..]} (sequences, fields of objects),
 * {"k":"M","e":[[key,value],..]} (maps), {"k":"P","e":[] or [value]}. */
#ifndef VERIF_TYPED_H
#define VERIF_TYPED_H
#include "common.h"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

using namespace Srl;

/* the plan of objects that get created by the library */
extern thread_local const J* cur_plan;

/* An object whose fields are described by a plan. V = 0: srl_resolve, V = 1: srl_store and srl_restore */
template<int V> struct Obj {
    const J* plan = cur_plan;
    const J* val = nullptr;
    bool done = false;
    std::vector<std::string> res;
};
struct Dyn : Obj<0> { void srl_resolve(Context& ctx); };
struct Two : Obj<1> { void srl_store(StoreContext& ctx) const; void srl_restore(RestoreContext& ctx); };

struct PlanGuard {
    const J* old;
    PlanGuard(const J* p) : old(cur_plan) { cur_plan = p; }
    ~PlanGuard() { cur_plan = old; }
};
/* the plan of the objects in a type, if any */
inline const J* inner_plan(const J& ty)
{
    const J* t = &ty;
    while(t->has("e")) t = &(*t)["e"];
    return t->has("f") ? t : nullptr;
}

/* ---------------------------------------------------------- make and dump */
template<class T, class = void> struct Tp;

template<class T> struct Tp<T, typename std::enable_if<std::is_integral<T>::value && !Lib::is_char<T>::value && !std::is_same<T, bool>::value>::type> {
    static void make(T& o, const J&, const J& v) { bool g; uint64_t m; j_int(v, g, m); o = (T)(g ? 0 - m : m); }
    static std::string dump(T& o, const J&) { return std::is_signed<T>::value ? jint((int64_t)o) : jint(false, (uint64_t)o); }
};
template<> struct Tp<bool> {
    static void make(bool& o, const J&, const J& v) { o = v["m"].ints[0] != 0; }
    static std::string dump(bool& o, const J&) { return jbool(*(unsigned char*)&o != 0); }
};
template<class T> struct Tp<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static void make(T& o, const J&, const J& v) { o = (T)j_fp(v); }
    static std::string dump(T& o, const J&) { return jfp((double)o); }
};
template<class C> std::basic_string<C> text_as(const std::string& u8);
template<> inline std::string text_as<char>(const std::string& s) { return s; }
template<> inline std::u16string text_as<char16_t>(const std::string& s) { return to16(s); }
template<> inline std::u32string text_as<char32_t>(const std::string& s) { return to32(s); }
template<> inline std::wstring text_as<wchar_t>(const std::string& s) { auto t = to32(s); return std::wstring(t.begin(), t.end()); }
template<class C> std::string dump_text(const C* p, size_t n)
{
    return jstr(utf8_of((const uint8_t*)p, n * sizeof(C), sizeof(C) == 1 ? Encoding::UTF8 : sizeof(C) == 2 ? Encoding::UTF16 : Encoding::UTF32));
}
template<class C> struct Tp<std::basic_string<C>> {
    static void make(std::basic_string<C>& o, const J&, const J& v) { o = text_as<C>(v["m"].text()); }
    static std::string dump(std::basic_string<C>& o, const J&) { return dump_text(o.data(), o.size()); }
};
template<class C> struct Tp<C, typename std::enable_if<Lib::is_char<C>::value>::type> {
    static void make(C& o, const J&, const J& v) { o = text_as<C>(v["m"].text())[0]; }
    static std::string dump(C& o, const J&) { return dump_text(&o, 1); }
};
template<class C, size_t N> struct Tp<C[N], typename std::enable_if<Lib::is_char<C>::value>::type> {
    static void make(C (&o)[N], const J&, const J& v) { auto t = text_as<C>(v["m"].text()); memset(o, 0, sizeof o); memcpy(o, t.data(), t.size() * sizeof(C)); }
    static std::string dump(C (&o)[N], const J&) { size_t n = 0; while(n < N && o[n]) n++; return n == N ? "\"no end\"" : dump_text(o, n); }
};
/* binary data in a vector, through VecWrap */
template<class W> struct VBin { std::vector<W> v; };
template<class W> struct Tp<VBin<W>> {
    static void make(VBin<W>& o, const J&, const J& v) { Buf b = v["m"].bytes(); o.v.resize(b.size() / sizeof(W)); memcpy(o.v.data(), b.data(), b.size()); }
    static std::string dump(VBin<W>& o, const J&) { return jscalar("x", 0, jbytes((const uint8_t*)o.v.data(), o.v.size() * sizeof(W))); }
};
template<> struct Tp<Bytes> {
    static void make(Bytes& o, const J&, const J& v) { o = Bytes(v["m"].bytes()); }
    static std::string dump(Bytes& o, const J&) { Buf b = std::move(o).extract(); std::string r = jbin(b); o = Bytes(std::move(b)); return r; }
};
template<int V> struct TpObj {
    static std::string dump(const Obj<V>& o) { return o.done ? "{\"k\":\"L\",\"e\":" + jlist(o.res) + "}" : "{\"k\":\"D\",\"e\":[]}"; }
};
template<> struct Tp<Dyn> {
    static void make(Dyn& o, const J& ty, const J& v) { o.plan = &ty; o.val = &v; }
    static std::string dump(Dyn& o, const J&) { return TpObj<0>::dump(o); }
};
template<> struct Tp<Two> {
    static void make(Two& o, const J& ty, const J& v) { o.plan = &ty; o.val = &v; }
    static std::string dump(Two& o, const J&) { return TpObj<1>::dump(o); }
};

template<class C> struct TpSeq {
    typedef typename C::value_type E;
    static void make(C& o, const J& ty, const J& v) { for(auto& e : v["e"].a) { E x {}; Tp<E>::make(x, ty["e"], e); o.insert(o.end(), std::move(x)); } }
    static std::string dump(C& o, const J& ty)
    {
        std::vector<std::string> r;
        for(auto& e : o) r.push_back(Tp<E>::dump(const_cast<E&>(e), ty["e"]));
        return "{\"k\":\"L\",\"e\":" + jlist(r) + "}";
    }
};
template<class E> struct Tp<std::vector<E>> : TpSeq<std::vector<E>> { };
template<class E> struct Tp<std::list<E>> : TpSeq<std::list<E>> { };
template<class E> struct Tp<std::deque<E>> : TpSeq<std::deque<E>> { };
template<class E> struct Tp<std::set<E>> : TpSeq<std::set<E>> { };
template<class E> struct Tp<std::multiset<E>> : TpSeq<std::multiset<E>> { };
template<class E> struct Tp<std::unordered_set<E>> : TpSeq<std::unordered_set<E>> { };
template<class E, size_t N> struct Tp<E[N], typename std::enable_if<!Lib::is_char<E>::value>::type> {
    static void make(E (&o)[N], const J& ty, const J& v) { for(size_t i = 0; i < N; i++) Tp<E>::make(o[i], ty["e"], v["e"].a[i]); }
    static std::string dump(E (&o)[N], const J& ty)
    {
        std::vector<std::string> r;
        for(auto& e : o) r.push_back(Tp<E>::dump(e, ty["e"]));
        return "{\"k\":\"L\",\"e\":" + jlist(r) + "}";
    }
};
inline const J& key_type(const J& ty) { return ty["key"]; }
template<class C> struct TpMap {
    typedef typename C::key_type K; typedef typename C::mapped_type E;
    static void make(C& o, const J& ty, const J& v)
    {
        for(auto& p : v["e"].a) { K k {}; Tp<K>::make(k, ty["key"], p.a[0]); E x {}; Tp<E>::make(x, ty["e"], p.a[1]); o.emplace(std::move(k), std::move(x)); }
    }
    static std::string dump(C& o, const J& ty)
    {
        std::vector<std::string> r;
        for(auto& p : o) r.push_back(jlist({ Tp<K>::dump(const_cast<K&>(p.first), ty["key"]), Tp<E>::dump(p.second, ty["e"]) }));
        return "{\"k\":\"M\",\"e\":" + jlist(r) + "}";
    }
};
template<class K, class E> struct Tp<std::map<K, E>> : TpMap<std::map<K, E>> { };
template<class K, class E> struct Tp<std::multimap<K, E>> : TpMap<std::multimap<K, E>> { };
template<class K, class E> struct Tp<std::unordered_map<K, E>> : TpMap<std::unordered_map<K, E>> { };
template<class E> struct Tp<Lib::HTable<std::string, E>> {
    typedef Lib::HTable<std::string, E> C;
    static void make(C& o, const J& ty, const J& v)
    {
        for(auto& p : v["e"].a) { E x {}; Tp<E>::make(x, ty["e"], p.a[1]); o.insert(p.a[0]["m"].text(), std::move(x)); }
    }
    static std::string dump(C& o, const J& ty)
    {
        std::vector<std::string> r;
        o.foreach([&](const std::string& k, E& x) { r.push_back(jlist({ jstr(k), Tp<E>::dump(x, ty["e"]) })); });
        return "{\"k\":\"M\",\"e\":" + jlist(r) + "}";
    }
};
/* pair and tuple: "e" is the type of one component, "o" of the other */
template<class E, class X> struct Tp<std::pair<E, X>> {
    static void make(std::pair<E, X>& o, const J& ty, const J& v) { Tp<E>::make(o.first, ty["e"], v["e"].a[0]); Tp<X>::make(o.second, ty["o"], v["e"].a[1]); }
    static std::string dump(std::pair<E, X>& o, const J& ty) { return "{\"k\":\"L\",\"e\":" + jlist({ Tp<E>::dump(o.first, ty["e"]), Tp<X>::dump(o.second, ty["o"]) }) + "}"; }
};
template<class X, class E, class Y> struct Tp<std::tuple<X, E, Y>> {
    static void make(std::tuple<X, E, Y>& o, const J& ty, const J& v)
    {
        Tp<X>::make(std::get<0>(o), ty["o"], v["e"].a[0]); Tp<E>::make(std::get<1>(o), ty["e"], v["e"].a[1]); Tp<Y>::make(std::get<2>(o), ty["p"], v["e"].a[2]);
    }
    static std::string dump(std::tuple<X, E, Y>& o, const J& ty)
    {
        return "{\"k\":\"L\",\"e\":" + jlist({ Tp<X>::dump(std::get<0>(o), ty["o"]), Tp<E>::dump(std::get<1>(o), ty["e"]), Tp<Y>::dump(std::get<2>(o), ty["p"]) }) + "}";
    }
};
template<class P, class E> struct TpPtr {
    static void make(P& o, const J& ty, const J& v)
    {
        if(v["e"].a.empty()) return;
        auto* e = new E(); Tp<E>::make(*e, ty["e"], v["e"].a[0]); o = P(e);
    }
    static std::string dump(P& o, const J& ty) { return o ? "{\"k\":\"P\",\"e\":" + jlist({ Tp<E>::dump(*o, ty["e"]) }) + "}" : "{\"k\":\"P\",\"e\":[]}"; }
};
template<class E> struct Tp<std::unique_ptr<E>> : TpPtr<std::unique_ptr<E>, E> { };
template<class E> struct Tp<std::shared_ptr<E>> : TpPtr<std::shared_ptr<E>, E> { };
template<class E> struct Tp<E*> : TpPtr<E*, E> { };

/* --------------------------------------------------------------- exchange */
/* one field, stored or restored through one of the contexts */
struct Ex {
    Context* ctx = nullptr; StoreContext* out = nullptr; RestoreContext* in = nullptr;
    const String* name = nullptr;            /* none: by position */
    uint64_t flags = 0;
    const J* val = nullptr;                  /* the value to store */
    const J* init = nullptr;                 /* what the field holds before it is restored */
    std::string* res = nullptr;
};

template<class T> struct Holder { T o {}; ~Holder() { } };
template<class E> struct Holder<E*> { E* o = nullptr; ~Holder() { delete o; } };
/* shared objects have to live as long as the others that are stored along with them */
extern thread_local std::vector<std::shared_ptr<void>> keep_alive;
template<class E> struct Holder<std::shared_ptr<E>> { std::shared_ptr<E> o; ~Holder() { keep_alive.push_back(o); } };

template<class T> void through(Ex& x, T&& o)
{
    if(x.ctx) { if(x.name) (*x.ctx)(*x.name, o, x.flags); else (*x.ctx)(o); }
    else if(x.out) { if(x.name) (*x.out)(*x.name, o, x.flags); else (*x.out)(o); }
    else { if(x.name) (*x.in)(*x.name, o, x.flags); else (*x.in)(o); }
}
template<class T> void exch(Ex& x, const J& ty)
{
    PlanGuard g(inner_plan(ty));
    Holder<T> h;
    if(x.val) Tp<T>::make(h.o, ty, *x.val);
    else if(x.init) Tp<T>::make(h.o, ty, *x.init);
    through(x, h.o);
    if(x.res) *x.res = Tp<T>::dump(h.o, ty);
}
template<class W> void exch_bin(Ex& x, const J& ty)
{
    VBin<W> h;
    if(x.val) Tp<VBin<W>>::make(h, ty, *x.val);
    else if(x.init) Tp<VBin<W>>::make(h, ty, *x.init);
    VecWrap<W> w(h.v);
    through(x, w);
    if(x.res) *x.res = Tp<VBin<W>>::dump(h, ty);
}

/* field types, by translation unit; false: not one of these */
bool field_leaf(Ex& x, const J& ty);
bool field_seq(Ex& x, const J& ty);
bool field_seq2(Ex& x, const J& ty);
bool field_ht(Ex& x, const J& ty);
bool field_map(Ex& x, const J& ty);
bool field_ptr(Ex& x, const J& ty);
bool field_fix(Ex& x, const J& ty);
bool field_two(Ex& x, const J& ty);

/* element types of containers */

inline std::string type_name(const J& ty)
{
    std::string r = ty["y"].s;
    if(ty.has("key")) r += "." + ty["key"]["y"].s;
    if(ty.has("e")) r += "." + type_name(ty["e"]);
    return r;
}

#endif
