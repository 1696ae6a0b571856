/* Graphs of shared objects, stored and restored by histories of operations.
 * A graph: {"v":kind..}: objects {"k":kind,"v":scalar,"f":[[index,..],..]},
 * the first one is the root. Dumps are lists of tokens: {"t":"c","n":count},
 * {"t":"n","k":kind,"v":scalar} (an object met for the first time),
 * {"t":"r","n":number} (one met before). */
#include "common.h"
#include "streams.h"

using namespace Srl;

namespace {

struct Side { virtual ~Side() { } int64_t pad = 77; };

template<int V> struct Base {
    virtual ~Base() { }
    virtual const TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& ctx) = 0;
};
template<int V> struct Obj {
    int64_t id = 0;
    std::vector<std::shared_ptr<Obj>> o; std::vector<std::weak_ptr<Obj>> w; std::vector<std::shared_ptr<std::string>> s;
    std::vector<std::shared_ptr<Base<V>>> b; std::map<std::string, std::shared_ptr<Obj>> m;
    void srl_resolve(Context& ctx) { ctx("id", id)("o", o)("w", w)("s", s)("b", b)("m", m); }
};
template<int V> struct PA : Base<V> {
    int32_t v = 0; std::vector<std::shared_ptr<Obj<V>>> o;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v)("o", o); }
};
template<int V> struct PB : Base<V> {
    std::string v; std::vector<std::shared_ptr<Base<V>>> b; std::vector<std::weak_ptr<Base<V>>> w;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("b", b)("v", v)("w", w); }
};
/* the base is not at its beginning */
template<int V> struct PC : Side, Base<V> {
    int64_t v = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v); }
};
/* an object and its first member have the same address */
struct Inner { int64_t id = 0; void srl_resolve(Context& ctx) { ctx("id", id); } };
struct Outer { Inner first; int64_t more = 0; void srl_resolve(Context& ctx) { ctx("id", first.id)("more", more); } };
template<int V> struct Root {
    std::vector<std::shared_ptr<Obj<V>>> o; std::vector<std::weak_ptr<Obj<V>>> w; std::vector<std::shared_ptr<std::string>> s;
    std::vector<std::shared_ptr<Base<V>>> b; std::map<std::string, std::shared_ptr<Obj<V>>> m;
    std::vector<std::shared_ptr<PA<V>>> pa; std::vector<std::shared_ptr<int32_t>> i;
    std::vector<std::shared_ptr<Inner>> in; std::vector<std::shared_ptr<Outer>> ou;
    void srl_resolve(Context& ctx) { ctx("o", o)("w", w)("s", s)("b", b)("m", m)("pa", pa)("i", i)("in", in)("ou", ou); }
};

const auto a0 = register_type<PA<0>>("A"); const auto a1 = register_type<PA<1>>("A of the other kind");
const auto b0 = register_type<PB<0>>("PB"); const auto b1 = register_type<PB<1>>("PB1");
const auto c0 = register_type<PC<0>>("C with two bases"); const auto c1 = register_type<PC<1>>("C1");
/* the same ids name both sets of classes in documents, so a graph is restored as the one or the other:
 * the classes of V = 1 go by the ids of their own */
template<> const TypeID& PA<0>::srl_type_id() { return a0; }
template<> const TypeID& PA<1>::srl_type_id() { return a1; }
template<> const TypeID& PB<0>::srl_type_id() { return b0; }
template<> const TypeID& PB<1>::srl_type_id() { return b1; }
template<> const TypeID& PC<0>::srl_type_id() { return c0; }
template<> const TypeID& PC<1>::srl_type_id() { return c1; }

/* ------------------------------------------------------------------- make */
template<int V> struct Make {
    const J& g;
    std::vector<std::shared_ptr<Obj<V>>> o; std::vector<std::shared_ptr<std::string>> s; std::vector<std::shared_ptr<Base<V>>> b;
    std::vector<std::shared_ptr<PA<V>>> pa; std::vector<std::shared_ptr<PB<V>>> pb; std::vector<std::shared_ptr<int32_t>> i;
    std::vector<std::shared_ptr<Inner>> in; std::vector<std::shared_ptr<Outer>> ou;

    int64_t num(const J& v) { bool n; uint64_t m; j_int(v, n, m); return (int64_t)(n ? 0 - m : m); }
    template<class C, class L> void refs(C& c, const J& f, L& from) { for(auto x : f.ints) { if(!from[(size_t)x]) exit(3); c.push_back(from[(size_t)x]); } }
    template<class C, class L> void keyed(C& c, const J& f, L& from) { size_t k = 0; for(auto x : f.ints) c[key(k++)] = from[(size_t)x]; }
    ~Make()
    {
        for(auto& x : o) if(x) { x->o.clear(); x->b.clear(); x->m.clear(); }
        for(auto& x : pa) if(x) x->o.clear();
        for(auto& x : pb) if(x) x->b.clear();
    }
    static std::string key(size_t k) { return "k" + std::to_string(k); }

    Make(const J& g_, Root<V>& root) : g(g_)
    {
        auto n = g.a.size();
        o.resize(n); s.resize(n); b.resize(n); pa.resize(n); pb.resize(n); i.resize(n); in.resize(n); ou.resize(n);
        for(size_t k = 1; k < n; k++) {
            auto& x = g.a[k];
            auto& y = x["k"].s;
            if(y == "o") { o[k] = std::make_shared<Obj<V>>(); o[k]->id = num(x["v"]); }
            else if(y == "s") s[k] = std::make_shared<std::string>(x["v"]["m"].text());
            else if(y == "u") { ou[k] = std::make_shared<Outer>(); ou[k]->first.id = ou[k]->more = num(x["v"]); }
            else if(y == "n") {
                auto of = (size_t)x["of"].i;
                if(of) { if(!ou[of]) exit(3); in[k] = std::shared_ptr<Inner>(ou[of], &ou[of]->first); if(in[k]->id != num(x["v"])) exit(3); }
                else { in[k] = std::make_shared<Inner>(); in[k]->id = num(x["v"]); }
            }
            else if(y == "i") i[k] = std::make_shared<int32_t>((int32_t)num(x["v"]));
            else if(y == "pa") { pa[k] = std::make_shared<PA<V>>(); pa[k]->v = (int32_t)num(x["v"]); b[k] = pa[k]; }
            else if(y == "pb") { pb[k] = std::make_shared<PB<V>>(); pb[k]->v = x["v"]["m"].text(); b[k] = pb[k]; }
            else { auto c = std::make_shared<PC<V>>(); c->v = num(x["v"]); b[k] = c; }
        }
        for(size_t k = 1; k < n; k++) {
            auto& f = g.a[k]["f"].a;
            if(o[k]) { refs(o[k]->o, f[0], o); refs(o[k]->w, f[1], o); refs(o[k]->s, f[2], s); refs(o[k]->b, f[3], b); keyed(o[k]->m, f[4], o); }
            else if(pa[k]) refs(pa[k]->o, f[0], o);
            else if(pb[k]) { refs(pb[k]->b, f[0], b); refs(pb[k]->w, f[1], b); }
        }
        auto& f = g.a[0]["f"].a;
        refs(root.o, f[0], o); refs(root.w, f[1], o); refs(root.s, f[2], s); refs(root.b, f[3], b); keyed(root.m, f[4], o); refs(root.pa, f[5], pa); refs(root.i, f[6], i);
        refs(root.in, f[7], in); refs(root.ou, f[8], ou);
    }
};

/* ------------------------------------------------------------------- dump */
template<int V> struct Dump {
    std::vector<std::string> out;
    std::map<std::pair<const void*, char>, size_t> seen;
    std::vector<std::shared_ptr<void>> alive;
    std::vector<std::function<void()>> spoil;

    template<class T> static const void* addr(const std::shared_ptr<T>& p)
    {
        if constexpr(std::is_polymorphic<T>::value) return dynamic_cast<const void*>(p.get());
        else return p.get();
    }
    template<class T> bool meet(const std::shared_ptr<T>& p, const char* kind, const std::string& v)
    {
        auto at = std::make_pair(addr(p), *kind);
        auto k = seen.find(at);
        if(k != seen.end()) { out.push_back(O().str("t", "r").num("n", (int64_t)k->second).end()); return false; }
        auto n = seen.size() + 1;
        seen[at] = n;
        alive.push_back(p);
        out.push_back(O().str("t", "n").str("k", kind).raw("v", v).end());
        return true;
    }
    void one(const std::shared_ptr<std::string>& p) { if(meet(p, "s", jstr(*p))) spoil.push_back([p] { *p = "spoiled"; }); }
    void one(const std::shared_ptr<int32_t>& p) { if(meet(p, "i", jint(*p))) spoil.push_back([p] { *p = 4711; }); }
    void one(const std::shared_ptr<Inner>& p) { if(meet(p, "n", jint(p->id))) spoil.push_back([p] { p->id = 4711; }); }
    void one(const std::shared_ptr<Outer>& p) { if(meet(p, p->more == p->first.id ? "u" : "U", jint(p->first.id))) spoil.push_back([p] { p->first.id = p->more = 4711; }); }
    void one(const std::shared_ptr<Obj<V>>& p)
    {
        if(!meet(p, "o", jint(p->id))) return;
        spoil.push_back([p] { p->id = 4711; p->o.clear(); p->w.clear(); p->s.clear(); p->b.clear(); p->m.clear(); });
        list(p->o); list(p->w); list(p->s); list(p->b); table(p->m);
    }
    void one(const std::shared_ptr<PA<V>>& p) { if(meet(p, "pa", jint(p->v))) { spoil.push_back([p] { p->v = 4711; p->o.clear(); }); list(p->o); } }
    void one(const std::shared_ptr<Base<V>>& p)
    {
        if(auto a = std::dynamic_pointer_cast<PA<V>>(p)) one(a);
        else if(auto b = std::dynamic_pointer_cast<PB<V>>(p)) { if(meet(p, "pb", jstr(b->v))) { spoil.push_back([b] { b->v = "spoiled"; b->b.clear(); b->w.clear(); }); list(b->b); list(b->w); } }
        else if(auto c = std::dynamic_pointer_cast<PC<V>>(p)) { if(meet(p, c->pad == 77 ? "pc" : "pad", jint(c->v))) spoil.push_back([c] { c->v = 4711; }); }
        else out.push_back("{\"t\":\"?\"}");
    }
    template<class T> void one(const std::weak_ptr<T>& w) { auto p = w.lock(); if(p) one(p); else out.push_back("{\"t\":\"gone\"}"); }
    void count(size_t n) { out.push_back(O().str("t", "c").num("n", (int64_t)n).end()); }
    template<class C> void list(const C& c) { count(c.size()); for(auto& x : c) { if(null(x)) out.push_back("{\"t\":\"null\"}"); else one(x); } }
    template<class T> static bool null(const std::shared_ptr<T>& p) { return !p; }
    template<class T> static bool null(const std::weak_ptr<T>&) { return false; }
    template<class C> void table(const C& c)
    {
        count(c.size());
        size_t k = 0;
        for(auto& x : c) { if(x.first != Make<V>::key(k++)) out.push_back("{\"t\":\"key\"}"); if(!x.second) out.push_back("{\"t\":\"null\"}"); else one(x.second); }
    }
    void root(Root<V>& r) { list(r.o); list(r.w); list(r.s); list(r.b); table(r.m); list(r.pa); list(r.i); list(r.in); list(r.ou); }
};

/* the objects are the restored ones' own: changes do not show anywhere else. Cycles are broken */
template<int V> void spoil(Dump<V>& d) { for(auto& f : d.spoil) f(); }

struct Kept { std::vector<std::shared_ptr<void>> p; };

template<int V> std::string restored(Kept& kept, const std::function<void(Root<V>&)>& f)
{
    auto r = std::make_shared<Root<V>>();
    Dump<V> d;
    auto st = attempt([&] { f(*r); });
    if(st != "ok") return O().str("st", st).end();
    d.root(*r);
    spoil(d);
    kept.p.push_back(r);
    return O().str("st", st).raw("dump", jlist(d.out)).end();
}

template<int V> std::string restore(Kept& kept, Tree& t, const J& o, std::map<std::string, Buf>& bytes)
{
    auto& k = o["k"].s;
    return restored<V>(kept, [&](Root<V>& r) {
        if(k == "paste") { t.root().paste(r); return; }
        if(k == "unwrap") { r = t.root().template unwrap<Root<V>>(); return; }
        if(k == "pieces") {
            t.root().paste_field(String("o"), r.o); t.root().paste_field(String("w"), r.w); t.root().paste_field(String("s"), r.s);
            r.b = t.root().node("b").template unwrap<decltype(r.b)>(); t.root().paste("m", r.m, "pa", r.pa); t.get("i").copy_to(r.i);
            t.root().paste("in", r.in, "ou", r.ou);
            return;
        }
        auto& b = bytes[o["style"].s];
        with_parser(o["style"].s, [&](Parser& parser) {
            std::string text(b.begin(), b.end());
            std::istringstream s(text);
            Drip d(b, (uint32_t)b.size(), 50);
            std::istream ds(&d);
            auto& via = o["via"].s;
            Lib::In::Source src = via == "buf" ? Lib::In::Source(b.data(), b.size()) : via == "stream" ? Lib::In::Source(s) : Lib::In::Source(ds);
            if(k == "restore") t.restore(r, src, parser);
            else t.unpack(src, parser, "o", r.o, "w", r.w, "s", r.s, "b", r.b, "m", r.m, "pa", r.pa, "i", r.i, "in", r.in, "ou", r.ou);
        });
    });
}

template<int V> std::string run(const J& c)
{
    Root<V> root;
    Make<V> objects(c["g"], root);
    std::map<std::string, Buf> bytes;
    for(auto s : { "srl", "msg", "json", "jsonp" }) with_parser(s, [&](Parser& p) { Tree t; bytes[s] = t.store(root, p); });
    std::vector<std::string> rs;
    Kept kept;
    Tree t;
    for(auto& o : c["ops"].a) {
        auto& k = o["k"].s;
        if(k == "store" || k == "pack" || k == "load" || k == "source" || k == "insert") {
            std::string doc;
            auto st = attempt([&] {
                if(k == "load") { t.load_object(root); doc = dump(t.root()); return; }
                if(k == "insert") { t.clear(); t.root().insert("o", root.o, "w", root.w, "s", root.s, "b", root.b, "m", root.m, "pa", root.pa, "i", root.i, "in", root.in, "ou", root.ou); doc = dump(t.root()); return; }
                with_parser(o["style"].s, [&](Parser& p) {
                    if(k == "source") { auto& b = bytes[o["style"].s]; t.load_source(b.data(), b.size(), p); doc = dump(t.root()); return; }
                    Buf b;
                    if(k == "store") b = t.store(root, p);
                    else t.pack(b, p, "o", root.o, "w", root.w, "s", root.s, "b", root.b, "m", root.m, "pa", root.pa, "i", root.i, "in", root.in, "ou", root.ou);
                    Tree l; l.load_source(b.data(), b.size(), p); doc = dump(l.root());
                });
            });
            O r; r.str("st", st);
            if(st == "ok") r.raw("doc", doc);
            rs.push_back(r.end());
        }
        else rs.push_back(o["other"].b ? restore<1 - V>(kept, t, o, bytes) : restore<V>(kept, t, o, bytes));
    }
    return O().str("st", "ok").raw("rs", jlist(rs)).end();
}

/* ------------------------------------------------------ short-lived objects */
struct Temp {
    int64_t v = 0;
    void srl_resolve(Context& ctx) { auto p = std::make_shared<int64_t>(v); ctx("p", p); v = *p; }
};
/* {"temps":[[ints],..],"how":"insert"|"store"|"pack","style":..}: the lists as they are restored */
std::string temps(const J& c)
{
    std::vector<std::vector<int64_t>> lists;
    for(auto& l : c["temps"].a) { lists.emplace_back(); for(auto x : l.ints) lists.back().push_back(x); }
    std::vector<std::string> out;
    auto st = attempt([&] {
        auto& how = c["how"].s;
        with_parser(c["style"].s, [&](Parser& p) {
            Tree t;
            if(how == "insert" || how == "source") {
                for(size_t k = 0; k < lists.size(); k++) {
                    std::vector<std::shared_ptr<int64_t>> l;
                    for(auto x : lists[k]) l.push_back(std::make_shared<int64_t>(x));
                    t.root().insert(String("k" + std::to_string(k)), l);
                }
                if(how == "source") { auto b = t.to_source(p); t.load_source(b.data(), b.size(), p); }
                for(size_t k = 0; k < lists.size(); k++) {
                    auto l = t.root().unwrap_field<std::vector<std::shared_ptr<int64_t>>>(String("k" + std::to_string(k)));
                    std::vector<std::string> o;
                    for(auto& x : l) o.push_back(jint(*x));
                    out.push_back(jlist(o));
                }
                return;
            }
            std::vector<std::vector<Temp>> l;
            for(auto& x : lists) { l.emplace_back(); for(auto y : x) { l.back().emplace_back(); l.back().back().v = y; } }
            Buf b;
            if(how == "store") b = t.store(l, p); else t.pack(b, p, "l", l);
            decltype(l) r;
            if(how == "store") t.restore(r, b.data(), b.size(), p); else t.unpack(Lib::In::Source(b.data(), b.size()), p, "l", r);
            for(auto& x : r) { std::vector<std::string> o; for(auto& y : x) o.push_back(jint(y.v)); out.push_back(jlist(o)); }
        });
    });
    return O().str("st", st).raw("lists", jlist(out)).end();
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string { if(c.has("temps")) return temps(c); return c["v"].i ? run<1>(c) : run<0>(c); });
}
