/* Histories of operations, some of which fail, on the same Trees and parsers. Every operation
 * is carried out with fresh instances as well:
 *   {"ops":[{"k":..,"t":tree,"p":parser,..}]} -> {"st":"ok","rs":[{"st","out","fst","fout","held":[doc,doc]}..]} */
#ifndef VERIF_SESSION_H
#define VERIF_SESSION_H
#include <atomic>
#include "common.h"
#include "streams.h"

using namespace Srl;

namespace {

struct UserError { };

struct Item { int64_t x = 0; void srl_resolve(Context& ctx) { ctx("x", x); } };
/* user code that fails */
struct Bomb {
    int32_t v = 0;
    void srl_resolve(Context& ctx)
    {
        if(v == 1001 && ctx.mode() == Mode::Insert) throw UserError();
        ctx("v", v);
        if(v == 1002 && ctx.mode() == Mode::Insert) throw UserError();
        if(v == 1003 && ctx.mode() == Mode::Paste) throw UserError();
    }
};
/* registered class */
struct Part {
    virtual ~Part() { }
    virtual const TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& ctx) = 0;
};
struct Wheel : Part { int32_t n = 0; const TypeID& srl_type_id() override; void srl_resolve(Context& ctx) override { ctx("n", n); } };
const auto reg_wheel = register_type<Wheel>("wheel");
const TypeID& Wheel::srl_type_id() { return reg_wheel; }

struct Thing {
    int64_t a = 0; std::string s; std::u16string w; std::shared_ptr<Item> p { new Item }, q { new Item }; Bomb b; std::vector<int32_t> v;
    std::vector<Thing> kids; std::map<std::string, int64_t> m; std::unique_ptr<Part> part { new Wheel };
    double d = 0; Buf x;
    int32_t bad = 0; /* not as it should be when stored */
    void srl_resolve(Context& ctx)
    {
        bool in = ctx.mode() == Mode::Insert;
        if(in && bad == 1) { std::string many = "many"; ctx("a", many); } else ctx("a", a);
        if(!(in && bad == 2)) ctx("s", s);
        ctx("w", w)("p", p)("q", q);
        if(in && bad == 3) ctx("kids", a); else ctx("kids", kids);
        ctx("b", b)(u"v\u00e9", v)("m", m);
        if(!(in && bad == 4)) ctx("part", part);
        ctx("d", d)("x", VecWrap<uint8_t>(x));
    }
};

int64_t num(const J& v) { bool n; uint64_t m; j_int(v, n, m); return (int64_t)(n ? 0 - m : m); }
Thing make(const J& o)
{
    Thing t;
    t.a = num(o["a"]); t.s = o["s"]["m"].text(); t.w = to16(o["w"]["m"].text());
    t.p->x = num(o["p"]);
    if(o["same"].i) t.q = t.p; else t.q->x = num(o["q"]);
    t.b.v = (int32_t)o["b"].i; t.bad = (int32_t)o["bad"].i;
    for(auto& x : o["v"].a) t.v.push_back((int32_t)num(x));
    for(auto& x : o["kids"].a) t.kids.push_back(make(x));
    size_t k = 0;
    for(auto& x : o["m"].a) t.m["k" + std::to_string(k++)] = num(x);
    static_cast<Wheel&>(*t.part).n = (int32_t)num(o["part"]);
    t.d = j_fp(o["d"]); t.x = o["x"]["m"].bytes();
    return t;
}
std::string show(const Thing& t)
{
    O r;
    r.raw("a", jint(t.a)).raw("s", jstr(t.s)).raw("w", jstr(utf8_of((const uint8_t*)t.w.data(), t.w.size() * 2, Encoding::UTF16)));
    r.raw("p", t.p ? jint(t.p->x) : "0").raw("q", t.q ? jint(t.q->x) : "0").num("same", t.p == t.q).num("b", t.b.v).num("bad", 0);
    std::vector<std::string> l;
    for(auto x : t.v) l.push_back(jint(x));
    r.raw("v", jlist(l)); l.clear();
    for(auto& x : t.kids) l.push_back(show(x));
    r.raw("kids", jlist(l)); l.clear();
    for(auto& x : t.m) l.push_back(jint(x.second));
    r.raw("m", jlist(l));
    auto* w = dynamic_cast<Wheel*>(t.part.get());
    r.raw("part", w ? jint(w->n) : "0").raw("d", jfp(t.d)).raw("x", jbin(t.x));
    return r.end();
}
typedef std::vector<int32_t> Ints;
Ints ints(const J& o) { Ints v; for(auto& x : o.a) v.push_back((int32_t)num(x)); return v; }
std::string show(const Ints& v) { std::vector<std::string> l; for(auto x : v) l.push_back(jint(x)); return jlist(l); }

/* f with the object of the description {"ty":thing|ints|num,"o":..} */
template<class Fn> void with_object(const J& d, Fn&& f)
{
    auto& ty = d["ty"].s;
    if(ty == "thing") f(make(d["o"]));
    else if(ty == "ints") f(ints(d["o"]));
    else f(num(d["o"]));
}
template<class Fn> std::string with_target(const std::string& ty, Fn&& f)
{
    if(ty == "thing") { Thing t; f(t); return show(t); }
    if(ty == "ints") { Ints t; f(t); return show(t); }
    int64_t n = 0; f(n); return jint(n);
}

/* throws in the middle */
struct Broken : std::streambuf {
    Buf data; bool done = false;
    Broken(const Buf& b, size_t n) : data(b.begin(), b.begin() + (long)std::min(n, b.size())) { }
    int_type underflow() override
    {
        if(done || data.empty()) throw UserError();
        done = true;
        setg((char*)data.data(), (char*)data.data(), (char*)data.data() + data.size());
        return traits_type::to_int_type((char)data[0]);
    }
};
struct Full : std::streambuf {
    std::string data; size_t room;
    Full(size_t n) : room(n) { }
    int_type overflow(int_type c) override { if(data.size() >= room) throw UserError(); data += traits_type::to_char_type(c); return traits_type::not_eof(c); }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        auto k = std::min((size_t)n, room - data.size());
        data.append(s, k);
        if(k < (size_t)n) throw UserError();
        return n;
    }
};

template<class Fn> void with_source(const J& o, const Buf& b, Fn&& f)
{
    auto& via = o["via"].s;
    std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() ? b.size() : 1]);
    std::copy(b.begin(), b.end(), exact.get());
    if(via == "buf") f(Lib::In::Source(exact.get(), b.size()));
    else if(via == "stream") { std::istringstream s(std::string(b.begin(), b.end())); f(Lib::In::Source(s)); }
    else if(via == "drip") { Drip d(b, (uint32_t)b.size(), 20); std::istream s(&d); f(Lib::In::Source(s)); }
    else { Broken d(b, (size_t)o["at"].i); std::istream s(&d); s.exceptions(std::ios::badbit); f(Lib::In::Source(s)); }
}
template<class Fn> std::string with_sink(const J& o, Fn&& f)
{
    auto& via = o["via"].s;
    if(via == "buf") { Buf b { 1, 2, 3 }; f(Lib::Out::Source(b)); return jbytes(b); }
    if(via == "stream" || via == "drip") {
        std::ostringstream s;
        if(via == "drip") s << "##########";
        f(Lib::Out::Source(s));
        return jbytes(s.str());
    }
    Full d((size_t)o["at"].i); std::ostream s(&d); s.exceptions(std::ios::badbit); f(Lib::Out::Source(s)); return jbytes(d.data);
}

struct Parsers {
    PSrl srl[2]; PMsgPack msg[2]; PJson json[2] { PJson(false), PJson(false) }, jsonp[2];
    Parser& get(int64_t k)
    {
        switch(k) {
            case 0: case 1: return srl[k];
            case 2: case 3: return msg[k - 2];
            case 4: case 5: return json[k - 4];
            default: return jsonp[k - 6];
        }
    }
};

template<class Fn> std::string guarded(Fn&& f)
{
    return attempt([&] { try { f(); } catch(const UserError&) { throw Exception("user"); } catch(const std::ios_base::failure&) { throw Exception("stream"); } });
}

/* bytes of a source, made with instances of their own */
Buf source(const J& o)
{
    Buf b;
    { Parsers ps; Tree t; with_object(o["obj"], [&](auto&& x) { b = t.store(x, ps.get(o["p"].i)); }); }
    if(o["cut"].i >= 0) b.resize(std::min(b.size(), (size_t)o["cut"].i));
    for(auto& f : o["flips"].a) { if(!b.empty()) b[(size_t)f.ints[0] % b.size()] = (uint8_t)f.ints[1]; }
    return b;
}

Node& part_of(Tree& t, int64_t n)
{
    auto l = t.root().all_nodes(true);
    if(l.empty()) return t.root();
    return **std::next(l.begin(), n % (int64_t)l.size());
}

/* what the operation gives, st: ok or exc */
std::string perform(Tree& t, Parsers& ps, const J& o, std::string& st)
{
    auto& k = o["k"].s;
    std::string out = "0";
    auto& p = ps.get(o.has("p") ? o["p"].i : 0);
    if(k == "load") { auto b = source(o); st = guarded([&] { with_source(o, b, [&](Lib::In::Source s) { t.load_source(s, p); }); }); }
    else if(k == "restore") { auto b = source(o); st = guarded([&] { out = with_target(o["ty"].s, [&](auto& x) { with_source(o, b, [&](Lib::In::Source s) { t.restore(x, s, p); }); }); }); }
    else if(k == "unpack") {
        auto b = source(o);
        st = guarded([&] {
            Thing x;
            with_source(o, b, [&](Lib::In::Source s) {
                if(o["ty"].s == "thing") t.unpack(s, p, "p", x.p, "a", x.a, "kids", x.kids);
                else t.unpack(s, p, "q", x.q, "w", x.w, "part", x.part);
            });
            out = show(x);
        });
    }
    else if(k == "store") st = guarded([&] { out = with_sink(o, [&](Lib::Out::Source s) { with_object(o["obj"], [&](auto&& x) { t.store(x, s, p); }); }); });
    else if(k == "pack") st = guarded([&] { out = with_sink(o, [&](Lib::Out::Source s) { Thing x = make(o["obj"]["o"]); t.pack(s, p, "q", x.q, "b", x.b, "kids", x.kids, "a", x.a, "p", x.p); }); });
    else if(k == "lobj") st = guarded([&] { with_object(o["obj"], [&](auto&& x) { t.load_object(x); }); });
    else if(k == "write") st = guarded([&] { out = with_sink(o, [&](Lib::Out::Source s) { if(o.has("sub")) part_of(t, o["sub"].i).to_source(s, p); else t.to_source(s, p); }); });
    else if(k == "paste") st = guarded([&] { out = with_target(o["ty"].s, [&](auto& x) { Lib::Aux::TypeSwitch<std::decay_t<decltype(x)>>::Restore(t, x)(); }); });
    else if(k == "insert") st = guarded([&] { insert_scalar(t.root(), o["n"].text(), o["s"]); });
    else if(k == "clear") st = guarded([&] { t.clear(); });
    else exit(3);
    return out;
}


/* operations in the order in which they were completed */
std::atomic<long> completed;

struct Fresh { Parsers ps; Tree t; Fresh() { } Fresh(Tree&& x) : t(std::move(x)) { } };

std::string run(const J& c)
{
    std::vector<std::string> rs;
    Parsers ps;
    Tree t[2];
    /* how to get the document held: operations on a new tree */
    struct Recipe { bool known = true; std::vector<const J*> ops; } recipe[2];
    for(auto& o : c["ops"].a) {
        auto& k = o["k"].s;
        auto n = (size_t)o["t"].i;
        O r;
        if(k == "move") {
            if(o["new"].i) { Tree x(std::move(t[n])); t[1 - n] = std::move(x); } else t[1 - n] = std::move(t[n]);
            recipe[1 - n] = recipe[n];
            recipe[n] = Recipe();
            r.str("st", "ok");
        }
        else {
            std::string st, fst = "none", fout = "0", fheld = "0";
            bool of_held = k == "write" || k == "paste" || k == "insert" || k == "clear";
            auto fresh = [&] {
                if(of_held && !recipe[n].known) return;
                std::unique_ptr<Fresh> f(new Fresh);
                if(of_held) {
                    for(auto* x : recipe[n].ops) { perform(f->t, f->ps, *x, fst); if(fst != "ok") exit(3); f.reset(new Fresh(std::move(f->t))); }
                }
                fout = perform(f->t, f->ps, o, fst);
                fheld = dump(f->t.root());
            };
            /* before or after */
            bool first = rs.size() % 2;
            if(first) fresh();
            auto out = perform(t[n], ps, o, st);
            if(!first) fresh();
            r.str("st", st).raw("out", out).str("fst", fst).raw("fout", fout).raw("fheld", fheld);
            if(k == "load" || k == "lobj") { recipe[n] = Recipe(); recipe[n].known = st == "ok"; if(st == "ok") recipe[n].ops.push_back(&o); }
            else if(k == "restore" || k == "unpack" || k == "pack") recipe[n].known = false;
            else if(k == "insert" || k == "clear") recipe[n].ops.push_back(&o);
        }
        r.num("at", ++completed);
        r.raw("held", jlist({ dump(t[0].root()), dump(t[1].root()) }));
        rs.push_back(r.end());
    }
    return O().str("st", "ok").raw("rs", jlist(rs)).end();
}

} // namespace

#endif
