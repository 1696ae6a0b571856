/* Objects of registered classes behind pointers to their bases, restored from
 * documents whose type ids may be anywhere, unknown, of another hierarchy or
 * missing. {"ops":[..]}:
 *   {"k":"reg","id":[bytes],"c":class}          register a class once more
 *   {"k":"round","slots":..,"how":..,"style":..,"path":..,"via":..}
 *   {"k":"from","b":{style:[bytes]..},"old":..,"style":..,"path":..,"via":..} */
#include "common.h"
#include "streams.h"

using namespace Srl;

namespace {

int64_t live = 0;
struct Counted { Counted() { live++; } Counted(const Counted&) { live++; } ~Counted() { live--; } };
struct UserError { };

struct Base {
    Counted count;
    virtual ~Base() { }
    virtual const TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& ctx) = 0;
};
struct Other {
    Counted count; int64_t first = 5;
    virtual ~Other() { }
    virtual const TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& ctx) = 0;
};
struct Side { virtual ~Side() { } int64_t pad = 77; };

struct A : Base {
    int32_t v = 0; std::string s;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v)("s", s); }
};
struct D : A {
    int64_t more = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { A::srl_resolve(ctx); ctx("more", more); }
};
struct B : Base {
    int64_t v = 0; std::vector<std::unique_ptr<Base>> kids;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("kids", kids)("v", v); }
};
struct C : Side, Base {
    int64_t v = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v); }
};
struct E : Side, virtual Base {
    std::string s;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("s", s); }
};
struct F : Base {
    int64_t v = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v); }
};
struct G : Base {
    int64_t v = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v); }
};
/* user code that fails */
struct T : Base {
    int32_t v = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v); if(v == 13 && ctx.mode() == Mode::Paste) throw UserError(); }
};
struct N : Base {
    const TypeID& srl_type_id() override;
    void srl_resolve(Context&) override { }
};
struct Z : Other {
    int64_t v = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v); }
};

#define CLASS(K, ID) const auto reg##K = register_type<K>(ID); const TypeID& K::srl_type_id() { return reg##K; }
CLASS(A, "A")
CLASS(D, "AA")
CLASS(B, "a class whose name is longer than a machine word, longer than a short string, and longer than what a reader fetches at once........")
CLASS(C, "C\"\\/\xC3\xA9\n")
CLASS(E, "virtually E")
CLASS(F, "7mohtcOFVz")
CLASS(G, "c1E51sSEyx")
CLASS(T, "T")
CLASS(N, "5")
CLASS(Z, "Z")

struct Holder {
    Base* raw = nullptr; std::unique_ptr<Base> uni; std::shared_ptr<Base> sha; A* ra = nullptr; std::unique_ptr<A> ua; std::shared_ptr<A> sa;
    std::unique_ptr<Other> oth; std::shared_ptr<Other> soth;
    std::vector<std::unique_ptr<Base>> vec; std::list<std::shared_ptr<Base>> vsh; std::vector<Base*> vra; std::map<std::string, std::shared_ptr<Base>> map;
    template<class X> void all(X& ctx)
    {
        const uint64_t o = CtxFlags::Optional;
        ctx("raw", raw, o)("uni", uni, o)("sha", sha, o)("ra", ra, o)("ua", ua, o)("sa", sa, o)("oth", oth, o)("soth", soth, o)
           ("vec", vec, o)("vsh", vsh, o)("vra", vra, o)("map", map, o);
    }
    void srl_resolve(Context& ctx) { all(ctx); }
    Holder() { }
    Holder(Holder&& h) { *this = std::move(h); }
    Holder& operator= (Holder&& h)
    {
        std::swap(raw, h.raw); std::swap(ra, h.ra); std::swap(vra, h.vra);
        uni = std::move(h.uni); sha = std::move(h.sha); ua = std::move(h.ua); sa = std::move(h.sa); oth = std::move(h.oth); soth = std::move(h.soth);
        vec = std::move(h.vec); vsh = std::move(h.vsh); map = std::move(h.map);
        return *this;
    }
    ~Holder() { delete raw; delete ra; for(auto* p : vra) delete p; }
};

int64_t num(const J& v) { bool n; uint64_t m; j_int(v, n, m); return (int64_t)(n ? 0 - m : m); }
Base* make(const J& o)
{
    auto& c = o["c"].s; auto& f = o["f"].a;
    if(c == "A") { auto x = new A; x->v = (int32_t)num(f[0]); x->s = f[1]["m"].text(); return x; }
    if(c == "D") { auto x = new D; x->v = (int32_t)num(f[0]); x->s = f[1]["m"].text(); x->more = num(f[2]); return x; }
    if(c == "B") { auto x = new B; for(auto& k : f[0]["e"].a) x->kids.emplace_back(make(k)); x->v = num(f[1]); return x; }
    if(c == "C") { auto x = new C; x->v = num(f[0]); return x; }
    if(c == "E") { auto x = new E; x->s = f[0]["m"].text(); return x; }
    if(c == "F") { auto x = new F; x->v = num(f[0]); return x; }
    if(c == "G") { auto x = new G; x->v = num(f[0]); return x; }
    if(c == "T") { auto x = new T; x->v = (int32_t)num(f[0]); return x; }
    if(c == "N") return new N;
    exit(3);
}
Other* other(const J& o) { if(o["c"].s != "Z") exit(3); auto x = new Z; x->v = num(o["f"].a[0]); return x; }
A* make_a(const J& o) { return dynamic_cast<A*>(make(o)); }

void make(Holder& h, const J& s)
{
    auto at = [&](size_t k) -> const std::vector<J>& { return s.a[k].a; };
    if(s.a.size() != 12) exit(3);
    for(auto& o : at(0)) h.raw = make(o);
    for(auto& o : at(1)) h.uni.reset(make(o));
    for(auto& o : at(2)) h.sha.reset(make(o));
    for(auto& o : at(3)) h.ra = make_a(o);
    for(auto& o : at(4)) h.ua.reset(make_a(o));
    for(auto& o : at(5)) h.sa.reset(make_a(o));
    for(auto& o : at(6)) h.oth.reset(other(o));
    for(auto& o : at(7)) h.soth.reset(other(o));
    for(auto& o : at(8)) h.vec.emplace_back(make(o));
    for(auto& o : at(9)) h.vsh.emplace_back(make(o));
    for(auto& o : at(10)) h.vra.push_back(make(o));
    size_t k = 0;
    for(auto& o : at(11)) h.map["k" + std::to_string(k++)].reset(make(o));
}

std::string obj(const char* c, const std::vector<std::string>& f) { return O().str("c", c).raw("f", jlist(f)).end(); }
std::string dump(Base* p)
{
    if(!p) return obj("null", { });
    auto& t = typeid(*p);
    if(t == typeid(A)) { auto x = static_cast<A*>(p); return obj("A", { jint(x->v), jstr(x->s) }); }
    if(t == typeid(D)) { auto x = static_cast<D*>(p); return obj("D", { jint(x->v), jstr(x->s), jint(x->more) }); }
    if(t == typeid(B)) {
        auto x = static_cast<B*>(p);
        std::vector<std::string> k;
        for(auto& y : x->kids) k.push_back(dump(y.get()));
        return obj("B", { "{\"k\":\"L\",\"e\":" + jlist(k) + "}", jint(x->v) });
    }
    if(t == typeid(C)) { auto x = static_cast<C*>(p); return obj(x->pad == 77 ? "C" : "pad", { jint(x->v) }); }
    if(t == typeid(E)) { auto x = dynamic_cast<E*>(p); return obj(x->pad == 77 ? "E" : "pad", { jstr(x->s) }); }
    if(t == typeid(F)) return obj("F", { jint(static_cast<F*>(p)->v) });
    if(t == typeid(G)) return obj("G", { jint(static_cast<G*>(p)->v) });
    if(t == typeid(T)) return obj("T", { jint(static_cast<T*>(p)->v) });
    if(t == typeid(N)) return obj("N", { });
    return obj("?", { });
}
std::string dump(Other* p)
{
    if(!p) return obj("null", { });
    if(typeid(*p) == typeid(Z) && p->first == 5) return obj("Z", { jint(static_cast<Z*>(p)->v) });
    return obj("?", { });
}
template<class P> std::string one(const P& p) { return p ? "[" + dump(&*p) + "]" : "[]"; }
std::string dump(Holder& h)
{
    std::vector<std::string> s { one(h.raw), one(h.uni), one(h.sha), one(h.ra), one(h.ua), one(h.sa), one(h.oth), one(h.soth) }, l;
    for(auto& x : h.vec) l.push_back(dump(x.get()));
    s.push_back(jlist(l)); l.clear();
    for(auto& x : h.vsh) l.push_back(dump(x.get()));
    s.push_back(jlist(l)); l.clear();
    for(auto* x : h.vra) l.push_back(dump(x));
    s.push_back(jlist(l)); l.clear();
    for(auto& x : h.map) l.push_back(dump(x.second.get()));
    s.push_back(jlist(l));
    return jlist(s);
}

template<class Fn> std::string attempt_(Fn&& f)
{
    std::string st;
    return attempt([&] { try { f(); } catch(const UserError&) { throw Exception("user"); } });
}

template<class Fn> void with_source(const std::string& via, const Buf& b, Fn&& f)
{
    /* exact size: reading beyond it is noticed */
    std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() ? b.size() : 1]);
    std::copy(b.begin(), b.end(), exact.get());
    std::istringstream s(std::string(b.begin(), b.end()));
    Drip d(b, (uint32_t)b.size(), 20);
    std::istream ds(&d);
    if(via == "buf") { Lib::In::Source src(exact.get(), b.size()); f(src); }
    else if(via == "stream") { Lib::In::Source src(s); f(src); }
    else { Lib::In::Source src(ds); f(src); }
}

void restore(Tree& t, Holder& h, const J& o, const Buf& b)
{
    auto& path = o["path"].s;
    with_parser(o["style"].s, [&](auto& p) {
        with_source(o["via"].s, b, [&](Lib::In::Source& src) {
            if(path == "restore") t.restore(h, src, p);
            else if(path == "unpack") {
                /* the fields are optional only by way of a context */
                struct Fields { Holder& h; void srl_resolve(Context& ctx) { h.all(ctx); } } f { h };
                t.load_source(src, p); t.root().paste(f);
            }
            else if(path == "load") { t.load_source(src, p); t.root().paste(h); }
            else exit(3);
        });
    });
}

std::deque<std::string> ids; /* are not copied */

std::string run(const J& c)
{
    std::vector<std::string> rs;
    {
        Tree t;
        for(auto& o : c["ops"].a) {
            auto& k = o["k"].s;
            if(k == "reg") {
                ids.push_back(o["id"].text());
                auto* id = ids.back().c_str();
                auto& cl = o["c"].s;
                rs.push_back(O().str("st", attempt([&] {
                    TypeID* r = nullptr;
                    if(cl == "A") r = new auto(register_type<A>(id));
                    else if(cl == "D") r = new auto(register_type<D>(id));
                    else if(cl == "B") r = new auto(register_type<B>(id));
                    else if(cl == "C") r = new auto(register_type<C>(id));
                    else if(cl == "Z") r = new auto(register_type<Z>(id));
                    else exit(3);
                    if(r->name() != std::string(id)) throw std::runtime_error("name");
                    if(cl == "A") delete static_cast<Lib::TypeRegistration<A>*>(r); else if(cl == "D") delete static_cast<Lib::TypeRegistration<D>*>(r);
                    else if(cl == "B") delete static_cast<Lib::TypeRegistration<B>*>(r); else if(cl == "C") delete static_cast<Lib::TypeRegistration<C>*>(r);
                    else delete static_cast<Lib::TypeRegistration<Z>*>(r);
                })).end());
                continue;
            }
            Holder h;
            O r;
            if(k == "from") {
                make(h, o["old"]);
                auto b = o["b"][o["style"].s.c_str()].bytes();
                r.str("st", attempt_([&] { restore(t, h, o, b); }));
                r.raw("dump", dump(h));
            }
            else {
                Holder src;
                make(src, o["slots"]);
                std::string doc = "0";
                Buf b;
                auto st = attempt([&] {
                    with_parser(o["style"].s, [&](auto& p) {
                        auto& how = o["how"].s;
                        if(how == "store") b = t.store(src, p);
                        else if(how == "stream") { std::stringstream ss; t.store(src, ss, p); auto x = ss.str(); b.assign(x.begin(), x.end()); }
                        else if(how == "load") { t.load_object(src); b = t.to_source(p); }
                        else t.pack(b, p, "raw", src.raw, "uni", src.uni, "sha", src.sha, "ra", src.ra, "ua", src.ua, "sa", src.sa, "oth", src.oth, "soth", src.soth,
                                                  "vec", src.vec, "vsh", src.vsh, "vra", src.vra, "map", src.map);
                        Tree l; l.load_source(b.data(), b.size(), p); doc = ::dump(l.root());
                    });
                });
                r.str("st", st);
                if(st == "ok") {
                    r.raw("doc", doc);
                    r.str("back", attempt_([&] { restore(t, h, o, b); }));
                    r.raw("dump", dump(h));
                }
            }
            rs.push_back(r.end());
        }
    }
    auto left = live;
    live = 0;
    return O().str("st", "ok").raw("rs", jlist(rs)).num("live", left).end();
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string { return run(c); });
}
