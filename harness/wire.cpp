/* Writing, reading and converting documents. */
#include "common.h"

using namespace Srl;

static Buf write_doc(Tree& t, const std::string& fmt, bool stream)
{
    return with_parser(fmt, [&](auto& p) -> Buf {
        if(!stream) return t.to_source(p);
        std::stringstream ss;
        t.to_source(ss, p);
        std::string s = ss.str();
        return Buf(s.begin(), s.end());
    });
}

/* a copy of the exact size, so that reading beyond it is noticed */
struct Exact {
    std::unique_ptr<uint8_t[]> p; size_t n;
    Exact(const uint8_t* d, size_t n_) : p(new uint8_t[n_ ? n_ : 1]), n(n_) { if(n) memcpy(p.get(), d, n); }
    ~Exact() { if(n) memset(p.get(), '#', n); }
};

static void read_doc(Tree& t, const std::string& fmt, bool stream, const uint8_t* d, size_t n)
{
    with_parser(fmt, [&](auto& p) {
        if(stream) {
            std::stringstream ss(std::string((const char*)d, n));
            t.load_source(ss, p);
        } else {
            Exact e(d, n);
            t.load_source(e.p.get(), e.n, p);
        }
    });
}

static int depth(Node& n)
{
    int d = 0;
    for(auto* c : n.all_nodes()) d = std::max(d, depth(*c) + 1);
    return d;
}

/* -------------------------------------------------- documents made by hand */
/* Inserts the items of a scope by all means there are, values and scopes in any order
 * (that of either of them being kept). Everything that is inserted dies right away. */
struct Hand {
    const J* d = nullptr;
    uint64_t* mix = nullptr;

    unsigned pick(unsigned n) { *mix = *mix * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(*mix >> 33) % n; }

    void srl_resolve(Context& ctx)
    {
        if(ctx.mode() == Mode::Insert) put(ctx.node(), *d);
    }

    /* a list of values of one kind */
    template<class T, class F> void list(Node& n, const String& name, const J& v, F&& get)
    {
        auto& a = v.a;
        switch(a.size()) {
            case 0 : n.insert(name, std::initializer_list<T> { }); break;
            case 1 : n.insert(name, { T(get(a[0]["s"])) }); break;
            case 2 : n.insert(name, { T(get(a[0]["s"])), T(get(a[1]["s"])) }); break;
            case 3 : n.insert(name, { T(get(a[0]["s"])), T(get(a[1]["s"])), T(get(a[2]["s"])) }); break;
            default: n.insert(name, { T(get(a[0]["s"])), T(get(a[1]["s"])), T(get(a[2]["s"])), T(get(a[3]["s"])) });
        }
    }
    static char listable(const J& d)
    {
        if(scope_type(d) != Type::Array || d["c"].a.size() || d["v"].a.size() > 4) return 0;
        char k = 0;
        for(auto& v : d["v"].a) {
            char x = v["s"]["k"].s[0];
            if(k && k != x) return 0;
            bool neg; uint64_t mag;
            if(x == 'i') { j_int(v["s"], neg, mag); if(mag >> 63) return 0; }
            else if(x != 's' && x != 'b') return 0;
            k = x;
        }
        return k ? k : 'i';
    }

    void value(Node& n, const J& v)
    {
        if(pick(3)) { insert_scalar(n, v["n"].text(), v["s"]); return; }
        /* the value of another document */
        Tree t;
        insert_scalar(t.root(), "of another document", v["s"]);
        std::string name = v["n"].text();
        n.insert(String(name), t.root().value(0));
        std::fill(name.begin(), name.end(), '#');
    }

    void scope(Node& n, const J& c)
    {
        std::string name = c["n"].text();
        auto& d = c["d"];
        auto tp = scope_type(d);
        char k;
        switch(pick(5)) {
            case 0 :
                if(tp == Type::Object) { Hand h { &d, mix }; n.insert(String(name), h); break; }
                [[fallthrough]];
            case 1 :
                if((k = listable(d))) {
                    if(k == 'i') list<int64_t>(n, String(name), d["v"], [](const J& s) { bool neg; uint64_t mag; j_int(s, neg, mag); return neg ? -(int64_t)mag : (int64_t)mag; });
                    if(k == 's') list<std::string>(n, String(name), d["v"], [](const J& s) { return s["m"].text(); });
                    if(k == 'b') list<bool>(n, String(name), d["v"], [](const J& s) { return s["m"].ints[0] != 0; });
                    break;
                }
                [[fallthrough]];
            case 2 : {
                /* a scope of another document */
                auto t = std::make_unique<Tree>(tp);
                if(pick(2)) fill(t->root(), d); else put(t->root(), d);
                n.insert(String(name), t->root());
                t->clear();
                break;
            }
            case 3 : {
                /* a list of objects */
                bool objects = tp == Type::Array && d["v"].a.empty();
                for(auto& x : d["c"].a) if(scope_type(x["d"]) != Type::Object) objects = false;
                if(objects) {
                    std::vector<Hand> l;
                    for(auto& x : d["c"].a) l.push_back(Hand { &x["d"], mix });
                    n.insert(String(name), l);
                    break;
                }
                [[fallthrough]];
            }
            default : {
                const std::function<void(Node&)> fn = [&](Node& m) { put(m, d); };
                n.insert(String(name), ScopeWrap(fn, tp));
            }
        }
        std::fill(name.begin(), name.end(), '#');
    }

    void put(Node& n, const J& d)
    {
        size_t i = 0, j = 0;
        auto& v = d["v"].a; auto& c = d["c"].a;
        while(i < v.size() || j < c.size()) {
            if(j == c.size() || (i < v.size() && pick(2))) value(n, v[i++]);
            else scope(n, c[j++]);
        }
    }
};

/* up to three items are packed under their names */
template<class P, class... A> void pack_items(Tree& t, Lib::Out::Source out, P& p, Hand& h, const J& d, size_t i, size_t j, const A&... args)
{
    auto& v = d["v"].a; auto& c = d["c"].a;
    if(i == v.size() && j == c.size()) { t.pack(out, p, args...); return; }
    if constexpr(sizeof...(A) < 6) {
        if(j == c.size() || (i < v.size() && h.pick(2))) {
            Tree other; insert_scalar(other.root(), "x", v[i]["s"]);
            std::string name = v[i]["n"].text();
            pack_items(t, out, p, h, d, i + 1, j, args..., String(name), other.root().value(0));
        } else {
            std::string name = c[j]["n"].text();
            auto& x = c[j]["d"];
            if(scope_type(x) == Type::Object && h.pick(2)) {
                pack_items(t, out, p, h, d, i, j + 1, args..., String(name), Hand { &x, h.mix });
            } else {
                const std::function<void(Node&)> fn = [&](Node& m) { h.put(m, x); };
                pack_items(t, out, p, h, d, i, j + 1, args..., String(name), ScopeWrap(fn, scope_type(x)));
            }
        }
    } else { fprintf(stderr, "script: too many items\n"); exit(3); }
}

static Buf make_by_hand(const J& c, const std::string& fmt, bool stream)
{
    auto& made = c["made"].s;
    uint64_t mix = (uint64_t)c["mix"].i;
    Hand h { &c["doc"], &mix };
    return with_parser(fmt, [&](auto& p) -> Buf {
        std::stringstream ss;
        Buf b;
        auto text = [&] { std::string s = ss.str(); return Buf(s.begin(), s.end()); };
        if(made == "store") {
            Tree t;
            if(!stream) return t.store(h, p);
            t.store(h, ss, p);
            return text();
        }
        if(made == "pack") {
            Tree t;
            if(stream) { pack_items(t, ss, p, h, *h.d, 0, 0); return text(); }
            pack_items(t, b, p, h, *h.d, 0, 0);
            return b;
        }
        Tree t(scope_type(*h.d));
        if(made == "load") t.load_object(h); else h.put(t.root(), *h.d);
        if(stream) { t.to_source(ss, p); return text(); }
        if(made == "node") { t.root().to_source(b, p); return b; }
        return t.to_source(p);
    });
}

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        auto& op = c["op"].s;
        bool stream = c.has("via") && c["via"].s == "stream";
        O o;
        if(op == "w") {
            auto& fmt = c.has("style") ? c["style"].s : c["fmt"].s;
            Buf b;
            auto st = attempt([&] {
                if(c.has("made")) { b = make_by_hand(c, fmt, stream); return; }
                Tree t(scope_type(c["doc"]));
                fill(t.root(), c["doc"]);
                b = write_doc(t, fmt, stream);
            });
            return o.str("st", st).raw("b", jbytes(b)).end();
        }
        if(op == "r" || op == "raw" || op == "nest") {
            std::string doc;
            auto b = c["b"].bytes();
            auto st = attempt([&] {
                Tree t;
                read_doc(t, c["fmt"].s, stream, b.data(), b.size());
                doc = dump(t.root());
                if(depth(t.root()) > 40) doc.clear();
            });
            o.str("st", st);
            if(st == "ok" && !doc.empty()) o.raw("doc", doc);
            return o.end();
        }
        if(op == "cut") {
            auto b = c["b"].bytes();
            std::vector<std::string> sts;
            for(auto n : c["cuts"].ints) {
                Tree t;
                sts.push_back("\"" + attempt([&] { read_doc(t, c["fmt"].s, stream, b.data(), (size_t)n); }) + "\"");
            }
            return o.str("st", "ok").raw("sts", jlist(sts)).end();
        }
        if(op == "rt") {
            std::vector<std::string> docs;
            auto st = attempt([&] {
                auto t = std::make_unique<Tree>(scope_type(c["doc"]));
                fill(t->root(), c["doc"]);
                size_t i = 0;
                for(auto& f : c["styles"].a) {
                    auto b = write_doc(*t, f.s, c["vias"].ints[i] & 1);
                    /* into a new tree, or into the same one */
                    if(c["vias"].ints[i] & 4) t = std::make_unique<Tree>();
                    read_doc(*t, f.s, c["vias"].ints[i] & 2, b.data(), b.size());
                    docs.push_back(dump(t->root()));
                    i++;
                }
            });
            return o.str("st", st).raw("docs", jlist(docs)).end();
        }
        return o.str("st", "badop").end();
    });
}
