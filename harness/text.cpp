/* Text in several encodings, binary data, base64 and hex. */
#include "common.h"

using namespace Srl;

static Encoding enc_of(int64_t e) { return e == 16 ? Encoding::UTF16 : e == 32 ? Encoding::UTF32 : Encoding::UTF8; }
static int num_of(Encoding e) { return e == Encoding::UTF16 ? 16 : e == Encoding::UTF32 ? 32 : e == Encoding::UTF8 ? 8 : 0; }

/* a copy of the exact size */
struct Exact {
    std::unique_ptr<uint8_t[]> p; size_t n;
    Exact(const Buf& b) : p(new uint8_t[b.size() ? b.size() : 1]), n(b.size()) { if(n) memcpy(p.get(), b.data(), n); }
    ~Exact() { if(n) memset(p.get(), '#', n); }
};
static std::string out_of(const std::string& st, const Buf& b) { return O().str("st", st).raw("b", jbytes(b)).end(); }

/* distinct results of equivalent functions */
struct Outs {
    std::vector<std::string> v;
    template<class F> void add(F&& f)
    {
        Buf b;
        auto st = attempt([&] { b = f(); });
        if(st != "ok") b.clear();
        auto s = out_of(st, b);
        for(auto& x : v) if(x == s) return;
        v.push_back(s);
    }
};
template<class C> Buf bytes_of(const std::basic_string<C>& s)
{
    auto* p = (const uint8_t*)s.data();
    return Buf(p, p + s.size() * sizeof(C));
}
template<class C> std::basic_string<C> string_of(const Buf& b)
{
    std::basic_string<C> s(b.size() / sizeof(C), 0);
    if(!b.empty()) memcpy((void*)s.data(), b.data(), s.size() * sizeof(C));
    return s;
}

/* ------------------------------------------------------------------ conversion */
template<class C> void conv_as(Outs& o, const String& s)
{
    o.add([&] { return bytes_of(Tools::conv_charset<C>(s, true)); });
    o.add([&] { return bytes_of(s.unwrap<C>()); });
}
template<class C> void conv_quiet(Outs& o, const String& s)
{
    o.add([&] { return bytes_of(Tools::conv_charset<C>(s, false)); });
    o.add([&] { return bytes_of(s.unwrap<C>(false)); });
}
static std::string conv(const J& c)
{
    Exact e(c["b"].bytes());
    auto from = c["from"].i, to = c["to"].i;
    String s(e.p.get(), e.n, enc_of(from));
    Outs o, q;
    bool pre = true;
    auto into = [&](bool thr) {
        size_t idx = (size_t)c["pre"].i, cap = (size_t)c["cap"].i;
        Buf buf(cap, 0x5A);
        for(size_t i = 0; i < idx && i < cap; i++) buf[i] = (uint8_t)(i * 7 + 1);
        Buf was(buf);
        Buf r;
        try {
            size_t n = Tools::conv_charset(enc_of(to), s, buf, thr, idx);
            if(n > 0 && idx + n > buf.size()) throw std::runtime_error("size");
            if(n > 0) r.assign(buf.begin() + (long)idx, buf.begin() + (long)(idx + n));
        } catch(...) {
            for(size_t i = 0; i < idx && i < cap; i++) pre = pre && i < buf.size() && buf[i] == was[i];
            throw;
        }
        for(size_t i = 0; i < idx && i < cap; i++) pre = pre && i < buf.size() && buf[i] == was[i];
        return r;
    };
    o.add([&] { return Tools::conv_charset(enc_of(to), s); });
    o.add([&] { return into(true); });
    q.add([&] { return Tools::conv_charset(enc_of(to), s, false); });
    q.add([&] { return into(false); });
    if(to == 8) { conv_as<char>(o, s); conv_quiet<char>(q, s); }
    if(to == 16) { conv_as<char16_t>(o, s); conv_quiet<char16_t>(q, s); }
    if(to == 32) { conv_as<char32_t>(o, s); conv_quiet<char32_t>(q, s); conv_as<wchar_t>(o, s); conv_quiet<wchar_t>(q, s); }
    return O().str("st", "ok").raw("outs", jlist(o.v)).raw("quiet", jlist(q.v)).boolean("pre", pre).end();
}

/* ------------------------------------------------------------- store, restore */
template<class T> struct Hold { T& x; Hold(T& x_) : x(x_) { } void srl_resolve(Context& ctx) { ctx("t", x); } };

static Buf write_tree(Tree& t, const J& c)
{
    return with_parser(c["fmt"].s, [&](auto& p) -> Buf {
        if(c["via"].s == "buf") return t.to_source(p);
        std::stringstream ss;
        t.to_source(ss, p);
        std::string s = ss.str();
        return Buf(s.begin(), s.end());
    });
}
static void load_tree(Tree& t, const J& c, const Buf& b)
{
    with_parser(c["fmt"].s, [&](auto& p) {
        if(c["via"].s == "buf") { Exact e(b); t.load_source(e.p.get(), e.n, p); }
        else { std::stringstream ss(std::string((const char*)b.data(), b.size())); t.load_source(ss, p); }
    });
}
template<class T> Buf store_obj(T& x, const J& c)
{
    Hold<T> h(x);
    return with_parser(c["fmt"].s, [&](auto& p) -> Buf {
        if(c["via"].s == "buf") return Tree().store(h, p);
        std::stringstream ss;
        Tree().store(h, ss, p);
        std::string s = ss.str();
        return Buf(s.begin(), s.end());
    });
}
template<class T> void restore_obj(T& x, const J& c, const Buf& b)
{
    Hold<T> h(x);
    with_parser(c["fmt"].s, [&](auto& p) {
        if(c["via"].s == "buf") { Exact e(b); Tree().restore(h, e.p.get(), e.n, p); }
        else { std::stringstream ss(std::string((const char*)b.data(), b.size())); Tree().restore(h, ss, p); }
    });
}

/* f gets the object that holds the text */
template<class C, class F> void as_source(const J& c, const Buf& b, F&& f)
{
    auto& ty = c["ty"].s;
    auto s = string_of<C>(b);
    if(ty == "bs") f(s);
    else if(ty == "ch") { C x = s[0]; f(x); }
    else if(ty == "p") { const C* p = s.c_str(); f(p); }
    else if(ty == "ar") { C a[3000]; memset(a, 0, sizeof a); memcpy(a, s.data(), s.size() * sizeof(C)); f(a); }
    else exit(3);
    std::fill(s.begin(), s.end(), (C)'#');
}
template<class C, class F> Buf as_target(const J& c, F&& f)
{
    auto& as = c["as"].s;
    if(as == "bs") { std::basic_string<C> s; s.assign(3, (C)'?'); f(s); return bytes_of(s); }
    if(as == "ch") { C x = 0; f(x); return bytes_of(std::basic_string<C>(1, x)); }
    if(as == "a16") {
        struct { C a[16]; C guard; } g; for(auto& x : g.a) x = (C)'?'; g.guard = (C)'!';
        f(g.a);
        size_t n = 0; while(n < 16 && g.a[n]) n++;
        if(n == 16 || g.guard != (C)'!') throw std::runtime_error("beyond the array");
        return bytes_of(std::basic_string<C>(g.a, n));
    }
    if(as == "a3k") {
        std::unique_ptr<C[][3000]> a(new C[1][3000]);
        for(auto& x : a[0]) x = (C)'?';
        f(a[0]);
        size_t n = 0; while(n < 3000 && a[0][n]) n++;
        if(n == 3000) throw std::runtime_error("beyond the array");
        return bytes_of(std::basic_string<C>(a[0], n));
    }
    exit(3);
}
template<class F> void with_source(const J& c, const Buf& b, F&& f)
{
    auto from = c["from"].i;
    if(from == 8) as_source<char>(c, b, f);
    else if(from == 16) as_source<char16_t>(c, b, f);
    else if(c.has("w")) as_source<wchar_t>(c, b, f);
    else as_source<char32_t>(c, b, f);
}
template<class F> Buf with_target(const J& c, F&& f)
{
    auto to = c["to"].i;
    if(to == 8) return as_target<char>(c, f);
    if(to == 16) return as_target<char16_t>(c, f);
    if(c.has("w2")) return as_target<wchar_t>(c, f);
    return as_target<char32_t>(c, f);
}

static std::string store(const J& c)
{
    auto b = c["b"].bytes();
    auto& path = c["path"].s;
    Buf out, src;
    int enc = (int)c["to"].i;
    auto st = attempt([&] {
        if(path == "obj") {
            with_source(c, b, [&](auto& x) { src = store_obj(x, c); });
            out = with_target(c, [&](auto& x) { restore_obj(x, c, src); });
            return;
        }
        auto t = std::make_unique<Tree>(Type::Object);
        if(c["ty"].s == "S") { Exact e(b); t->root().insert("t", String(e.p.get(), e.n, enc_of(c["from"].i))); }
        else with_source(c, b, [&](auto& x) { t->root().insert("t", x); });
        if(path == "doc") {
            auto by = write_tree(*t, c);
            t = std::make_unique<Tree>();
            load_tree(*t, c, by);
        }
        if(c["as"].s == "S") {
            auto s = t->root().unwrap_field<String>("t");
            enc = num_of(s.encoding());
            out = Buf(s.data(), s.data() + s.size());
        }
        else out = with_target(c, [&](auto& x) { t->root().paste_field("t", x); });
    });
    if(st != "ok") out.clear();
    return O().str("st", st).raw("b", jbytes(out)).num("enc", enc).end();
}

/* ---------------------------------------------------------------------- names */
struct Inner { int i; void srl_resolve(Context& ctx) { ctx("i", i); } };
struct Ask {
    std::vector<std::unique_ptr<Exact>> mem; std::vector<String> names; std::vector<int> vals;
    void srl_resolve(Context& ctx) { for(size_t i = 0; i < names.size(); i++) ctx(names[i], vals[i], CtxFlags::Optional); }
};
static std::string names(const J& c)
{
    auto& path = c["path"].s;
    std::vector<std::string> ins, asks;
    auto t = std::make_unique<Tree>(Type::Object);
    int i = 0;
    for(auto& n : c["names"].a) {
        Exact e(n["b"].bytes());
        String s(e.p.get(), e.n, enc_of(n["enc"].i));
        i++;
        ins.push_back("\"" + attempt([&] {
            if(n["n"].i) { t->root().insert(s, Inner { i }); }
            else t->root().insert(s, i);
        }) + "\"");
    }
    Buf by;
    auto st = attempt([&] {
        if(path == "mem") return;
        by = write_tree(*t, c);
        t = std::make_unique<Tree>();
        if(path == "doc") load_tree(*t, c, by);
    });
    if(path == "obj") {
        Ask a;
        for(auto& n : c["asks"].a) {
            a.mem.emplace_back(new Exact(n["b"].bytes()));
            a.names.emplace_back(a.mem.back()->p.get(), a.mem.back()->n, enc_of(n["enc"].i));
            a.vals.push_back(-1);
        }
        auto st2 = attempt([&] {
            with_parser(c["fmt"].s, [&](auto& p) {
                if(c["via"].s == "buf") { Exact e(by); t->restore(a, e.p.get(), e.n, p); }
                else { std::stringstream ss(std::string((const char*)by.data(), by.size())); t->restore(a, ss, p); }
            });
        });
        if(st == "ok") st = st2;
        for(auto v : a.vals) asks.push_back(std::to_string(v));
        return O().str("st", st).raw("ins", jlist(ins)).raw("asks", jlist(asks)).end();
    }
    for(auto& n : c["asks"].a) {
        Exact e(n["b"].bytes());
        String s(e.p.get(), e.n, enc_of(n["enc"].i));
        int x = -1, y = -2;
        auto one = attempt([&] {
            if(n["n"].i) { x = t->root().node(s).unwrap_field<int>("i"); y = t->root().has_node(s) ? t->root().find_nodes(s).front()->unwrap_field<int>("i") : -3; }
            else { x = t->root().value(s).unwrap<int>(); y = t->root().has_value(s) ? t->root().find_values(s).front()->unwrap<int>() : -3; }
        });
        asks.push_back(std::to_string(one == "exc" ? -1 : one != "ok" || x != y ? -2 : x));
    }
    return O().str("st", st).raw("ins", jlist(ins)).raw("asks", jlist(asks)).end();
}
static std::string eq(const J& c)
{
    Exact e(c["a"]["b"].bytes()), f(c["z"]["b"].bytes());
    String a(e.p.get(), e.n, enc_of(c["a"]["enc"].i)), z(f.p.get(), f.n, enc_of(c["z"]["enc"].i));
    bool x = false, y = false;
    auto st = attempt([&] { x = a == z; y = z == a; });
    return O().str("st", st).boolean("x", x).boolean("y", y).end();
}

/* --------------------------------------------------------------------- binary */
static std::string b64enc(const J& c)
{
    Exact e(c["b"].bytes());
    Outs o;
    o.add([&] { return Tools::bytes_to_base64(e.p.get(), e.n); });
    for(size_t cap : { 0, 3, 100, 5000 }) o.add([&] {
        Buf b(cap, '#');
        auto n = Tools::bytes_to_base64(e.p.get(), e.n, b);
        return Buf(b.begin(), b.begin() + (long)n);
    });
    return O().str("st", "ok").raw("outs", jlist(o.v)).end();
}
static std::string b64dec(const J& c)
{
    Exact e(c["b"].bytes());
    auto* s = (const char*)e.p.get();
    Outs o;
    o.add([&] { return Tools::base64_to_bytes(s, e.n); });
    o.add([&] {
        Buf b(Tools::get_base64_decoded_size(s, e.n), '#');
        auto n = Tools::base64_to_bytes(b.data(), b.size(), s, e.n);
        return Buf(b.begin(), b.begin() + (long)n);
    });
    o.add([&] {
        /* a larger destination */
        std::unique_ptr<uint8_t[]> b(new uint8_t[e.n + (size_t)c["more"].i]);
        auto n = Tools::base64_to_bytes(b.get(), e.n + (size_t)c["more"].i, s, e.n);
        return Buf(b.get(), b.get() + n);
    });
    return O().str("st", "ok").raw("outs", jlist(o.v)).end();
}
static std::string hexenc(const J& c)
{
    Exact e(c["b"].bytes());
    Outs o;
    o.add([&] { return Tools::bytes_to_hex(e.p.get(), e.n); });
    return O().str("st", "ok").raw("outs", jlist(o.v)).end();
}
static std::string hexdec(const J& c)
{
    Exact e(c["b"].bytes());
    Outs o;
    o.add([&] { return Tools::hex_to_bytes(e.p.get(), e.n); });
    for(size_t more : { 0, 5 }) o.add([&] {
        size_t n = e.n / 2;
        std::unique_ptr<uint8_t[]> b(new uint8_t[n + more + 1]);
        Tools::hex_to_bytes(b.get(), n + more, e.p.get(), e.n);
        return Buf(b.get(), b.get() + n);
    });
    /* too small */
    bool small = true;
    if(e.n >= 2) {
        size_t n = e.n / 2 - 1;
        std::unique_ptr<uint8_t[]> b(new uint8_t[n ? n : 1]);
        small = attempt([&] { Tools::hex_to_bytes(b.get(), n, e.p.get(), e.n); }) == "exc";
    }
    return O().str("st", "ok").raw("outs", jlist(o.v)).boolean("small", small).end();
}

template<class T> std::vector<T> vec_of(const Buf& b) { std::vector<T> v(b.size() / sizeof(T)); if(!v.empty()) memcpy(v.data(), b.data(), v.size() * sizeof(T)); return v; }
template<class T> Buf buf_of(const std::vector<T>& v) { auto* p = (const uint8_t*)v.data(); return Buf(p, p + v.size() * sizeof(T)); }

template<class F> void bin_source(const J& c, F&& f)
{
    auto b = c["b"].bytes();
    auto& ty = c["ty"].s;
    if(ty == "text") { std::string s(b.begin(), b.end()); f(s); }
    else if(ty == "bit") { Exact e(b); BitWrap w(e.p.get(), e.n); f(w); }
    else if(ty == "bytes") { Bytes w { Buf(b) }; f(w); }
    else if(ty == "v1") { auto v = vec_of<uint8_t>(b); VecWrap<uint8_t> w(v); f(w); }
    else if(ty == "v2") { auto v = vec_of<int16_t>(b); VecWrap<int16_t> w(v); f(w); }
    else if(ty == "v4") { auto v = vec_of<uint32_t>(b); VecWrap<uint32_t> w(v); f(w); }
    else if(ty == "v8") { auto v = vec_of<double>(b); VecWrap<double> w(v); f(w); }
    else exit(3);
}
template<class F> Buf bin_target(const J& c, F&& f)
{
    auto& as = c["as"].s;
    if(as == "bit") {
        std::unique_ptr<uint8_t[]> p; size_t n = 0; int calls = 0;
        BitWrap w([&](size_t sz) { n = sz; calls++; p.reset(new uint8_t[sz]); return p.get(); });
        f(w);
        if(calls != 1) throw std::runtime_error("calls of alloc");
        return Buf(p.get(), p.get() + n);
    }
    if(as == "bytes") { Bytes w(Buf { 1, 2, 3 }); f(w); return std::move(w).extract(); }
    if(as == "v1") { std::vector<uint8_t> v { 1, 2 }; { VecWrap<uint8_t> w(v); f(w); } return buf_of(v); }
    if(as == "v2") { std::vector<int16_t> v { 1, 2 }; { VecWrap<int16_t> w(v); f(w); } return buf_of(v); }
    if(as == "v4") { std::vector<uint32_t> v { 1, 2 }; { VecWrap<uint32_t> w(v); f(w); } return buf_of(v); }
    if(as == "v8") { std::vector<double> v { 1, 2 }; { VecWrap<double> w(v); f(w); } return buf_of(v); }
    exit(3);
}
static std::string bin(const J& c)
{
    auto& path = c["path"].s;
    Buf out, src;
    auto st = attempt([&] {
        if(path == "obj") {
            bin_source(c, [&](auto& x) { src = store_obj(x, c); });
            out = bin_target(c, [&](auto& x) { restore_obj(x, c, src); });
            return;
        }
        auto t = std::make_unique<Tree>(Type::Object);
        bin_source(c, [&](auto& x) { t->root().insert("t", x); });
        if(path == "doc") {
            src = write_tree(*t, c);
            t = std::make_unique<Tree>();
            load_tree(*t, c, src);
        }
        out = bin_target(c, [&](auto& x) { t->root().paste_field("t", x); });
    });
    if(st != "ok") out.clear();
    /* white space does not matter */
    Buf s;
    if(c["fmt"].s[0] == 'j' && c["ty"].s != "text") for(auto x : src) if(!isspace(x)) s.push_back(x);
    return O().str("st", st).raw("b", jbytes(out)).raw("src", jbytes(s)).end();
}

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        auto& op = c["op"].s;
        if(op == "conv") return conv(c);
        if(op == "store") return store(c);
        if(op == "names") return names(c);
        if(op == "eq") return eq(c);
        if(op == "b64enc") return b64enc(c);
        if(op == "b64dec") return b64dec(c);
        if(op == "hexenc") return hexenc(c);
        if(op == "hexdec") return hexdec(c);
        if(op == "bin") return bin(c);
        exit(3);
    });
}
