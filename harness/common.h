/* Shared by all drivers: scripts and results are one JSON object per line.
 * The JSON code here is independent of Srl. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/resource.h>

#include "Srl/Srl.h"

typedef std::vector<uint8_t> Buf;

/* ------------------------------------------------------------------ JSON */
struct J {
    enum K { Nil, Bool, Int, Str, Arr, Obj } k = Nil;
    bool b = false;
    int64_t i = 0;
    std::string s;
    std::vector<int32_t> ints;           /* array of integers only */
    std::vector<J> a;                    /* any other array */
    std::vector<std::pair<std::string, J>> o;

    const J& operator[](const char* key) const
    {
        for(auto& p : o) { if(p.first == key) return p.second; }
        fprintf(stderr, "script: no field %s\n", key);
        exit(3);
    }
    bool has(const char* key) const
    {
        for(auto& p : o) { if(p.first == key) return true; }
        return false;
    }
    size_t size() const { return k == Arr ? (a.empty() ? ints.size() : a.size()) : o.size(); }
    Buf bytes() const { return Buf(ints.begin(), ints.end()); }
    std::string text() const { return std::string(ints.begin(), ints.end()); }
};

struct JParse {
    const char* p; const char* e;
    void ws() { while(p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    void bad() { fprintf(stderr, "script: malformed line\n"); exit(3); }
    J val()
    {
        ws();
        J r;
        if(p >= e) bad();
        if(*p == '{') {
            r.k = J::Obj; p++; ws();
            if(*p == '}') { p++; return r; }
            for(;;) {
                ws(); J key = val(); ws();
                if(*p++ != ':') bad();
                r.o.emplace_back(key.s, val());
                ws();
                if(*p == ',') { p++; continue; }
                if(*p++ == '}') return r;
                bad();
            }
        }
        if(*p == '[') {
            r.k = J::Arr; p++; ws();
            if(*p == ']') { p++; return r; }
            for(;;) {
                ws();
                if(r.a.empty() && ((*p >= '0' && *p <= '9') || *p == '-')) {
                    char* end; r.ints.push_back((int32_t)strtol(p, &end, 10)); p = end;
                } else {
                    if(!r.ints.empty()) bad();
                    r.a.push_back(val());
                }
                ws();
                if(*p == ',') { p++; continue; }
                if(*p++ == ']') return r;
                bad();
            }
        }
        if(*p == '"') {
            r.k = J::Str; p++;
            while(p < e && *p != '"') {
                if(*p == '\\') { p++; if(*p != '"' && *p != '\\' && *p != '/') bad(); }
                r.s.push_back(*p++);
            }
            p++;
            return r;
        }
        if(!strncmp(p, "true", 4)) { r.k = J::Bool; r.b = true; p += 4; return r; }
        if(!strncmp(p, "false", 5)) { r.k = J::Bool; p += 5; return r; }
        if(!strncmp(p, "null", 4)) { p += 4; return r; }
        char* end;
        r.k = J::Int; r.i = strtoll(p, &end, 10);
        if(end == p) bad();
        p = end;
        return r;
    }
};

/* results: a string builder is enough */
struct O {
    std::string s = "{";
    O& key(const char* k) { if(s.size() > 1) s += ","; s += "\""; s += k; s += "\":"; return *this; }
    O& str(const char* k, const std::string& v) { key(k); s += "\"" + v + "\""; return *this; }
    O& num(const char* k, int64_t v) { key(k); s += std::to_string(v); return *this; }
    O& boolean(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    O& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
    std::string end() { return s + "}"; }
};

inline std::string jbytes(const uint8_t* p, size_t n)
{
    std::string r = "[";
    r.reserve(n * 4 + 2);
    for(size_t i = 0; i < n; i++) { if(i) r += ","; r += std::to_string((int)p[i]); }
    return r + "]";
}
inline std::string jbytes(const Buf& b) { return jbytes(b.data(), b.size()); }
inline std::string jbytes(const std::string& b) { return jbytes((const uint8_t*)b.data(), b.size()); }
inline std::string jlist(const std::vector<std::string>& v)
{
    std::string r = "[";
    for(size_t i = 0; i < v.size(); i++) { if(i) r += ","; r += v[i]; }
    return r + "]";
}

/* ------------------------------------------------------------- transcoding */
inline void put_utf8(std::string& out, uint32_t c)
{
    if(c < 0x80) out += (char)c;
    else if(c < 0x800) { out += (char)(0xC0 | (c >> 6)); out += (char)(0x80 | (c & 63)); }
    else if(c < 0x10000) { out += (char)(0xE0 | (c >> 12)); out += (char)(0x80 | ((c >> 6) & 63)); out += (char)(0x80 | (c & 63)); }
    else { out += (char)(0xF0 | (c >> 18)); out += (char)(0x80 | ((c >> 12) & 63)); out += (char)(0x80 | ((c >> 6) & 63)); out += (char)(0x80 | (c & 63)); }
}
inline std::string utf8_of(const uint8_t* p, size_t n, Srl::Encoding enc)
{
    if(enc == Srl::Encoding::UTF16) {
        std::string r;
        for(size_t i = 0; i + 1 < n; i += 2) {
            uint32_t u = p[i] | p[i + 1] << 8;
            if(u >= 0xD800 && u < 0xDC00 && i + 3 < n) {
                uint32_t lo = p[i + 2] | p[i + 3] << 8;
                u = 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00);
                i += 2;
            }
            put_utf8(r, u);
        }
        return r;
    }
    if(enc == Srl::Encoding::UTF32) {
        std::string r;
        for(size_t i = 0; i + 3 < n; i += 4) put_utf8(r, p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24);
        return r;
    }
    return std::string((const char*)p, n);
}

inline std::u32string to32(const std::string& u8)
{
    std::u32string r;
    for(size_t i = 0; i < u8.size();) {
        unsigned char c = (unsigned char)u8[i];
        size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
        for(size_t k = 1; k < n && i + k < u8.size(); k++) v = v << 6 | (u8[i + k] & 63);
        i += n;
        r += (char32_t)v;
    }
    return r;
}
inline std::u16string to16(const std::string& u8)
{
    std::u16string r;
    for(char32_t v : to32(u8)) {
        if(v < 0x10000) r += (char16_t)v;
        else { r += (char16_t)(0xD800 + ((v - 0x10000) >> 10)); r += (char16_t)(0xDC00 + ((v - 0x10000) & 0x3FF)); }
    }
    return r;
}

/* the name "n" in the encoding "enc"; the memory is overwritten when done */
struct Name {
    std::string u8; std::u16string u16; std::u32string u32; Srl::String s;
    Name(const J& o)
    {
        u8 = o.has("n") ? o["n"].text() : "";
        int enc = o.has("enc") ? (int)o["enc"].i : 8;
        if(enc == 16) { u16 = to16(u8); s = Srl::String(u16); }
        else if(enc == 32) { u32 = to32(u8); s = Srl::String(u32); }
        else s = Srl::String(u8);
    }
    Name(const Name&) = delete;
    ~Name()
    {
        std::fill(u8.begin(), u8.end(), '#');
        std::fill(u16.begin(), u16.end(), u'#');
        std::fill(u32.begin(), u32.end(), U'#');
    }
};

/* -------------------------------------------------------------- documents */
inline std::string jscalar(const char* k, int g, const std::string& m)
{
    return std::string("{\"k\":\"") + k + "\",\"g\":" + std::to_string(g) + ",\"m\":" + m + "}";
}
inline std::string jint(bool neg, uint64_t mag)
{
    uint8_t b[8]; size_t n = 0;
    while(mag) { b[n++] = mag & 255; mag >>= 8; }
    return jscalar("i", neg && n ? 1 : 0, jbytes(b, n));
}
inline std::string jint(int64_t v) { return jint(v < 0, v < 0 ? 0 - (uint64_t)v : (uint64_t)v); }
inline std::string jfp(double d)
{
    uint64_t u; memcpy(&u, &d, 8);
    uint8_t b[8];
    for(int i = 0; i < 8; i++) b[i] = (uint8_t)(u >> (56 - 8 * i));
    return jscalar("f", 0, jbytes(b, 8));
}
inline std::string jbool(bool v) { return jscalar("b", 0, v ? "[1]" : "[0]"); }
inline std::string jnull() { return jscalar("n", 0, "[]"); }
inline std::string jstr(const std::string& s) { return jscalar("s", 0, jbytes(s)); }
inline std::string jbin(const Buf& s) { return jscalar("x", 0, jbytes(s)); }

inline bool j_int(const J& s, bool& neg, uint64_t& mag)
{
    neg = s["g"].i != 0; mag = 0;
    auto& m = s["m"].ints;
    for(size_t i = m.size(); i-- > 0;) mag = mag << 8 | (uint64_t)m[i];
    return true;
}
inline double j_fp(const J& s)
{
    uint64_t u = 0;
    for(auto v : s["m"].ints) u = u << 8 | (uint64_t)v;
    double d; memcpy(&d, &u, 8);
    return d;
}

inline std::string dump_value(const Srl::Value& v)
{
    using Srl::Type;
    switch(v.type()) {
        case Type::Bool: return jbool(v.pblock().ui64 & 255);
        case Type::I8: case Type::I16: case Type::I32: case Type::I64: return jint(v.pblock().i64);
        case Type::UI8: case Type::UI16: case Type::UI32: case Type::UI64: return jint(false, v.pblock().ui64);
        case Type::FP32: return jfp(v.pblock().fp32);
        case Type::FP64: return jfp(v.pblock().fp64);
        case Type::Null: return jnull();
        case Type::String: return jstr(utf8_of(v.data(), v.size(), v.encoding()));
        case Type::Binary: return jbin(Buf(v.data(), v.data() + v.size()));
        default: return jscalar("?", 0, "[]");
    }
}
inline std::string dump_name(const Srl::String& s) { return jbytes(utf8_of(s.data(), s.size(), s.encoding())); }

inline std::string dump(Srl::Node& n)
{
    std::string r = "{\"t\":\"";
    r += n.type() == Srl::Type::Object ? "o" : n.type() == Srl::Type::Array ? "a" : "?";
    r += "\",\"v\":[";
    bool first = true;
    for(auto* v : n.all_values()) {
        if(!first) r += ","; first = false;
        r += "{\"n\":" + dump_name(v->name()) + ",\"s\":" + dump_value(*v) + "}";
    }
    r += "],\"c\":[";
    first = true;
    for(auto* c : n.all_nodes()) {
        if(!first) r += ","; first = false;
        r += "{\"n\":" + dump_name(c->name()) + ",\"d\":" + dump(*c) + "}";
    }
    return r + "]}";
}

/* Insert a scalar through the public node API. The temporaries are destroyed
 * and overwritten afterwards, as a caller might do. */
inline void insert_scalar(Srl::Node& node, const std::string& name_, const J& s)
{
    auto name = std::make_unique<std::string>(name_);
    Srl::String nm(*name);
    char k = s["k"].s[0];
    if(k == 'n') node.insert(nm, nullptr);
    else if(k == 'b') node.insert(nm, s["m"].ints[0] != 0);
    else if(k == 'f') node.insert(nm, j_fp(s));
    else if(k == 'i') {
        bool neg; uint64_t m; j_int(s, neg, m);
        if(neg) {
            int64_t v = (int64_t)(0 - m);
            if(v >= -128) node.insert(nm, (int8_t)v);
            else if(v >= -32768) node.insert(nm, (int16_t)v);
            else if(v >= -2147483648LL) node.insert(nm, (int32_t)v);
            else node.insert(nm, v);
        } else {
            /* all the widths, signed ones for some values */
            if(m < 128 && m % 2) node.insert(nm, (int8_t)m);
            else if(m < 256) node.insert(nm, (uint8_t)m);
            else if(m < 32768 && m % 2) node.insert(nm, (int16_t)m);
            else if(m < 65536) node.insert(nm, (uint16_t)m);
            else if(m < 2147483648ULL && m % 2) node.insert(nm, (int32_t)m);
            else if(m < 4294967296ULL) node.insert(nm, (uint32_t)m);
            else if(m < 9223372036854775808ULL && m % 2) node.insert(nm, (int64_t)m);
            else node.insert(nm, m);
        }
    }
    else if(k == 's') { std::string t = s["m"].text(); node.insert(nm, t); std::fill(t.begin(), t.end(), '#'); }
    else if(k == 'x') { Buf t = s["m"].bytes(); node.insert(nm, Srl::BitWrap(t.data(), t.size())); std::fill(t.begin(), t.end(), '#'); }
    else { fprintf(stderr, "script: scalar kind\n"); exit(3); }
    std::fill(name->begin(), name->end(), '#');
}

inline Srl::Type scope_type(const J& d) { return d["t"].s == "o" ? Srl::Type::Object : Srl::Type::Array; }

inline void fill(Srl::Node& node, const J& d)
{
    for(auto& v : d["v"].a) insert_scalar(node, v["n"].text(), v["s"]);
    for(auto& c : d["c"].a) {
        std::string name = c["n"].text();
        const std::function<void(Srl::Node&)> fn = [&](Srl::Node& n) { fill(n, c["d"]); };
        node.insert(Srl::String(name), Srl::ScopeWrap(fn, scope_type(c["d"])));
    }
}

/* ---------------------------------------------------------------- formats */
template<class F> auto with_parser(const std::string& fmt, F&& f)
{
    if(fmt == "srl") { Srl::PSrl p; return f(p); }
    if(fmt == "msg") { Srl::PMsgPack p; return f(p); }
    if(fmt == "jsonp") { Srl::PJson p(false); return f(p); }
    Srl::PJson p(true);
    return f(p);
}

/* ----------------------------------------------------------------- driver */
/* status of an operation: ok, exc (the library's exception), unk (any other) */
template<class F> std::string attempt(F&& f)
{
    try { f(); return "ok"; }
    catch(const Srl::Exception&) { return "exc"; }
    catch(const std::exception& e) { fprintf(stderr, "foreign exception: %s\n", e.what()); return "unk"; }
    catch(...) { return "unk"; }
}

/* Runs the cases of the script from the given line on; the results are
 * flushed one by one, so that a crash can be attributed to its case. */
template<class F> int drive(int argc, char** argv, F&& run, unsigned limit = 30)
{
    if(argc < 4) { fprintf(stderr, "usage: driver SCRIPT RESULT START\n"); return 3; }
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    size_t start = strtoul(argv[3], nullptr, 10), n = 0;
    if(!in || !out) { fprintf(stderr, "driver: cannot open files\n"); return 3; }
    std::string line;
    while(std::getline(in, line)) {
        if(n++ < start) continue;
        JParse p { line.data(), line.data() + line.size() };
        J c = p.val();
        alarm(limit);
        std::string r = run(c);
        alarm(0);
        r += "\n";
        fwrite(r.data(), 1, r.size(), out);
        fflush(out);
    }
    fclose(out);
    return 0;
}

#endif
