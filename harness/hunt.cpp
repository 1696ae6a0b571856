/* Looks for numbers whose text form is suspicious, in order to have them judged by the
 * specification: a generator of inputs, which makes no claims.
 * usage: hunt NUMBER SEED */
#include "Srl/Srl.h"
#include "Srl/Tools.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

using namespace Srl;

static std::mutex lock;
static std::set<std::string> found[3];

static void report(int k, const std::string& s)
{
    std::lock_guard<std::mutex> g(lock);
    if(found[k].size() < 12) found[k].insert(s);
}

struct Rnd {
    uint64_t s;
    uint64_t operator() () { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    uint64_t operator() (uint64_t n) { return ((*this)() >> 11) % n; }
};

static std::string hex(double d) { uint64_t u; memcpy(&u, &d, 8); char b[20]; sprintf(b, "%016llx", (unsigned long long)u); return b; }

static double some_double(Rnd& r)
{
    double d; uint64_t u = r();
    switch(r(8)) {
        case 0 : { float f; uint32_t v = (uint32_t)u; memcpy(&f, &v, 4); return f; }
        case 1 : return (double)(int64_t)r(1000000000000000ull) * std::pow(10.0, (int)r(640) - 330);
        case 2 : return (double)u / (double)(1ull << r(64));
        case 3 : { char b[40]; sprintf(b, "%llu.%llue%d", (unsigned long long)r(1000), (unsigned long long)r(100000), (int)r(600) - 300); return strtod(b, nullptr); }
        case 4 : { u = ((u % 2047) << 52) + (r(8) - 4); memcpy(&d, &u, 8); return d; }
        default : memcpy(&d, &u, 8); return d;
    }
}

static void fps(Rnd& r, size_t n)
{
    std::vector<uint8_t> buf;
    for(size_t i = 0; i < n; i++) {
        double d = some_double(r);
        if(!std::isfinite(d)) continue;
        size_t k = Tools::type_to_str(Value(d), buf);
        std::string t((const char*)buf.data(), k);
        double e = strtod(t.c_str(), nullptr);
        if(d != e) { report(0, hex(d)); continue; }
        auto p = Tools::str_to_type((const uint8_t*)t.data(), t.size());
        try { if(!p.first || p.second.unwrap<double>() != d) report(1, t); } catch(std::exception&) { report(1, t); }
    }
}

static void ints(Rnd& r, size_t n)
{
    std::vector<uint8_t> buf;
    for(size_t i = 0; i < n; i++) {
        uint64_t u = r() >> r(64);
        if(r(4) == 0) { u = 1; for(auto k = r(20); k; k--) u *= 10; u += r(5) - 2; }
        if(r(8) == 0) u = (1ull << r(64)) + r(5) - 2;
        bool neg = r(2) && u <= (1ull << 63);
        std::string want = (neg ? "-" : "") + std::to_string(u);
        Value v = neg ? Value((int64_t)(0 - u)) : Value(u);
        size_t k = Tools::type_to_str(v, buf);
        if(std::string((const char*)buf.data(), k) != want && want != "-0") report(2, want);
        auto p = Tools::str_to_type((const uint8_t*)want.data(), want.size());
        try {
            if(!p.first || (neg ? p.second.unwrap<int64_t>() != (int64_t)(0 - u) : p.second.unwrap<uint64_t>() != u)) report(1, want);
        } catch(std::exception&) { if(want != "-9223372036854775808" && want != "-0") report(1, want); }
    }
}

static void texts(Rnd& r, size_t n)
{
    static const int lens[] = { 1, 1, 2, 3, 5, 8, 15, 16, 17, 18, 19, 20, 21, 25, 30 };
    for(size_t i = 0; i < n; i++) {
        std::string t = r(3) ? "" : "-";
        if(r(5)) { t += (char)('1' + r(9)); for(int k = lens[r(15)]; k > 1; k--) t += (char)('0' + (r(3) ? r(10) : 0)); }
        else t += "0";
        size_t kind = r(3);
        if(kind != 0) { t += "."; for(int k = lens[r(15)]; k; k--) t += (char)('0' + (r(3) ? r(10) : 9 * r(2))); }
        if(kind != 1) { t += r(2) ? "e" : "E"; auto s = r(3); if(s) t += s == 1 ? "+" : "-"; t += std::to_string(r(2) ? r(30) : r(310)); }
        double d = strtod(t.c_str(), nullptr);
        if(!std::isfinite(d)) continue;
        auto p = Tools::str_to_type((const uint8_t*)t.data(), t.size());
        try { if(!p.first || p.second.unwrap<double>() != d) report(1, t); } catch(std::exception&) { report(1, t); }
    }
}

int main(int argc, char** argv)
{
    if(argc < 3) return 3;
    size_t n = strtoull(argv[1], nullptr, 10);
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    std::vector<std::thread> ts;
    for(int i = 0; i < 8; i++) {
        ts.emplace_back([=] {
            Rnd r { (seed * 64 + i + 1) * 0x9E3779B97F4A7C15ull };
            for(int k = 0; k < 20; k++) r();
            fps(r, n); texts(r, n / 2); ints(r, n / 4);
        });
    }
    for(auto& t : ts) t.join();
    printf("{");
    for(int k = 0; k < 3; k++) {
        printf("%s\"%d\":[", k ? "," : "", k);
        bool first = true;
        for(auto& s : found[k]) { printf("%s\"%s\"", first ? "" : ",", s.c_str()); first = false; }
        printf("]");
    }
    printf("}\n");
}
