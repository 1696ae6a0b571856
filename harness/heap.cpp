/* Histories of operations on heaps. */
#include "common.h"
#include "Srl/Heap.h"
#include <algorithm>
#include <new>

using namespace Srl;

/* allocations of the library: counted, can be made to fail */
static bool in_heap = false;
static long fail_at = 0, balance = 0;
static void* take(size_t n)
{
    if(in_heap && fail_at > 0 && --fail_at == 0) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    if(in_heap) balance++;
    return p;
}
static void give(void* p) { if(p && in_heap) balance--; free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

template<size_t A> struct alignas(A) Al { uint8_t b[A]; };
struct Odd { uint8_t b[3]; };
struct Mixed { double d; uint8_t b[16]; Mixed() : d(0) { memset(b, 0, sizeof(b)); } };

struct Block { size_t h; uint8_t* p; size_t n; uint8_t tag; };

static uint8_t pat(uint8_t tag, size_t i) { return (uint8_t)(tag * 37 + i * 11 + (i >> 8) * 5 + 1); }

static std::string run(const J& c)
{
    balance = 0;
    std::vector<Lib::Heap*> hs;
    std::map<int64_t, Block> live;
    struct Res { std::string st; bool al; uintptr_t s, e; std::vector<int64_t> bad; };
    std::vector<Res> rs;
    size_t nh = (size_t)c["heaps"].i;
    for(size_t i = 0; i < nh; i++) { in_heap = true; auto* x = new Lib::Heap(); in_heap = false; hs.push_back(x); }

    auto drop_heap = [&](size_t h) {
        for(auto it = live.begin(); it != live.end();) { if(it->second.h == h) it = live.erase(it); else ++it; }
    };
    auto own = [&](size_t from, size_t to) { for(auto& b : live) if(b.second.h == from) b.second.h = to; };

    int64_t id = 0;
    for(auto& o : c["ops"].a) {
        id++;
        Res r; r.al = true; r.s = r.e = 0;
        auto& op = o["op"].s;
        size_t h = (size_t)o["h"].i - 1;
        Lib::Heap& H = *hs[h];
        int64_t n = o.has("n") ? o["n"].i : 0, y = o.has("y") ? o["y"].i : 0;
        fail_at = o.has("f") ? o["f"].i : 0;
        uint8_t* p = nullptr; size_t sz = 0, al = 1;
        r.st = "ok";
        try {
            in_heap = true;
#define GET(T) { sz = (size_t)n * sizeof(T); al = alignof(T); p = (uint8_t*)H.get_mem<T>((size_t)n); }
#define NEW(T) { sz = sizeof(T); al = alignof(T); p = (uint8_t*)H.create<T>(); }
            if(op == "get") {
                if(y == 1) GET(uint8_t) else if(y == 2) GET(uint16_t) else if(y == 4) GET(uint32_t) else if(y == 8) GET(uint64_t)
                else if(y == 16) GET(Al<16>) else if(y == 32) GET(Al<32>) else if(y == 64) GET(Al<64>) else if(y == 3) GET(Odd)
                else if(y == 24) GET(Mixed) else exit(3);
            }
            else if(op == "new") {
                if(y == 1) NEW(uint8_t) else if(y == 2) NEW(uint16_t) else if(y == 4) NEW(uint32_t) else if(y == 8) NEW(uint64_t)
                else if(y == 16) NEW(Al<16>) else if(y == 32) NEW(Al<32>) else if(y == 64) NEW(Al<64>) else if(y == 3) NEW(Odd)
                else if(y == 24) NEW(Mixed) else exit(3);
            }
            else if(op == "put") H.put_mem(live[o["b"].i].p, live[o["b"].i].n);
            else if(op == "cut") { auto& b = live[o["b"].i]; H.put_mem(b.p + n, b.n - (size_t)n); }
            else if(op == "clr") H.clear();
            else if(op == "mov") H = std::move(*hs[(size_t)o["u"].i - 1]);
            else if(op == "mvc") { Lib::Heap x(std::move(*hs[(size_t)o["u"].i - 1])); H = std::move(x); }
            else if(op == "dst") { delete hs[h]; hs[h] = new Lib::Heap(); }
            else exit(3);
            in_heap = false;
            fail_at = 0;
            if(op == "get" || op == "new") {
                r.s = (uintptr_t)p; r.e = r.s + sz;
                r.al = r.s % al == 0;
                Block b { h, p, sz, (uint8_t)id };
                for(size_t i = 0; i < sz; i++) p[i] = pat(b.tag, i);
                live[id] = b;
            }
            else if(op == "cut") { auto& b = live[o["b"].i]; b.n = (size_t)n; r.s = (uintptr_t)b.p; r.e = r.s + b.n; }
            else if(op == "put") live.erase(o["b"].i);
            else if(op == "clr" || op == "dst") drop_heap(h);
            else if(op == "mov" || op == "mvc") { drop_heap(h); own((size_t)o["u"].i - 1, h); }
        } catch(std::bad_alloc&) { in_heap = false; r.st = "bad_alloc"; }
        fail_at = 0;
        for(auto& b : live) {
            for(size_t i = 0; i < b.second.n; i++) {
                if(b.second.p[i] != pat(b.second.tag, i)) { r.bad.push_back(b.first); break; }
            }
        }
        rs.push_back(r);
    }
    in_heap = true;
    for(auto* h : hs) delete h;
    in_heap = false;
    std::vector<uintptr_t> all;
    for(auto& r : rs) { all.push_back(r.s); all.push_back(r.e); }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    auto rank = [&](uintptr_t a) { return (int64_t)(std::lower_bound(all.begin(), all.end(), a) - all.begin()); };
    std::vector<std::string> out;
    for(auto& r : rs) {
        std::vector<std::string> bad;
        for(auto x : r.bad) bad.push_back(std::to_string(x));
        out.push_back(O().str("st", r.st).boolean("al", r.al).num("s", rank(r.s)).num("e", rank(r.e)).raw("bad", jlist(bad)).end());
    }
    return O().str("st", "ok").raw("rs", jlist(out)).num("bal", balance).end();
}

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string { return run(c); });
}
