/* Histories of operations on hash tables. */
#include "common.h"
#include "Srl/Hash.h"
#include <list>

using namespace Srl;

static long live_vals = 0;
/* a value that owns memory and knows whether it is alive */
struct Val {
    uint64_t magic = 0x1234567887654321ull;
    std::unique_ptr<int64_t> v;
    Val(int64_t x) : v(new int64_t(x)) { live_vals++; }
    Val(Val&& o) : v(std::move(o.v)) { live_vals++; }
    Val& operator=(Val&& o) { v = std::move(o.v); return *this; }
    Val& operator=(int64_t x) { v.reset(new int64_t(x)); return *this; }
    ~Val() { if(magic != 0x1234567887654321ull) abort(); magic = 0; live_vals--; }
    int64_t get() const { if(magic != 0x1234567887654321ull || !v) abort(); return *v; }
};
static int64_t get_val(const Val& v) { return v.get(); }
static int64_t get_val(uint64_t v) { return (int64_t)v; }

/* few different hashes */
struct Few { uint64_t operator()(const std::string& s) const { return s.size() < 2 ? 0 : (uint64_t)(s.back() & 3) << 32; } };
struct Same { uint64_t operator()(const uint64_t&) const { return ~0ull; } };
struct High { uint64_t operator()(const uint64_t& k) const { return k << 40 | (k & 1) << 63; } };

template<class K> K key_of(int64_t k);
template<> uint64_t key_of<uint64_t>(int64_t k) { return (uint64_t)k * 64; }
template<> int32_t key_of<int32_t>(int64_t k) { return (int32_t)-k; }
template<> std::string key_of<std::string>(int64_t k) { return k == 0 ? "" : std::string((size_t)(k % 23), 'k') + std::to_string(k); }
static int64_t of_key(uint64_t k) { return (int64_t)(k / 64); }
static int64_t of_key(int32_t k) { return -k; }
static int64_t of_key(const std::string& s) { size_t i = 0; while(i < s.size() && s[i] == 'k') i++; return s.empty() ? 0 : atoll(s.c_str() + i); }

template<class K, class V, class H> std::string run(const J& c)
{
    typedef Lib::HTable<K, V, H> T;
    live_vals = 0;
    std::vector<std::string> rs;
    {
    std::vector<std::unique_ptr<T>> ts;
    for(auto& x : c["tables"].a) ts.emplace_back(new T((size_t)x["b"].i, (double)x["lf"].i / 10));
    std::map<const void*, int> addrs;
    auto addr = [&](const void* p) { return (int)addrs.emplace(p, (int)addrs.size() + 1).first->second; };
    auto entry = [&](int64_t k, V& v) { return "{\"k\":" + std::to_string(k) + ",\"v\":" + std::to_string(get_val(v)) + ",\"a\":" + std::to_string(addr(&v)) + "}"; };
    for(auto& o : c["ops"].a) {
        O r;
        auto& op = o["op"].s;
        T& t = *ts[(size_t)o["t"].i - 1];
        T* u = o.has("u") ? ts[(size_t)o["u"].i - 1].get() : nullptr;
        int64_t k = o.has("k") ? o["k"].i : 0, v = o.has("v") ? o["v"].i : 0;
        K key = key_of<K>(k);
        auto st = attempt([&] {
            if(op == "ins" || op == "ups") {
                auto x = op == "ins" ? (k % 2 ? t.insert(key, v) : t.insert(K(key), v)) : (k % 2 ? t.upsert(K(key), v) : t.upsert(key, v));
                r.boolean("ex", x.first).num("v", get_val(*x.second)).num("a", addr(x.second));
            }
            else if(op == "get") { V* x = t.get(key); r.num("v", x ? get_val(*x) : -1).num("a", x ? addr(x) : 0); }
            else if(op == "set") { V* x = t.get(key); if(x) *x = v; r.num("v", x ? get_val(*x) : -1).num("a", x ? addr(x) : 0); }
            else if(op == "rem") t.remove(key);
            else if(op == "ext") { auto x = t.extract(key); r.num("v", x ? get_val(*x) : -1); }
            else if(op == "rmif") {
                std::vector<std::string> l;
                t.remove_if([&](const K& x, V& y) {
                    l.push_back(entry(of_key(x), y));
                    for(auto i : o["ks"].ints) if(i == of_key(x)) return true;
                    return false;
                });
                r.raw("l", jlist(l));
            }
            else if(op == "each") { std::vector<std::string> l; t.foreach([&](const K& x, V& y) { l.push_back(entry(of_key(x), y)); }); r.raw("l", jlist(l)); }
            else if(op == "brk") {
                std::vector<std::string> l;
                t.foreach_break([&](const K& x, V& y) { l.push_back(entry(of_key(x), y)); return (int64_t)l.size() >= v; });
                r.raw("l", jlist(l));
            }
            else if(op == "it") {
                std::vector<std::string> l;
                for(auto e : t) l.push_back(entry(of_key(e.first), e.second));
                r.raw("l", jlist(l));
            }
            else if(op == "clr") t.clear();
            else if(op == "mov") t = std::move(*u);
            else if(op == "mvc") { T x(std::move(*u)); t = std::move(x); }
            else if(op == "new") t = T((size_t)o["b"].i, (double)o["lf"].i / 10);
            else { fprintf(stderr, "driver: op %s\n", op.c_str()); exit(3); }
        });
        r.str("st", st);
        std::vector<std::string> nums;
        for(auto& x : ts) nums.push_back(std::to_string(x->num_entries()));
        r.raw("num", jlist(nums)).num("live", std::is_same<V, Val>::value ? live_vals : -1);
        rs.push_back(r.end());
    }
    }
    return O().str("st", "ok").raw("rs", jlist(rs)).num("live", live_vals).end();
}

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        auto& y = c["y"].s;
        if(y == "str") return run<std::string, Val, Lib::HashSrl<std::string>>(c);
        if(y == "few") return run<std::string, Val, Few>(c);
        if(y == "int") return run<uint64_t, uint64_t, Lib::HashSrl<uint64_t>>(c);
        if(y == "i32") return run<int32_t, Val, Lib::HashSrl<int32_t>>(c);
        if(y == "same") return run<uint64_t, Val, Same>(c);
        if(y == "high") return run<uint64_t, uint64_t, High>(c);
        exit(3);
    });
}
