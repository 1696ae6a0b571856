/* Arbitrary bytes, restored into all kinds of targets. */
#include "common.h"
#include <array>
#include <deque>
#include <list>
#include <set>
#include <unordered_map>

using namespace Srl;
using Lib::HTable;

namespace {

struct Leaf {
    int a = 0; double b = 0; std::string c; bool d = false;
    void srl_resolve(Context& ctx) { ctx("a", a)("b", b)("c", c)("d", d, CtxFlags::Optional); }
};

struct Base_ {
    virtual ~Base_() { }
    virtual const TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& ctx) = 0;
};
struct Derived_ : Base_ {
    int x = 0; std::string s;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("x", x)("s", s); }
};
const auto reg_derived = register_type<Derived_>("Derived");
const TypeID& Derived_::srl_type_id() { return reg_derived; }

struct Everything {
    std::vector<int> vi; std::list<std::string> ls; std::map<std::string, double> m; std::set<int> si;
    std::pair<int, std::string> p; std::tuple<int, std::string, double> t { 0, "", 0. };
    int ca[3] = { 0, 0, 0 }; char str[8] = ""; char16_t wstr[8] = u""; char ch = 0;
    std::unique_ptr<Leaf> up; std::shared_ptr<Leaf> sp, sp2; std::weak_ptr<Leaf> wp;
    std::unique_ptr<Base_> poly; std::vector<uint8_t> bin; std::vector<uint32_t> bin4;
    HTable<std::string, int> ht; std::vector<Leaf> leaves; std::u32string u32; Leaf leaf;
    int8_t i8 = 0; uint64_t u64 = 0; float f = 0;
    void srl_resolve(Context& ctx)
    {
        VecWrap<uint8_t> w(bin); VecWrap<uint32_t> w4(bin4);
        const uint64_t o = CtxFlags::Optional;
        ctx("vi", vi, o)("ls", ls, o)("m", m, o)("si", si, o)("p", p, o)("t", t, o)("ca", ca, o)("str", str, o)
           ("wstr", wstr, o)("ch", ch, o)("up", up, o)("sp", sp, o)("sp2", sp2, o)("wp", wp, o)("poly", poly, o)
           ("bin", w, o)("bin4", w4, o)("ht", ht, o)("leaves", leaves, o)("u32", u32, o)("leaf", leaf, o)("i8", i8, o)
           ("u64", u64, o)("f", f, o);
    }
};

template<class T> std::string run(const std::string& fmt, bool stream, const Buf& b)
{
    /* exact size: reading beyond it is noticed */
    std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() ? b.size() : 1]);
    if(!b.empty()) memcpy(exact.get(), b.data(), b.size());
    std::string worst = "exc";
    auto keep = [&](const std::string& st) {
        if(st == "unk") worst = st;
        else if(st == "ok" && worst == "exc") worst = st;
    };
    with_parser(fmt, [&](auto& p) {
        Tree tree;
        auto with_source = [&](auto&& f) {
            if(stream) { std::stringstream ss(std::string(b.begin(), b.end())); Lib::In::Source s(ss); f(s); }
            else { Lib::In::Source s(exact.get(), b.size()); f(s); }
        };
        keep(attempt([&] { with_source([&](auto& s) { T o = T(); tree.restore(o, s, p); }); }));
        keep(attempt([&] { with_source([&](auto& s) { tree.load_source(s, p); }); T o = T(); tree.root().paste(o); }));
        keep(attempt([&] { with_source([&](auto& s) { std::string x; int y = 0; tree.unpack(s, p, "c", x, "a", y); }); }));
    });
    return worst;
}

typedef std::string (*Run)(const std::string&, bool, const Buf&);
typedef std::map<std::string, std::vector<Leaf>> Map1;
typedef std::vector<std::vector<std::string>> VV;
typedef std::vector<std::shared_ptr<Leaf>> VS;
typedef std::vector<std::unique_ptr<Base_>> VP;
typedef std::unordered_map<std::string, int> UM;
typedef HTable<std::string, Leaf> HT;
const Run runs[] = { run<Everything>, run<Leaf>, run<std::vector<int>>, run<Map1>, run<VV>, run<VS>, run<VP>, run<UM>, run<HT>,
                     run<std::vector<double>> };

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        auto t = (size_t)c["target"].i % (sizeof(runs) / sizeof(runs[0]));
        auto b = c["b"].bytes();
        return O().str("st", runs[t](c["fmt"].s, c["via"].s == "stream", b)).end();
    });
}
