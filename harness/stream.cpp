/* Reading from and writing to streams of several kinds. */
#include "common.h"
#include "streams.h"
#include <set>

using namespace Srl;

namespace {

/* ---------------------------------------------------------------- reading */
std::string in(const J& c)
{
    Buf b = c["b"].bytes();
    std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() ? b.size() : 1]);
    if(!b.empty()) memcpy(exact.get(), b.data(), b.size());
    std::vector<std::string> names;
    for(auto& n : c["asks"].a) names.push_back(n.text());
    uint32_t seed = (uint32_t)c["seed"].i;
    std::vector<std::string> outs, uns;
    auto distinct = [](std::vector<std::string>& l, const std::string& s) { for(auto& x : l) if(x == s) return; l.push_back(s); };
    with_parser(c["fmt"].s, [&](auto& parser) {
        auto one = [&](Lib::In::Source src) {
            std::string r;
            Tree t;
            auto st = attempt([&] { t.load_source(src, parser); r = dump(t.root()); });
            O o; o.str("st", st);
            if(st == "ok") o.raw("doc", r);
            distinct(outs, o.end());
        };
        auto some = [&](Lib::In::Source src) {
            std::vector<std::string> rs;
            Tree t;
            Union u[4];
            auto st = attempt([&] {
                switch(names.size()) {
                    case 1: t.unpack(src, parser, names[0], u[0]); break;
                    case 2: t.unpack(src, parser, names[0], u[0], names[1], u[1]); break;
                    case 3: t.unpack(src, parser, names[0], u[0], names[1], u[1], names[2], u[2]); break;
                    default: t.unpack(src, parser, names[0], u[0], names[1], u[1], names[2], u[2], names[3], u[3]); break;
                }
                for(size_t i = 0; i < names.size(); i++) {
                    if(u[i].is_node()) rs.push_back("{\"k\":\"c\",\"d\":" + dump(*u[i].node()) + "}");
                    else if(u[i].is_value()) rs.push_back("{\"k\":\"v\",\"s\":" + dump_value(*u[i].value()) + "}");
                    else rs.push_back("{}");
                }
            });
            O o; o.str("st", st);
            if(st == "ok") o.raw("rs", jlist(rs));
            distinct(uns, o.end());
        };
        auto all = [&](auto&& f) {
            f(Lib::In::Source(exact.get(), b.size()));
            { std::istringstream s(std::string(b.begin(), b.end())); f(Lib::In::Source(s)); }
            { Drip d(b, 0, 1); std::istream s(&d); f(Lib::In::Source(s)); }
            { Drip d(b, seed, 700); std::istream s(&d); f(Lib::In::Source(s)); }
            {                                   /* from the middle of a stream */
                std::string pre(1 + seed % 1500, '#');
                std::istringstream s(pre + std::string(b.begin(), b.end()));
                s.seekg((std::streamoff)pre.size());
                f(Lib::In::Source(s));
            }
        };
        all(one);
        if(!names.empty()) all(some);
    });
    return O().str("st", "ok").raw("outs", jlist(outs)).raw("uns", jlist(uns)).end();
}

/* ---------------------------------------------------------------- writing */
/* pieces in any order: {"n":name,"w":bytes} or {"n":name,"t":type,"e":[pieces]} */
struct Shape {
    const J* e;
    static void put(Node& n, const J& e)
    {
        for(auto& x : e.a) {
            std::string nm = x["n"].text();
            if(x.has("e")) {
                const std::function<void(Node&)> fn = [&](Node& c) { put(c, x["e"]); };
                n.insert(String(nm), ScopeWrap(fn, x["t"].s == "o" ? Type::Object : Type::Array));
            } else insert_scalar(n, nm, x["s"]);
        }
    }
    void srl_store(StoreContext& ctx) const
    {
        for(auto& x : e->a) {
            std::string nm = x["n"].text();
            if(x.has("e")) {
                const std::function<void(Node&)> fn = [&](Node& c) { put(c, x["e"]); };
                ctx(String(nm), ScopeWrap(fn, x["t"].s == "o" ? Type::Object : Type::Array));
            } else {
                auto& s = x["s"];
                Buf t = s["m"].bytes();
                if(s["k"].s == "s") ctx(String(nm), std::string(t.begin(), t.end()));
                else ctx(String(nm), BitWrap(t.data(), t.size()));
            }
        }
    }
    void srl_restore(RestoreContext&) { }
};

void put(Tree& tree, Parser& parser, const J& o, Lib::Out::Source out)
{
    auto& k = o["k"].s;
    if(k == "store") { tree.store(Shape { &o["e"] }, out, parser); return; }
    if(k == "pack") {
        auto& e = o["e"].a;
        std::string a = e[0]["n"].text(), b = e[1]["n"].text();
        const std::function<void(Node&)> fn = [&](Node& c) { Shape::put(c, e[1]["e"]); };
        Buf t = e[0]["s"]["m"].bytes();
        tree.pack(out, parser, a, BitWrap(t.data(), t.size()), b, ScopeWrap(fn, Type::Object));
        return;
    }
    tree.clear();
    tree.root().insert("skip", 1);
    const std::function<void(Node&)> fn = [&](Node& c) { Shape::put(c, o["e"]); };
    tree.root().insert("sub", ScopeWrap(fn, Type::Object));
    if(k == "tree") tree.to_source(out, parser);
    else tree.root().node("sub").to_source(out, parser);
}

std::string out(const J& c)
{
    auto& kind = c["kind"].s;
    std::string init = c["init"].text();
    std::string path = scratch() + "/out";
    std::vector<std::string> rs;
    std::stringstream ss;
    std::fstream fs;
    Pipe pipe;
    std::ostream ps(&pipe);
    std::ostream* os;
    if(kind == "str") { ss.str(init); os = &ss; }
    else if(kind == "file") {
        { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << init; }
        fs.open(path, std::ios::in | std::ios::out | std::ios::binary);
        os = &fs;
    }
    else { os = &ps; pipe.data = init; }
    auto tell = [&] { return kind == "pipe" ? (int64_t)pipe.data.size() : (int64_t)os->tellp(); };
    if(kind != "pipe") os->seekp(c["at"].i);
    Tree shared;
    for(auto& o : c["ops"].a) {
        auto& k = o["k"].s;
        if(k == "text") { auto t = o["b"].text(); os->write(t.data(), (std::streamsize)t.size()); rs.push_back(O().str("st", "ok").raw("b", "[]").num("p", tell()).end()); continue; }
        if(k == "seek") { os->seekp(o["p"].i); rs.push_back(O().str("st", "ok").raw("b", "[]").num("p", tell()).end()); continue; }
        Buf b;
        auto st = attempt([&] {
            with_parser(o["style"].s, [&](auto& parser) { Tree t; put(t, parser, o, b); });
            with_parser(o["style"].s, [&](auto& parser) {
                Tree own;
                put(c["same"].b ? shared : own, parser, o, *os);
            });
        });
        if(!os->good()) st = "bad";
        rs.push_back(O().str("st", st).raw("b", jbytes(b)).num("p", tell()).end());
    }
    std::string res;
    if(kind == "str") res = ss.str();
    else if(kind == "file") { fs.close(); std::ifstream f(path, std::ios::binary); std::stringstream x; x << f.rdbuf(); res = x.str(); unlink(path.c_str()); }
    else res = pipe.data;
    return O().str("st", "ok").raw("rs", jlist(rs)).raw("c", jbytes(res)).end();
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string { return c["op"].s == "in" ? in(c) : out(c); });
}
