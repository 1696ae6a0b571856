/* Sequences of operations of the document API. */
#include "common.h"

using namespace Srl;

namespace {

/* any object document as an object */
struct Any {
    const J* d;
    void srl_store(StoreContext& ctx) const
    {
        for(auto& v : (*d)["v"].a) {
            std::string n = v["n"].text(); String nm(n);
            auto& s = v["s"];
            switch(s["k"].s[0]) {
                case 'n': ctx(nm, nullptr); break;
                case 'b': ctx(nm, s["m"].ints[0] != 0); break;
                case 'f': ctx(nm, j_fp(s)); break;
                case 'i': {
                    bool neg; uint64_t m; j_int(s, neg, m);
                    if(neg) ctx(nm, (int64_t)(0 - m)); else ctx(nm, m);
                    break;
                }
                case 's': { std::string t = s["m"].text(); ctx(nm, t); std::fill(t.begin(), t.end(), '#'); break; }
                default: { Buf t = s["m"].bytes(); ctx(nm, BitWrap(t.data(), t.size())); std::fill(t.begin(), t.end(), '#'); }
            }
            std::fill(n.begin(), n.end(), '#');
        }
        for(auto& c : (*d)["c"].a) {
            std::string n = c["n"].text();
            const std::function<void(Node&)> fn = [&](Node& node) { fill(node, c["d"]); };
            ctx(String(n), ScopeWrap(fn, scope_type(c["d"])));
        }
    }
    void srl_restore(RestoreContext&) { }
};

struct World {
    std::vector<std::unique_ptr<Tree>> docs;

    Node* at(const J& o, const char* d, const char* p)
    {
        Node* n = &docs[o[d].i - 1]->root();
        for(auto i : o[p].ints) n = &n->node((size_t)i - 1);
        return n;
    }
    std::string dump_all()
    {
        std::vector<std::string> r;
        for(auto& t : docs) r.push_back(dump(t->root()));
        return jlist(r);
    }
};

std::string item(Value& v) { return "{\"k\":\"v\",\"s\":" + dump_value(v) + "}"; }
std::string item(Node& n) { return "{\"k\":\"c\",\"d\":" + dump(n) + "}"; }
std::string item(Union u) { return u.is_node() ? item(*u.node()) : u.is_value() ? item(*u.value()) : "{}"; }
std::string named(Value& v) { return "{\"n\":" + dump_name(v.name()) + ",\"s\":" + dump_value(v) + "}"; }
std::string named(Node& n) { return "{\"n\":" + dump_name(n.name()) + ",\"d\":" + dump(n) + "}"; }

template<class T> T& nth(std::list<T*> l, size_t i) { auto it = l.begin(); std::advance(it, i); return **it; }

void mutate(World& w, const J& o)
{
    auto& op = o["op"].s;
    auto how = o.has("how") ? o["how"].i : 0;
    if(op == "new") { w.docs[o["d"].i - 1] = std::make_unique<Tree>(o["t"].s == "o" ? Type::Object : Type::Array); return; }
    if(op == "clear") { w.docs[o["d"].i - 1]->clear(); return; }
    if(op == "move") {
        auto& src = *w.docs[o["e"].i - 1];
        if(how == 0) *w.docs[o["d"].i - 1] = std::move(src);
        else w.docs[o["d"].i - 1] = std::make_unique<Tree>(std::move(src));
        return;
    }
    if(op == "wr") {
        Buf b = w.docs[o["e"].i - 1]->to_source(PSrl());
        w.docs[o["d"].i - 1]->load_source(b.data(), b.size(), PSrl());
        std::fill(b.begin(), b.end(), '#');
        return;
    }
    if(op == "obj") {
        auto& t = *w.docs[o["d"].i - 1];
        if(o["x"]["t"].s == "o") { t.load_object(Any { &o["x"] }); return; }
        std::vector<std::string> strs;
        for(auto& v : o["x"]["v"].a) strs.push_back(v["s"]["m"].text());
        t.load_object(strs);
        for(auto& s : strs) std::fill(s.begin(), s.end(), '#');
        return;
    }
    Node& n = *w.at(o, "d", "p");
    Name name(o);
    if(op == "ins") {
        if(o.has("enc") && o["enc"].i != 8 && o["s"]["k"].s == "s") {
            /* text in another encoding, too */
            J t; t.k = J::Obj; t.o.emplace_back("n", o["s"]["m"]); t.o.emplace_back("enc", o["enc"]);
            Name text(t);
            if(o["enc"].i == 16) n.insert(name.s, text.u16); else n.insert(name.s, text.u32);
        } else if(o.has("enc") && o["enc"].i != 8) {
            Tree tmp; insert_scalar(tmp.root(), "", o["s"]);
            n.insert(name.s, tmp.root().value(0));
        } else insert_scalar(n, name.u8, o["s"]);
        return;
    }
    if(op == "insn") {
        const std::function<void(Node&)> fn = [](Node&) { };
        n.insert(name.s, ScopeWrap(fn, o["t"].s == "o" ? Type::Object : Type::Array));
        return;
    }
    if(op == "doc") {
        auto& x = o["x"];
        if(how == 1 && x["t"].s == "o") {           /* a node of its own */
            auto& tree = *w.docs[o["d"].i - 1];
            auto node = std::make_unique<Node>(tree);
            fill(*node, x);
            n.insert(name.s, *node);
        } else if(how == 2) {                       /* from another document, which is gone afterwards */
            Tree tmp(scope_type(x));
            fill(tmp.root(), x);
            n.insert(name.s, tmp.root());
            tmp.clear();
            tmp.root().insert("xxxxxxxxxxxxxxxx", "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy");
        } else if(how == 3 && x["t"].s == "o") {    /* an object */
            n.insert(name.s, Any { &x });
        } else {
            const std::function<void(Node&)> fn = [&](Node& c) { fill(c, x); };
            n.insert(name.s, ScopeWrap(fn, scope_type(x)));
        }
        return;
    }
    if(op == "copy") { n.insert(name.s, *w.at(o, "e", "q")); return; }
    if(op == "copyv") { n.insert(name.s, w.at(o, "e", "q")->value((size_t)o["i"].i - 1)); return; }
    bool val = o["k"].s == "v";
    if(op == "rmn") { if(val) n.remove_value(name.s); else n.remove_node(name.s); return; }
    size_t i = (size_t)o["i"].i - 1;
    if(op == "rmi") { if(val) n.remove_value(i); else n.remove_node(i); return; }
    if(op == "rmp") {
        if(val) { Value* p = i < n.num_values() ? &nth(n.all_values(), i) : nullptr; n.remove_value(p); }
        else { Node* p = i < n.num_nodes() ? &nth(n.all_nodes(), i) : nullptr; n.remove_node(p); }
        return;
    }
    fprintf(stderr, "script: op\n"); exit(3);
}

std::string query(World& w, const J& o)
{
    auto& op = o["op"].s;
    auto how = o.has("how") ? o["how"].i : 0;
    Node& n = *w.at(o, "d", "p");
    Tree& tree = *w.docs[o["d"].i - 1];
    bool root = o["p"].size() == 0, by_name = o.has("by") && o["by"].s == "n";
    size_t i = o.has("i") ? (size_t)o["i"].i - 1 : 0;
    Name name(o);
    if(op == "val") return by_name ? item(n.value(name.s)) : item(n.value(i));
    if(op == "node") return by_name ? item(n.node(name.s)) : item(n.node(i));
    if(op == "get") {
        if(!by_name) return item(n.get(i));
        if(how == 1) return item(n[name.s]);
        if(how == 2 && root) return item(tree.get(name.s));
        if(how == 3) return item(Union(n).get(name.s));
        return item(n.get(name.s));
    }
    if(op == "tget") {
        auto r = !by_name ? n.try_get(i) : how == 2 && root ? tree.try_get(name.s) : how == 3 ? Union(n).try_get(name.s) : n.try_get(name.s);
        return r ? "[" + item(*r) + "]" : "[]";
    }
    if(op == "has") return std::string("{\"v\":") + (n.has_value(name.s) ? "true" : "false") + ",\"c\":" + (n.has_node(name.s) ? "true" : "false") + "}";
    std::vector<std::string> r;
    if(op == "find" || op == "all") {
        bool rec = o["rec"].b;
        if(o["k"].s == "v") {
            if(op == "find") for(auto* v : n.find_values(name.s, rec)) r.push_back(named(*v));
            else if(how == 0) for(auto* v : n.all_values(rec)) r.push_back(named(*v));
            else n.foreach_value([&](Value& v) { r.push_back(named(v)); }, rec);
        } else {
            if(op == "find") for(auto* c : n.find_nodes(name.s, rec)) r.push_back(named(*c));
            else if(how == 0) for(auto* c : n.all_nodes(rec)) r.push_back(named(*c));
            else n.foreach_node([&](Node& c) { r.push_back(named(c)); }, rec);
        }
        return jlist(r);
    }
    if(op == "info") {
        O r;
        r.str("t", n.type() == Type::Object ? "o" : "a").raw("n", dump_name(n.name()));
        return r.num("nv", (int64_t)n.num_values()).num("nc", (int64_t)n.num_nodes()).end();
    }
    fprintf(stderr, "script: op\n"); exit(3);
}

bool is_mutation(const std::string& op)
{
    for(auto m : { "ins", "insn", "doc", "copy", "copyv", "rmi", "rmp", "rmn", "clear", "new", "move", "wr", "obj" }) if(op == m) return true;
    return false;
}

} // namespace

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        World w;
        for(auto& t : c["types"].a) w.docs.push_back(std::make_unique<Tree>(t.s == "o" ? Type::Object : Type::Array));
        std::vector<std::string> rs;
        for(auto& o : c["ops"].a) {
            std::string r;
            if(is_mutation(o["op"].s)) {
                auto st = attempt([&] { mutate(w, o); });
                rs.push_back(O().str("st", st).raw("docs", w.dump_all()).end());
            } else {
                auto st = attempt([&] { r = query(w, o); });
                O res; res.str("st", st);
                if(st == "ok") res.raw("r", r);
                rs.push_back(res.end());
            }
        }
        return O().str("st", "ok").raw("rs", jlist(rs)).raw("docs", w.dump_all()).end();
    });
}
