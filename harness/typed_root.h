#ifndef VERIF_TYPED_ROOT_H
#define VERIF_TYPED_ROOT_H
#include "typed.h"

namespace {

template<class T> constexpr bool is_scope_type = TpTools::is_scope(Lib::Switch<T>::type);
template<class T> constexpr bool movable = !std::is_array<T>::value && !std::is_pointer<T>::value;

/* runs f with a fresh target, returns what it holds then */
template<class T, class F> std::string outcome(const J& ty, F&& f)
{
    PlanGuard g(inner_plan(ty));
    Holder<T> h;
    auto st = attempt([&] { f(h.o); });
    if(st != "ok") return O().str("st", st).end();
    return O().str("st", st).raw("r", Tp<T>::dump(h.o, ty)).end();
}

template<class T, class P> void restores(std::vector<std::string>& rs, const J& ty, const Buf& b, P& parser)
{
    std::string text(b.begin(), b.end());
    rs.push_back(outcome<T>(ty, [&](T& o) { Tree t; t.restore(o, b.data(), b.size(), parser); }));
    rs.push_back(outcome<T>(ty, [&](T& o) {
        std::istringstream s(text); Tree t;
        if constexpr(movable<T>) o = t.restore<T>(s, parser); else t.restore(o, s, parser);
    }));
    rs.push_back(outcome<T>(ty, [&](T& o) {
        Tree t; Buf copy = b;
        t.load_source(copy.data(), copy.size(), parser);
        std::fill(copy.begin(), copy.end(), '#');
        if constexpr(is_scope_type<T>) t.root().paste(o); else t.root().paste_field(0, o);
    }));
    rs.push_back(outcome<T>(ty, [&](T& o) {
        std::istringstream s(text); Tree t;
        t.load_source(s, parser);
        if constexpr(!is_scope_type<T>) o = t.root().get(0).unwrap<T>();
        else if constexpr(movable<T>) o = t.root().unwrap<T>();
        else Union(t.root()).copy_to(o);
    }));
}

template<class T> std::string store(const J& c)
{
    auto& ty = c["ty"];
    PlanGuard g(inner_plan(ty));
    Holder<T> h;
    Tp<T>::make(h.o, ty, c["val"]);
    O r;
    std::vector<std::string> docs, rs;
    auto st = attempt([&] {
        Tree mem;
        mem.load_object(h.o);
        r.raw("doc", dump(mem.root()));
        /* as a field of a node */
        Tree outer;
        outer.root().insert("x", h.o);
        r.raw("outer", dump(outer.root()));
        rs.push_back(outcome<T>(ty, [&](T& o) { if constexpr(is_scope_type<T>) mem.root().paste(o); else mem.root().paste_field(0, o); }));
        rs.push_back(outcome<T>(ty, [&](T& o) { outer.root().paste_field(String("x"), o); }));
        rs.push_back(outcome<T>(ty, [&](T& o) { if constexpr(movable<T>) o = outer.get("x").template unwrap<T>(); else outer.get("x").copy_to(o); }));
        rs.push_back(outcome<T>(ty, [&](T& o) {
            if constexpr(movable<T> && is_scope_type<T>) o = outer.root().node("x").template unwrap<T>();
            else if constexpr(movable<T>) o = outer.root().value("x").template unwrap<T>();
            else outer.root().paste("x", o);
        }));
        int k = 0;
        for(auto& style : c["styles"].a) with_parser(style.s, [&](auto& parser) {
            Buf b;
            Tree t;
            if((c["via"].i >> k & 1) == 0) b = t.store(h.o, parser);
            else {
                std::ostringstream s;
                t.store(h.o, s, parser);
                auto str = s.str();
                b.assign(str.begin(), str.end());
            }
            Tree l; l.load_source(b.data(), b.size(), parser);
            docs.push_back(dump(l.root()));
            /* the document written */
            Buf b2 = mem.to_source(parser);
            Tree l2; l2.load_source(b2.data(), b2.size(), parser);
            docs.push_back(dump(l2.root()));
            restores<T>(rs, ty, b, parser);
            restores<T>(rs, ty, b2, parser);
            k++;
        });
    });
    r.str("st", st);
    if(st == "ok") r.raw("docs", jlist(docs)).raw("rs", jlist(rs));
    return r.end();
}

template<class T> std::string restore(const J& c)
{
    auto& ty = c["ty"];
    Buf b = c["b"].bytes();
    O r;
    std::vector<std::string> rs;
    auto st = attempt([&] {
        with_parser(c["fmt"].s, [&](auto& parser) {
            Tree t; t.load_source(b.data(), b.size(), parser);
            r.raw("doc", dump(t.root()));
            restores<T>(rs, ty, b, parser);
        });
    });
    r.str("st", st);
    if(st == "ok") r.raw("rs", jlist(rs));
    return r.end();
}

template<class T> std::string run(const J& c) { return c["op"].s == "store" ? store<T>(c) : restore<T>(c); }

} // namespace


#endif
