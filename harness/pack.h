/* Items packed under names and unpacked again, by any selection in any order. */
#ifndef VERIF_PACK_H
#define VERIF_PACK_H
#include "typed.h"
#include "streams.h"

/* an item: what it is made from and what is passed to the library */
template<class T> struct Slot {
    Holder<T> h;
    T& item() { return h.o; }
    void make(const J& ty, const J& v) { Tp<T>::make(h.o, ty, v); }
    std::string dump(const J& ty) { return Tp<T>::dump(h.o, ty); }
    void from(Union& u) { u.copy_to(h.o); }
};
template<class W> struct Slot<VBin<W>> {
    VBin<W> h; std::unique_ptr<VecWrap<W>> w { new VecWrap<W>(h.v) };
    VecWrap<W>& item() { return *w; }
    void make(const J& ty, const J& v) { Tp<VBin<W>>::make(h, ty, v); w.reset(new VecWrap<W>(h.v)); }
    std::string dump(const J& ty) { return Tp<VBin<W>>::dump(h, ty); }
    void from(Union& u) { u.copy_to(*w); }
};

/* made under the plan of their type */
template<class... T> struct Slots {
    std::tuple<std::unique_ptr<Slot<T>>...> s;
    Slots(const J& tys) { fresh(tys, std::index_sequence_for<T...>()); }
    template<size_t... I> void fresh(const J& tys, std::index_sequence<I...>)
    {
        (([&] { PlanGuard g(inner_plan(tys.a[I])); std::get<I>(s) = std::make_unique<Slot<T>>(); }()), ...);
    }
    template<size_t I> auto& at() { return *std::get<I>(s); }
    template<class F> void each(F&& f) { run(f, std::index_sequence_for<T...>()); }
    template<class F, size_t... I> void run(F& f, std::index_sequence<I...>) { (f(*std::get<I>(s), I), ...); }
};

template<int... I> struct Seq { };
template<int J, int... I> constexpr bool in_seq = ((I == J) || ...);

/* calls f with the sequence of different indices below 4 */
template<class F, int... I> void pick(const std::vector<int>& idx, F&& f, Seq<I...>)
{
    if(idx.size() == sizeof...(I)) { f(Seq<I...>()); return; }
    if constexpr(sizeof...(I) < 4) {
        int k = idx[sizeof...(I)];
        if constexpr(!in_seq<0, I...>) if(k == 0) return pick(idx, f, Seq<I..., 0>());
        if constexpr(!in_seq<1, I...>) if(k == 1) return pick(idx, f, Seq<I..., 1>());
        if constexpr(!in_seq<2, I...>) if(k == 2) return pick(idx, f, Seq<I..., 2>());
        if constexpr(!in_seq<3, I...>) if(k == 3) return pick(idx, f, Seq<I..., 3>());
    }
    fprintf(stderr, "driver: selection\n"); exit(3);
}

template<class N> N name_as(const std::string& u8);
template<> inline std::string name_as<std::string>(const std::string& s) { return s; }
template<> inline std::u16string name_as<std::u16string>(const std::string& s) { return to16(s); }
template<> inline std::u32string name_as<std::u32string>(const std::string& s) { return to32(s); }

/* N: type of the names */
template<class N, class... T> struct Packs {
    const J& c;
    const J& tys;
    Packs(const J& c_) : c(c_), tys(c_["tys"]) { }

    static std::vector<int> ints(const J& l) { return std::vector<int>(l.ints.begin(), l.ints.end()); }

    /* calls f with name, item, name, item, ... */
    template<class F, int... I> static void with_items(Slots<T...>& s, std::vector<N>& names, F&& f, Seq<I...>)
    {
        constexpr int l[] = { I..., 0 };
        #define X(k) names[k], s.template at<(size_t)l[k]>().item()
        if constexpr(sizeof...(I) == 0) f();
        else if constexpr(sizeof...(I) == 1) f(X(0));
        else if constexpr(sizeof...(I) == 2) f(X(0), X(1));
        else if constexpr(sizeof...(I) == 3) f(X(0), X(1), X(2));
        else f(X(0), X(1), X(2), X(3));
        #undef X
    }

    std::vector<N> names(const J& l)
    {
        std::vector<N> r;
        for(auto& n : l.a) r.push_back(name_as<N>(n.text()));
        return r;
    }

    std::string run()
    {
        /* an element type of a container gets its plan from here */
        const J* plan = nullptr;
        for(auto& t : tys.a) if(t.has("e") && inner_plan(t)) plan = inner_plan(t);
        PlanGuard guard(plan);
        Slots<T...> src(tys);
        src.each([&](auto& s, size_t i) { s.make(tys.a[i], c["vals"].a[i]); });
        auto order = ints(c["order"]);
        auto nm = names(c["names"]);
        O r;
        std::vector<std::string> docs, outs;
        auto st = attempt([&] {
            pick(order, [&](auto seq) {
                Tree mem;
                with_items(src, nm, [&](auto&... a) { mem.root().insert(a...); }, seq);
                r.raw("node", dump(mem.root()));
                auto style_of = [&](Parser& parser) {
                    std::vector<Buf> bufs(3);
                    Tree t;
                    with_items(src, nm, [&](auto&... a) { t.pack(bufs[0], parser, a...); }, seq);
                    { std::ostringstream s; with_items(src, nm, [&](auto&... a) { t.pack(s, parser, a...); }, seq); auto x = s.str(); bufs[1].assign(x.begin(), x.end()); }
                    bufs[2] = mem.to_source(parser);
                    std::vector<std::string> ds;
                    for(auto& b : bufs) { Tree l; l.load_source(b.data(), b.size(), parser); ds.push_back(dump(l.root())); }
                    docs.push_back(jlist(ds));
                    /* the ways items are unpacked */
                    std::vector<std::string> as;
                    for(auto& ask : c["asks"].a) as.push_back(asked(ask, bufs, parser));
                    outs.push_back(jlist(as));
                };
                for(auto& style : c["styles"].a) with_parser(style.s, [&](Parser& parser) { style_of(parser); });
            }, Seq<>());
        });
        r.str("st", st);
        if(st == "ok") r.raw("docs", jlist(docs)).raw("outs", jlist(outs));
        return r.end();
    }

    /* the different outcomes of unpacking */
    std::string asked(const J& ask, std::vector<Buf>& bufs, Parser& parser)
    {
        auto sel = ints(ask["i"]);
        auto nm = names(ask["n"]);
        std::vector<std::string> outs;
        auto one = [&](auto&& unpack) {
            Slots<T...> dst(tys);
            auto st = attempt([&] { unpack(dst); });
            O o; o.str("st", st);
            if(st == "ok") {
                std::vector<std::string> rs(sel.size());
                dst.each([&](auto& s, size_t i) { for(size_t k = 0; k < sel.size(); k++) if(sel[k] == (int)i) rs[k] = s.dump(tys.a[i]); });
                o.raw("rs", jlist(rs));
            }
            auto x = o.end();
            for(auto& y : outs) if(x == y) return;
            outs.push_back(x);
        };
        pick(sel, [&](auto seq) {
            for(auto& b : bufs) {
                std::string text(b.begin(), b.end());
                Tree t;
                auto go = [&](Lib::In::Source s) { one([&](Slots<T...>& dst) { with_items(dst, nm, [&](auto&... a) { t.unpack(s, parser, a...); }, seq); }); };
                go(Lib::In::Source(b.data(), b.size()));
                { std::istringstream s(text); go(Lib::In::Source(s)); }
                { Drip d(b, 0, 1); std::istream s(&d); go(Lib::In::Source(s)); }
                one([&](Slots<T...>& dst) { unions(dst, nm, sel, t, b, parser); });
            }
        }, Seq<>());
        return jlist(outs);
    }

    /* as items of any kind, which are copied to the right ones later */
    void unions(Slots<T...>& dst, std::vector<N>& nm, const std::vector<int>& sel, Tree& t, Buf& b, Parser& parser)
    {
        Union u[4];
        std::istringstream s(std::string(b.begin(), b.end()));
        switch(sel.size()) {
            case 0: t.unpack(s, parser); break;
            case 1: t.unpack(s, parser, nm[0], u[0]); break;
            case 2: t.unpack(s, parser, nm[0], u[0], nm[1], u[1]); break;
            case 3: t.unpack(s, parser, nm[0], u[0], nm[1], u[1], nm[2], u[2]); break;
            default: t.unpack(s, parser, nm[0], u[0], nm[1], u[1], nm[2], u[2], nm[3], u[3]); break;
        }
        dst.each([&](auto& s, size_t i) { for(size_t k = 0; k < sel.size(); k++) if(sel[k] == (int)i) s.from(u[k]); });
    }
};
#endif
