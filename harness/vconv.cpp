// C13: conversion between variant types with failures injected and sources
// and targets in states left by failed operations.
#include "state.hpp"
namespace vc {
using pbt::P; using pbt::Source;
template <int Id> struct Cvt : tk::CM<Id> {
    typedef tk::CM<Id> base;
    Cvt() {} Cvt(tk::Raw r, int v) noexcept : base(r, v) {}
    Cvt(const tk::CM<1>& o) : base(tk::Raw(), conv(o.value())) {}
    Cvt(tk::CM<1>&& o) : base(tk::Raw(), conv(o.value())) { o.set(tk::MOVED); ++tk::st().n_convert; }
    static int conv(int v) { tk::point(tk::K_CONVERT); return v; }
};
}
template <int Id> struct VT<vc::Cvt<Id> > : VTTracked<vc::Cvt<Id>, Id, 0, true, true> {};
namespace vc {
template <class S, class D, int F> struct Runner;   // F: index of int (the fallback) in D, or -1
template <class... S, class... D, int F> struct Runner<boost::variant<S...>, boost::variant<D...>, F> {
    typedef boost::variant<S...> Src; typedef boost::variant<D...> Dst; typedef Builder<Src, S...> BS; typedef Builder<Dst, D...> BD;
    static int target(int k) { static const int m[] = { (std::is_same<typename Pub<S>::type, tk::CM<1> >::value ? IndexOf<Cvt<3>, typename Pub<D>::type...>::value : IndexOf<typename Pub<S>::type, typename Pub<D>::type...>::value)... }; return m[k]; }
    static void run(Source& s) {
        tk::reset(); int n = 0;
        do {
            int k = s.below(sizeof...(S)); Var<Src, BS> x(s, k, some_val(s)); int t = target(k);
            bool mv = s.flip(), asg = s.below(3) != 0; int fault = s.flip() ? 1 + s.below(6) : 0, kinds = s.below(3) ? tk::K_ANY : (s.flip() ? tk::K_CONVERT : tk::K_MOVE | tk::K_COPY); bool late = s.flip(), ncl = s.flip();
            int q = s.below(sizeof...(D)); typename std::aligned_storage<sizeof(Dst), alignof(Dst)>::type m; Dst& d = *reinterpret_cast<Dst*>(&m); int dv = 0;
            if (asg) { dv = BD::canon(q, some_val(s)); BD::make(s, &m, q, dv); }
            TRACE("  source holds (" << k << "," << x.val << " " << x.how << "); " << (asg ? "assign" : "construct") << (mv ? " moving" : " copying") << ", fault " << fault << " kinds " << kinds);
            long c0 = tk::st().n_copy + tk::st().n_cassign; int live0 = tk::st().n; long nl0 = pbt::g_new_live; int tok = tk::st().token + 1; bool threw = false, right = false;
            tk::arm(fault, kinds, late);
            try {
                if (asg) { Dst* r; if (mv) r = &(d = std::move(x.v())); else if (ncl) r = &(d = x.v()); else r = &(d = x.cv()); tk::disarm(); CHECK(P(13), r == &d, "assignment does not return its left operand"); }
                else { if (mv) new (&m) Dst(std::move(x.v())); else if (ncl) new (&m) Dst(x.v()); else new (&m) Dst(x.cv()); }
            } catch (const tk::Injected& i) { threw = true; right = i.token == tok; } catch (const std::bad_alloc&) { threw = true; right = tk::st().fired_kind == tk::K_ALLOC; }
            bool fired = tk::st().fired_kind != 0; int fk = tk::st().fired_kind;
            tk::disarm();
            CHECK(P(13) | P(3), threw == fired && (!threw || right), "the failure of the conversion did not reach the caller");
            CHECK(P(13), x.v().which() == k, "the source changed its alternative");
            if (!mv) CHECK(P(13), x.intact(), "a copying conversion changed its source");
            else { int rv = BS::read(x.v()); CHECK(P(13), rv == x.val || rv == tk::MOVED || rv < 0, "a moving conversion left the source with another value"); }
            if (!threw) {
                CHECK(P(13), d.which() == t && BD::read(d) == x.val, "result holds (" << d.which() << "," << BD::read(d) << "), expected (" << t << "," << x.val << ")");
                // a variant without fallback may back up the old content by copying it
                if (mv && (!asg || F >= 0)) CHECK(P(13) | P(16), tk::st().n_copy + tk::st().n_cassign == c0, "a conversion from an rvalue variant copied");
                pbt::label(asg ? "assigned" : "constructed");
            } else if (asg) {
                int v = BD::read(d); bool prev = d.which() == q && (v == dv || (fk & (tk::K_CASSIGN | tk::K_MASSIGN))), fb = F >= 0 && d.which() == F;
                CHECK(P(13) | P(3), prev || fb, "after a failed conversion the target holds (" << d.which() << "," << v << "), before it held (" << q << "," << dv << ")");
                if (fk == tk::K_CONVERT) CHECK(P(13), d.which() == q && v == dv, "the conversion failed before anything was placed, but the target changed");
                pbt::label("failed assignment");
            } else { CHECK(P(13) | P(4), tk::st().n == live0 && pbt::g_new_live == nl0, "a failed converting construction leaked"); pbt::label("failed construction"); }
            if (threw || x.how[0] == 'a') pbt::nontrivial();
            if (asg || !threw) d.~Dst();
        } while (s.more() && ++n < 12);
    }
};
typedef tk::CM<1> A; typedef tk::CM<2> B; typedef tk::CM<4> C; typedef Cvt<3> X; typedef tk::CM<5, tk::NTALL> N;
static void fb(Source& s) { Runner<boost::variant<A, B, int>, boost::variant<B, int, X>, 1>::run(s); }
static void nofb(Source& s) { Runner<boost::variant<A, B, C>, boost::variant<X, C, B>, -1>::run(s); }
static void wrap(Source& s) { Runner<boost::variant<boost::recursive_wrapper<B>, A, int>, boost::variant<X, boost::recursive_wrapper<B>, int, C>, 2>::run(s); }
static void nt(Source& s) { Runner<boost::variant<N, A>, boost::variant<C, X, N>, 2>::run(s); }
PBT_CASE("vconv_fb", fb, 10, pbt::P(13)); PBT_CASE("vconv_nofb", nofb, 10, pbt::P(13)); PBT_CASE("vconv_wrap", wrap, 10, pbt::P(13)); PBT_CASE("vconv_nt", nt, 10, pbt::P(13));
}
