// C13, generated programs: conversion between variant types.  Oracle: what
// converting the held object directly gives.
#ifndef VERIF_VVCONV_HPP
#define VERIF_VVCONV_HPP
#include "conv.hpp"
namespace cv {
template <class Dst, class... S> struct Choices { enum { ok = 1 }; };
template <class Dst, class H, class... S> struct Choices<Dst, H, S...> { typedef typename Unwrap<H>::type U;
    enum { l = Choose<U&, Dst>::value, c = Choose<const U&, Dst>::value, r = Choose<U&&, Dst>::value, ok = l >= 0 && c >= 0 && r >= 0 && Choices<Dst, S...>::ok }; };
template <class S, class... D> struct VV2;
template <class... S, class... D> struct VV2<List<S...>, D...> {
    typedef boost::variant<S...> Src; typedef boost::variant<D...> Dst; typedef List<D...> DL;
    // direct conversion of the held object with the given category
    template <class U, class Op> struct Direct { enum { K = Choose<Op, DL>::value }; typedef typename At<K, D...>::type T;
        static bool holds(const Dst& d, U& u) { T e = static_cast<Op>(u); return d.which() == K && boost::get<T>(&d) && same(*boost::get<T>(&d), e); } };
    template <class U> struct One {
        static void check(const char* id, const Dst& d, int s, int cat, const char* how) {
            U u(Mk<U>::go(s)); bool ok = cat == 0 ? Direct<U, const U&>::holds(d, u) : cat == 1 ? Direct<U, U&>::holds(d, u) : Direct<U, U&&>::holds(d, u);
            CV_CHECK(ok, how << " from " << (cat == 0 ? "a const variant" : cat == 1 ? "a non-const variant" : "an rvalue variant") << ": result holds alternative " << d.which() << " or a value that is not the direct conversion of the source's content (value seed " << s << ")");
            ++rep().evals; }
    };
    static void check(const char* id, const Dst& d, int k, int s, int cat, const char* how) { typedef void (*F)(const char*, const Dst&, int, int, const char*); static const F f[] = { &One<typename Unwrap<S>::type>::check... }; f[k](id, d, s, cat, how); }
    static void go(const char* id, Rng& r, int rounds) {
        for (int n = 0; n < rounds; ++n) for (unsigned k = 0; k < sizeof...(S); ++k) {
            int s = (int)r.below(120);
            for (int cat = 0; cat < 3; ++cat) {
                { Src x; Fill<S...>::put(x, k, s); const Src& cx = x;
                  if (cat == 0) { Dst d(cx); check(id, d, k, s, 0, "construction"); } else if (cat == 1) { Dst d(x); check(id, d, k, s, 1, "construction"); } else { Dst d(std::move(x)); check(id, d, k, s, 2, "construction"); }
                  CV_CHECK(x.which() == (int)k, "the source changed its alternative"); if (cat < 2) CV_CHECK((Fill<S...>::holds(x, k, s)), "a copying conversion changed its source"); }
                if (cat == 1) continue;         // assignment takes an lvalue as const
                for (unsigned p = 0; p < sizeof...(D); ++p) {
                  Src x; Fill<S...>::put(x, k, s); const Src& cx = x; Dst d; Fill<D...>::put(d, p, r.below(50));
                  Dst& ref = cat == 0 ? (d = cx) : (d = std::move(x));
                  check(id, d, k, s, cat, "assignment"); CV_CHECK(&ref == &d, "assignment does not return its left operand");
                  CV_CHECK(x.which() == (int)k, "the source changed its alternative"); if (cat == 0) CV_CHECK((Fill<S...>::holds(x, k, s)), "a copying conversion changed its source"); }
            }
        }
    }
};
template <bool Ok, class S, class... D> struct VV1 { static void go(const char* id, Rng& r, int rounds) { ++rep().decided; VV2<S, D...>::go(id, r, rounds); } };
template <class S, class... D> struct VV1<false, S, D...> { static void go(const char*, Rng&, int) { ++rep().skipped; } };
template <class S, class D> struct VV;
template <class... S, class... D> struct VV<List<S...>, List<D...> > { static void go(const char* id, Rng& r, int rounds) { VV1<Choices<List<D...>, S...>::ok != 0, List<S...>, D...>::go(id, r, rounds); } };
template <class S, class D> void vv_case(const char* id, unsigned long long seed, int rounds) { Rng r = { seed * 0x9E3779B97F4A7C15ull + 999 }; ++rep().cases; VV<S, D>::go(id, r, rounds); }

// the source variant type is itself a bounded type (at position P of D...)
template <class S, class D, int P> struct NV;
template <class... S, class... D, int P> struct NV<List<S...>, List<D...>, P> {
    typedef boost::variant<S...> In; typedef boost::variant<D...> Out;
    static bool whole(const Out& o, unsigned k, int s) { const In* p = boost::get<In>(&o); return o.which() == P && p && Fill<S...>::holds(*p, k, s); }
    template <class U> struct SetPrev { static void go(Out& o, int s) { o = Mk<U>::go(s); } };
    template <class... X> struct SetPrev<boost::variant<X...> > { static void go(Out& o, int s) { boost::variant<X...> v; Fill<X...>::put(v, (unsigned)s % sizeof...(X), s); o = v; } };
    static void prev(Out& o, int p, int s) { typedef void (*F)(Out&, int); static const F f[] = { &SetPrev<typename Unwrap<D>::type>::go... }; f[p](o, s); }
    static void go(const char* id, Rng& r, int rounds) {
        for (int n = 0; n < rounds; ++n) for (unsigned k = 0; k < sizeof...(S); ++k) {
            int s = (int)r.below(120); In x; Fill<S...>::put(x, k, s); const In& cx = x;
            { Out o(cx); CV_CHECK(whole(o, k, s), "construction from a const inner variant unpacked or changed it: alternative " << o.which()); }
            { Out o(x); CV_CHECK(whole(o, k, s), "construction from an inner variant unpacked or changed it: alternative " << o.which()); }
            { In y(cx); Out o(std::move(y)); CV_CHECK(whole(o, k, s), "construction from an rvalue inner variant unpacked or changed it: alternative " << o.which()); }
            for (unsigned p = 0; p < sizeof...(D); ++p) {
                Out o; prev(o, p, r.below(50)); Out q(o); Out& ref = (o = cx); CV_CHECK(whole(o, k, s) && &ref == &o, "assignment of an inner variant unpacked or changed it: alternative " << o.which());
                In y(cx); q = std::move(y); CV_CHECK(whole(q, k, s), "assignment of an rvalue inner variant unpacked or changed it: alternative " << q.which());
                CV_CHECK((Fill<S...>::holds(x, k, s)), "the inner source changed");
            }
            ++rep().evals;
        }
    }
};
template <class S, class D, int P> void nest_case(const char* id, unsigned long long seed, int rounds) { Rng r = { seed * 0x9E3779B97F4A7C15ull + 77 }; ++rep().cases; ++rep().decided; NV<S, D, P>::go(id, r, rounds); }
}
#endif
