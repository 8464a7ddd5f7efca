// C05: unary visitation.  Every visitor records which alternative, object,
// constness and value category it was given; results and exceptions are
// computed from the value and compared with what came out.
#ifndef VERIF_VISIT_HPP
#define VERIF_VISIT_HPP
#include "state.hpp"
#include <boost/variant/apply_visitor.hpp>
#include <boost/variant/static_visitor.hpp>
#include <algorithm>
#include <memory>

namespace vis {
using pbt::P; using pbt::Source;

enum Cat { LV, CLV, RV, CRV };
struct Rec { int calls, idx, val, cat; const void* addr; bool vis_const; const void* self; };
struct Tok { int n; };
struct NoDef { int v; explicit NoDef(int a) : v(a) {} };
struct Big { int v; long pad[20]; Big(int a) : v(a) { for (int i = 0; i < 20; ++i) pad[i] = a + i; } };

template <class T> struct CatOf { enum { value = std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? CLV : LV) : (std::is_const<typename std::remove_reference<T>::type>::value ? CRV : RV) }; };

inline int mix(int idx, int val, int salt) { return idx * 1000003 + val * 7 + salt; }
inline int* ext() { static int a[64]; return a; }

template <class R> struct Res;      // result made from an int, and read back
template <> struct Res<void> { static void make(int) {} };
template <> struct Res<int> { static int make(int n) { return n; } static int get(int n) { return n; } };
template <> struct Res<std::string> { static std::string make(int n) { return std::to_string(n); } static int get(const std::string& s) { return std::atoi(s.c_str()); } };
template <> struct Res<std::unique_ptr<int> > { static std::unique_ptr<int> make(int n) { return std::unique_ptr<int>(new int(n)); } static int get(const std::unique_ptr<int>& p) { return *p; } };
template <> struct Res<NoDef> { static NoDef make(int n) { return NoDef(n); } static int get(const NoDef& n) { return n.v; } };
template <> struct Res<Big> { static Big make(int n) { return Big(n); } static int get(const Big& n) { for (int i = 0; i < 20; ++i) if (n.pad[i] != n.v + i) return -1; return n.v; } };
template <> struct Res<int&> { static int& make(int n) { int& r = ext()[unsigned(n) % 64]; r = n; return r; } static int get(int& r) { return &r == &ext()[unsigned(r) % 64] ? r : -1; } };
template <> struct Res<const int&> { static const int& make(int n) { return Res<int&>::make(n); } static int get(const int& r) { return &r == &ext()[unsigned(r) % 64] ? r : -1; } };
template <> struct Res<bool> { static bool make(int n) { return n & 1; } static int get(bool b) { return b; } };

template <class... T> struct Typed {
    struct Base {
        Rec* rec; int salt; int throw_tok;      // throw_tok != 0: throw after recording
        Base(Rec* r, int s, int t) : rec(r), salt(s), throw_tok(t) {}
        template <class U> int note(U& u, int cat, bool vc) const {
            typedef typename std::remove_const<U>::type Q;
            ++rec->calls; rec->self = this; rec->idx = IndexOf<Q, T...>::value; rec->addr = std::addressof(u); rec->cat = cat; rec->vis_const = vc; rec->val = VT<Q>::read(u);
            if (throw_tok) { Tok t = { throw_tok }; throw t; }
            return mix(rec->idx, rec->val, salt);
        }
    };
    // one forwarding template, both constnesses
    template <class R> struct Fwd : boost::static_visitor<R>, Base {
        Fwd(Rec* r, int s, int t) : Base(r, s, t) {}
        template <class U> R operator()(U&& u) { return Res<R>::make(Base::note(u, CatOf<U>::value, false)); }
        template <class U> R operator()(U&& u) const { return Res<R>::make(Base::note(u, CatOf<U>::value, true)); }
    };
    // overloads per category
    template <class R> struct Ovl : boost::static_visitor<R>, Base {
        Ovl(Rec* r, int s, int t) : Base(r, s, t) {}
        template <class U> R operator()(U& u) const { return Res<R>::make(Base::note(u, std::is_const<U>::value ? CLV : LV, true)); }
        template <class U> typename std::enable_if<!std::is_lvalue_reference<U>::value, R>::type operator()(U&& u) const { return Res<R>::make(Base::note(u, CatOf<U>::value, true)); }
    };
    // const-reference only, result_type given by hand, no static_visitor base
    template <class R> struct Plain : Base {
        typedef R result_type;
        Plain(Rec* r, int s, int t) : Base(r, s, t) {}
        template <class U> R operator()(const U& u) const { return Res<R>::make(Base::note(u, CLV, true)); }
    };
    // takes the content by value: moves out of rvalues, copies lvalues
    template <class R> struct Sink : boost::static_visitor<R>, Base {
        Sink(Rec* r, int s, int t) : Base(r, s, t) {}
        template <class U> R operator()(U u) const { return Res<R>::make(Base::note(u, LV, true)); }
    };
    // neither result_type nor const call operator
    struct Free : Base { int n; Free(Rec* r, int s, int t) : Base(r, s, t), n(0) {} Free(const Free&) = delete; template <class U> int operator()(U&& u) { ++n; return Base::note(u, CatOf<U>::value, false); } };
    // mutates
    struct Setter : boost::static_visitor<void> { int v; explicit Setter(int x) : v(x) {} template <class U> void operator()(U& u) const { VT<U>::set(u, v); } };
};

template <class R, class F> struct Call { static int go(F f) { return Res<R>::get(f()); } };
template <class F> struct Call<void, F> { static int go(F f) { f(); return 0; } };
template <class R, class F> int call(F f) { return Call<R, F>::go(f); }
template <class R> int expected(int n) { return std::is_same<R, void>::value ? 0 : std::is_same<R, bool>::value ? (n & 1) : n; }

template <class V, class... E> struct Runner {
    typedef Builder<V, E...> B; typedef Var<V, B> W; typedef Typed<typename Pub<E>::type...> TY;
    enum { N = sizeof...(E) };

    // how: 0 free, 1 member, 2 delayed; vc: visitor 0 lvalue, 1 const lvalue, 2 rvalue; oc: operand category
    template <class R, class Vis> static void one(Source& s, W& w, int oc, int vform, bool fwd_const_overloads, bool plain) {
        Rec rec; std::memset(&rec, 0, sizeof rec);
        int salt = s.below(200); int tok = s.chance(1, 6) ? 1 + (int)s.below(100) : 0;
        Vis v(&rec, salt, tok); const Vis& cv = v; V& x = w.v(); const V& cx = x; const void* addr = w.addr();
        TRACE("  visit alternative " << w.k << " (" << w.how << ") operand " << (oc == LV ? "lvalue" : oc == CLV ? "const" : oc == RV ? "rvalue" : "const rvalue") << " visitor form " << vform << (tok ? " throwing" : ""));
        int r = 0; bool threw = false; bool vis_const = true;
        try {
            if (oc == LV) switch (vform) {
                case 0: vis_const = false; r = call<R>([&]() -> R { return boost::apply_visitor(v, x); }); break;
                case 1: r = call<R>([&]() -> R { return boost::apply_visitor(cv, x); }); break;
                case 2: r = call<R>([&]() -> R { return boost::apply_visitor(Vis(&rec, salt, tok), x); }); break;
                case 3: vis_const = false; r = call<R>([&]() -> R { return x.apply_visitor(v); }); break;
                case 4: r = call<R>([&]() -> R { return x.apply_visitor(cv); }); break;
                default: vis_const = false; r = call<R>([&]() -> R { return boost::apply_visitor(v)(x); });
            } else if (oc == CLV) switch (vform) {
                case 0: vis_const = false; r = call<R>([&]() -> R { return boost::apply_visitor(v, cx); }); break;
                case 1: r = call<R>([&]() -> R { return boost::apply_visitor(cv, cx); }); break;
                case 2: r = call<R>([&]() -> R { return boost::apply_visitor(Vis(&rec, salt, tok), cx); }); break;
                case 3: vis_const = false; r = call<R>([&]() -> R { return cx.apply_visitor(v); }); break;
                case 4: r = call<R>([&]() -> R { return cx.apply_visitor(cv); }); break;
                default: vis_const = false; r = call<R>([&]() -> R { return boost::apply_visitor(v)(cx); });
            } else if (oc == CRV) switch (vform) {
                case 0: vis_const = false; r = call<R>([&]() -> R { return boost::apply_visitor(v, std::move(cx)); }); break;
                case 1: r = call<R>([&]() -> R { return boost::apply_visitor(cv, std::move(cx)); }); break;
                case 2: r = call<R>([&]() -> R { return boost::apply_visitor(Vis(&rec, salt, tok), std::move(cx)); }); break;
                case 3: vis_const = false; r = call<R>([&]() -> R { return std::move(cx).apply_visitor(v); }); break;
                default: r = call<R>([&]() -> R { return std::move(cx).apply_visitor(cv); }); break;
            } else switch (vform) {
                case 0: vis_const = false; r = call<R>([&]() -> R { return boost::apply_visitor(v, std::move(x)); }); break;
                case 1: r = call<R>([&]() -> R { return boost::apply_visitor(cv, std::move(x)); }); break;
                case 2: r = call<R>([&]() -> R { return boost::apply_visitor(Vis(&rec, salt, tok), std::move(x)); }); break;
                case 3: vis_const = false; r = call<R>([&]() -> R { return std::move(x).apply_visitor(v); }); break;
                default: r = call<R>([&]() -> R { return std::move(x).apply_visitor(cv); }); break;
            }
        } catch (const Tok& t) { threw = true; CHECK(P(5), tok != 0 && t.n == tok, "a different exception came out of visitation"); }
        CHECK(P(5), threw == (tok != 0), "the visitor's exception did not reach the caller");
        CHECK(P(5) | P(1), rec.calls == 1, "visitor called " << rec.calls << " times");
        CHECK(P(5) | P(1), rec.idx == w.k, "visitor was given alternative " << rec.idx << ", held " << w.k);
        CHECK(P(5) | P(2), rec.val == w.val, "visitor saw value " << rec.val << ", held " << w.val);
        CHECK(P(5), rec.addr == addr, "visitor was given a different object than the held one");
        if (!plain) CHECK(P(5), rec.cat == oc, "visitor got value category " << rec.cat << ", operand has " << oc);
        if (fwd_const_overloads) CHECK(P(5), rec.vis_const == vis_const, "the " << (rec.vis_const ? "const" : "non-const") << " call operator was used");
        if (vform != 2) CHECK(P(5), rec.self == static_cast<const typename TY::Base*>(&v), "a copy of the visitor was called");
        if (!threw) CHECK(P(5), r == expected<R>(mix(w.k, w.val, salt)), "visitation returned " << r);
        CHECK(P(5), w.intact(), "visitation changed the variant");
    }
    template <class R> static void by_result(Source& s, W& w) {
        int oc = s.below(4); int vf = s.below(oc >= RV ? 5 : 6);
        switch (s.below(4)) {
        case 0: one<R, typename TY::template Fwd<R> >(s, w, oc, vf, true, false); break;
        case 1: one<R, typename TY::template Ovl<R> >(s, w, oc, vf, false, false); break;
        case 2: one<R, typename TY::template Plain<R> >(s, w, oc, vf, false, true); break;
        default: sink<R>(s, w, oc, vf);
        }
    }
    template <class R> static void sink(Source& s, W& w, int oc, int) {
        typedef typename TY::template Sink<R> Vis;
        Rec rec; std::memset(&rec, 0, sizeof rec); int salt = s.below(200); Vis v(&rec, salt, 0);
        TRACE("  visit by value, alternative " << w.k << " (" << w.how << ") operand category " << oc);
        long c0 = tk::st().n_copy; int r;
        if (oc == LV) r = call<R>([&]() -> R { return boost::apply_visitor(v, w.v()); });
        else if (oc == CLV) r = call<R>([&]() -> R { return boost::apply_visitor(v, w.cv()); });
        else if (oc == CRV) r = call<R>([&]() -> R { return boost::apply_visitor(v, std::move(w.cv())); });
        else r = call<R>([&]() -> R { return boost::apply_visitor(v, std::move(w.v())); });
        CHECK(P(5), rec.calls == 1 && rec.idx == w.k && rec.val == w.val, "by-value visitor saw alternative " << rec.idx << " value " << rec.val << ", held " << w.k << " " << w.val);
        CHECK(P(5), r == expected<R>(mix(w.k, w.val, salt)), "visitation returned " << r);
        CHECK(P(5), w.v().which() == w.k, "visitation changed the alternative");
        if (oc == RV) { typedef bool (*MF)(); static const bool mv[] = { (VT<typename Pub<E>::type>::movable && VT<typename Pub<E>::type>::tracked)... };
            if (mv[w.k]) CHECK(P(5) | P(16), tk::st().n_copy == c0, "visiting an rvalue variant copied its content"); w.val = B::read(w.v()); (void)sizeof(MF); }
        else CHECK(P(5), w.intact(), "visitation changed the variant");
    }
    static void mutate(Source& s, W& w) {
        int nv = B::canon(w.k, some_val(s)); typename TY::Setter st(nv);
        TRACE("  mutate alternative " << w.k << " through a visitor to " << nv);
        const void* a = w.addr();
        switch (s.below(3)) { case 0: boost::apply_visitor(st, w.v()); break; case 1: boost::apply_visitor(typename TY::Setter(nv), w.v()); break; default: boost::apply_visitor(st)(w.v()); }
        w.val = nv;
        CHECK(P(5) | P(2), w.intact() && w.addr() == a, "a change made by a visitor was not made to the held object");
    }
    static void sequence(Source& s) {     // delayed visitation over a container
        std::vector<V> c; std::vector<int> ks, vs; int n = 1 + s.below(5);
        for (int i = 0; i < n; ++i) { int k = s.below(N); W w(s, k, some_val(s)); c.push_back(w.v()); ks.push_back(w.k); vs.push_back(w.val); }
        Rec rec; std::memset(&rec, 0, sizeof rec); typename TY::template Fwd<int> v(&rec, 3, 0);
        std::vector<int> out; std::transform(c.begin(), c.end(), std::back_inserter(out), boost::apply_visitor(v));
        TRACE("  std::transform with a delayed visitor over " << n << " variants");
        CHECK(P(5), rec.calls == n, "delayed visitor called " << rec.calls << " times for " << n << " variants");
        for (int i = 0; i < n; ++i) CHECK(P(5), out[i] == mix(ks[i], vs[i], 3), "delayed visitation gave a wrong result");
    }
#if __cplusplus >= 201402L
    static void lambdas(Source& s, W& w) {
        Rec rec; std::memset(&rec, 0, sizeof rec); int salt = s.below(200); int form = s.below(15); bool t = s.chance(1, 8);
        auto note = [&](auto& u, int cat) { typename TY::Base b(&rec, salt, t ? 9 : 0); return b.note(u, cat, true); };
        auto l_int = [&](auto&& u) { return note(u, CatOf<decltype(u)>::value); };
        auto l_ref = [&](auto&& u) -> int& { return Res<int&>::make(note(u, CatOf<decltype(u)>::value)); };
        auto l_void = [&](auto&& u) { note(u, CatOf<decltype(u)>::value); };
        auto l_up = [&](auto&& u) { return Res<std::unique_ptr<int> >::make(note(u, CatOf<decltype(u)>::value)); };
        auto l_mut = [&](auto&& u) mutable { salt = salt + 0; return note(u, CatOf<decltype(u)>::value); };
        const auto l_const = l_int;
        V& x = w.v(); const V& cx = w.v(); const void* addr = w.addr(); int r = 0, oc = LV; bool isvoid = false, threw = false;
        TRACE("  generic lambda form " << form << " on alternative " << w.k << (t ? " throwing" : ""));
        try { switch (form) {
        case 0: r = boost::apply_visitor(l_int, x); break;
        case 1: oc = CLV; r = boost::apply_visitor(l_int, cx); break;
        case 2: oc = RV; r = boost::apply_visitor(l_int, std::move(x)); break;
        case 3: { int& q = boost::apply_visitor(l_ref, x); static_assert(std::is_same<decltype(boost::apply_visitor(l_ref, x)), int&>::value, "reference result"); r = Res<int&>::get(q); break; }
        case 4: isvoid = true; oc = CLV; boost::apply_visitor(l_void, cx); break;
        case 5: r = *boost::apply_visitor(l_up, x); break;
        case 6: r = boost::apply_visitor(l_mut, x); break;
        case 7: r = boost::apply_visitor(l_const, x); break;
        case 9: { auto d = boost::apply_visitor(l_int); r = d(x); break; }
        case 10: { oc = CLV; auto d = boost::apply_visitor(l_int); r = d(cx); break; }
        case 11: { auto d = boost::apply_visitor(l_ref); r = Res<int&>::get(d(x)); break; }
        case 12: { auto d = boost::apply_visitor(l_up); std::unique_ptr<int> q = d(x); r = *q; break; }
        case 13: { isvoid = true; auto d = boost::apply_visitor(l_void); d(x); break; }
        default: oc = CRV; r = boost::apply_visitor(l_int, std::move(cx)); break;
        } } catch (const Tok&) { threw = true; }
        CHECK(P(5), threw == t, "a lambda's exception did not reach the caller");
        CHECK(P(5), rec.calls == 1 && rec.idx == w.k && rec.val == w.val && rec.addr == addr, "generic lambda saw alternative " << rec.idx << " value " << rec.val << " x" << rec.calls << ", held " << w.k << " " << w.val);
        if (!isvoid && !t) CHECK(P(5), r == mix(w.k, w.val, salt), "generic lambda visitation returned " << r);
        CHECK(P(5), rec.cat == (oc == RV ? int(RV) : oc), "generic lambda got value category " << rec.cat << ", operand has " << oc);
        CHECK(P(5), w.intact(), "visitation changed the variant");
        auto dl = boost::apply_visitor(l_int); rec.calls = 0; if (!t) { r = dl(x); CHECK(P(5), rec.calls == 1 && r == mix(w.k, w.val, salt), "delayed generic lambda returned " << r); }
        // no result_type, state of its own
        typename TY::Free f(&rec, salt, 0); int n0 = 1 + s.below(3); auto df = boost::apply_visitor(f);
        for (int i = 0; i < n0; ++i) { r = s.below(2) ? df(x) : df(cx); CHECK(P(5), r == mix(w.k, w.val, salt) && rec.self == static_cast<typename TY::Base*>(&f) && f.n == i + 1, "delayed visitation did not call the given visitor"); }
        r = boost::apply_visitor(f, x); CHECK(P(5), r == mix(w.k, w.val, salt) && rec.self == static_cast<typename TY::Base*>(&f) && f.n == n0 + 1, "visitation did not call the given visitor");
    }
#endif
    static void run(Source& s) {
        tk::reset();
        int n = 0;
        do {
            int k = s.below(N); W w(s, k, some_val(s));
            TRACE("variant of " << int(N) << " alternatives holds " << k << " value " << w.val << " (" << w.how << ")");
            int m = 1 + s.below(4);
            for (int i = 0; i < m; ++i) {
                switch (s.below(12)) {
                case 0: by_result<void>(s, w); break; case 1: by_result<int>(s, w); break; case 2: by_result<std::string>(s, w); break;
                case 3: by_result<std::unique_ptr<int> >(s, w); break; case 4: by_result<NoDef>(s, w); break; case 5: by_result<Big>(s, w); break;
                case 6: by_result<int&>(s, w); break; case 7: by_result<const int&>(s, w); break; case 8: mutate(s, w); break; case 9: sequence(s); break;
#if __cplusplus >= 201402L
                case 10: lambdas(s, w); break;
#endif
                default: by_result<bool>(s, w);
                }
                if (k > 0) pbt::nontrivial();
            }
        } while (s.more() && ++n < 12);
        CHECK(P(4), tk::st().n == 0, "objects leaked");
    }
};
} // namespace vis
#define VISIT_CASES(tag, ...) \
    static void tag##_run(pbt::Source& s) { vis::Runner<__VA_ARGS__>::run(s); } \
    PBT_CASE(#tag, tag##_run, 10, pbt::P(5))
#endif
