// C18: every position of a (possibly long) list of bounded types behaves as
// that alternative.  The type lists and the way they are formed are generated.
#ifndef VERIF_OVER_HPP
#define VERIF_OVER_HPP
#include "state.hpp"
#include <boost/functional/hash.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/joint_view.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/transform_view.hpp>
#include <boost/mpl/transform.hpp>
#include <boost/mpl/identity.hpp>
#include <boost/mpl/vector/vector50.hpp>
#include <boost/mpl/list/list50.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/advance.hpp>
#include <boost/mpl/begin.hpp>
namespace ov {
using pbt::P; using pbt::Source;
// sequences of any length
template <class... T> struct Front;      // list built by push_front
template <class H, class... T> struct Front<H, T...> { typedef typename boost::mpl::push_front<typename Front<T...>::type, H>::type type; };
template <> struct Front<> { typedef boost::mpl::list<>::type type; };
template <class S, class... T> struct BackOn;
template <class S, class H, class... T> struct BackOn<S, H, T...> { typedef typename BackOn<typename boost::mpl::push_back<S, H>::type, T...>::type type; };
template <class S> struct BackOn<S> { typedef S type; };
template <class... T> struct Back { typedef typename BackOn<boost::mpl::vector<>, T...>::type type; };      // vector built by push_back
template <class A, class B> struct Joint { typedef boost::mpl::joint_view<typename A::type, typename B::type> type; };
template <class I> struct Unwrap { typedef typename I::type type; };
template <class... T> struct Wrapped { typedef boost::mpl::transform_view<typename Front<boost::mpl::identity<T>...>::type, Unwrap<boost::mpl::_1> > type; };

template <class V, class... E> struct Over {
    enum { N = sizeof...(E) };
    typedef Builder<V, E...> B;
    struct Probe : boost::static_visitor<int> { const void** a; bool* c; template <class T> int operator()(T& t) const { *a = std::addressof(t); *c = std::is_const<T>::value; return IndexOf<typename std::remove_const<T>::type, typename Pub<E>::type...>::value; } };
    struct RProbe : boost::static_visitor<int> { template <class T> int operator()(T&& t) const { return IndexOf<typename std::decay<T>::type, typename Pub<E>::type...>::value + (std::is_lvalue_reference<T>::value ? 100000 : 0); } };
    template <class T> struct Q {
        static const void* get(V& v) { return boost::get<T>(&v) ? (const void*)std::addressof(*boost::get<T>(&v)) : 0; }
        static const void* cget(const V& v) { return boost::relaxed_get<T>(&v) ? (const void*)std::addressof(*boost::relaxed_get<T>(&v)) : 0; }
        static bool throws(const V& v) { try { (void)boost::strict_get<T>(v); } catch (const boost::bad_get&) { return true; } return false; }
        static const std::type_info& ti() { return typeid(T); }
        static void rv_assign(V& v, int x) { Hold<T> h(x); v = std::move(h.ref()); }
    };
    struct Info { bool ntdef, wrapper, blank, strong, tracked; size_t align; };
    static Info info(int k) { static const Info f[] = { { VT<typename Pub<E>::type>::ntdef && !Pub<E>::wrapper, Pub<E>::wrapper != 0, VT<typename Pub<E>::type>::blank != 0, (VT<typename Pub<E>::type>::ntcopy || VT<typename Pub<E>::type>::ntmove) && !Pub<E>::wrapper, VT<typename Pub<E>::type>::tracked != 0, alignof(typename Pub<E>::type) }... }; return f[k]; }
    static const void* get(V& v, int k) { typedef const void* (*F)(V&); static const F f[] = { &Q<typename Pub<E>::type>::get... }; return f[k](v); }
    static const void* cget(const V& v, int k) { typedef const void* (*F)(const V&); static const F f[] = { &Q<typename Pub<E>::type>::cget... }; return f[k](v); }
    static bool throws(const V& v, int k) { typedef bool (*F)(const V&); static const F f[] = { &Q<typename Pub<E>::type>::throws... }; return f[k](v); }
    static const std::type_info& ti(int k) { typedef const std::type_info& (*F)(); static const F f[] = { &Q<typename Pub<E>::type>::ti... }; return f[k](); }
    static void rv_assign(V& v, int k, int x) { typedef void (*F)(V&, int); static const F f[] = { &Q<typename Pub<E>::type>::rv_assign... }; f[k](v, x); }
    static std::string text(int k, int v) { std::ostringstream o; V t(B::make_v(k, v)); Print p; p.o = &o; boost::apply_visitor(p, t); return o.str(); }
    struct Print : boost::static_visitor<void> { std::ostringstream* o; template <class T> void operator()(const T& t) const { *o << IndexOf<T, typename Pub<E>::type...>::value << '=' << VT<T>::read(t); } };

    static void look(Source& s, V& v, int k, int val, const char* how) {
        const V& c = v;
        CHECK(P(18), c.which() == k, "which() is " << c.which() << " for alternative " << k << " of " << int(N) << " (" << how << ")");
        CHECK(P(18), c.type() == ti(k), "type() is wrong for alternative " << k << " of " << int(N));
        const void* a = 0; bool cs = false; Probe p; p.a = &a; p.c = &cs;
        int r = boost::apply_visitor(p, v);
        CHECK(P(18), r == k && !cs, "visitation reached alternative " << r << " instead of " << k << " of " << int(N) << " (" << how << ")");
        const void* b = a; r = boost::apply_visitor(p, c);
        CHECK(P(18), r == k && cs && a == b, "const visitation reached alternative " << r << " instead of " << k << " of " << int(N));
        int j = s.below(N), j2 = (k + 1 + s.below(3)) % N;
        for (int q = 0; q < 3; ++q) { int z = q == 0 ? k : q == 1 ? j : j2;
            CHECK(P(18), get(v, z) == (z == k ? b : 0) && cget(c, z) == (z == k ? b : 0), "get of alternative " << z << " on a variant holding " << k << " of " << int(N));
            CHECK(P(18), throws(c, z) == (z != k), "strict_get of alternative " << z << " on a variant holding " << k); }
        CHECK(P(18), reinterpret_cast<uintptr_t>(b) % info(k).align == 0, "misaligned content");
        CHECK(P(18), B::read(v) == val, "alternative " << k << " of " << int(N) << " holds " << B::read(v) << ", expected " << val << " (" << how << ")");
    }
    static void pair(Source& s, Var<V, B>& x, Var<V, B>& y) {
        const V& a = x.v(); const V& b = y.v();
        bool eq = x.k == y.k && x.val == y.val, lt = x.k < y.k || (x.k == y.k && info(x.k).tracked && x.val < y.val);
        CHECK(P(18), (a == b) == eq && (a != b) == !eq, "== between alternatives " << x.k << " and " << y.k << " of " << int(N));
        if (x.k != y.k || info(x.k).tracked) CHECK(P(18), (a < b) == lt && (a > b) == (!lt && !eq) && (a <= b) == (lt || eq) && (a >= b) == !lt, "ordering between alternatives " << x.k << " and " << y.k << " of " << int(N));
        if (eq) CHECK(P(18), boost::hash<V>()(a) == boost::hash<V>()(b), "equal variants hash differently");
        (void)s;
    }
    static void one(Source& s) {
        tk::reset();
        { int k = s.below(N), k2 = s.below(3) ? s.below(N) : k; Var<V, B> x(s, k, some_val(s)), y(s, k2, some_val(s));
        TRACE("alternatives " << k << " (" << x.how << ") and " << k2 << " (" << y.how << ") of " << int(N));
        look(s, x.v(), k, x.val, x.how); look(s, y.v(), k2, y.val, y.how); pair(s, x, y);
        std::ostringstream o; Print pr; pr.o = &o; boost::apply_visitor(pr)(x.cv()); std::ostringstream w; w << k << '=' << x.val; CHECK(P(18), o.str() == w.str(), "a delayed visitor saw " << o.str() << ", expected " << w.str());
        { V c(x.cv()); look(s, c, k, x.val, "copied"); CHECK(P(18), boost::hash<V>()(c) == boost::hash<V>()(x.cv()), "a copy hashes differently"); V m(std::move(c)); look(s, m, k, x.val, "moved"); CHECK(P(18), c.which() == k, "a moved-from variant changed its alternative"); int r = boost::apply_visitor(RProbe(), std::move(m)); CHECK(P(18), r == k, "visiting an rvalue reached alternative " << r % 100000 << (r >= 100000 ? " as an lvalue" : "") << " instead of " << k << " of " << int(N)); }
        int op = s.below(5); int v2 = y.val;
        if (op == 0) { TRACE("  assign"); x.v() = y.cv(); look(s, x.v(), k2, v2, "assigned"); }
        else if (op == 1) { TRACE("  swap"); int v1 = x.val; x.v().swap(y.v()); look(s, x.v(), k2, v2, "swapped"); look(s, y.v(), k, v1, "swapped"); }
        else if (op == 2) { TRACE("  move assign"); x.v() = std::move(y.v()); look(s, x.v(), k2, v2, "move-assigned"); CHECK(P(18), y.v().which() == k2, "a moved-from variant changed its alternative"); }
        else if (op == 3) { int k3 = s.below(N), v3 = B::canon(k3, some_val(s)); TRACE("  assign rvalue of alternative " << k3); rv_assign(x.v(), k3, v3); look(s, x.v(), k3, v3, "assigned an rvalue"); }
        else {
            TRACE("  failing assignment"); int tok = tk::st().token; bool threw = false;
            tk::arm(1 + s.below(3), tk::K_COPY | tk::K_MOVE | tk::K_CASSIGN | tk::K_ALLOC, false);
            try { x.v() = y.cv(); } catch (const tk::Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
            tk::disarm(); CHECK(P(18), threw == (tk::st().token != tok), "an exception was swallowed");
            if (!threw) look(s, x.v(), k2, v2, "assigned");
            else if (x.v().which() == k && !info(k).ntdef && k != k2) { look(s, x.v(), k, x.val, "after a failed assignment"); if (s.flip()) { V c(x.cv()); look(s, c, k, x.val, "copied after a failed assignment"); } int k3 = s.below(N), v3 = B::canon(k3, some_val(s)); B::assign(x.v(), k3, v3); look(s, x.v(), k3, v3, "assigned after a failed assignment"); pbt::label("failed assignment, value kept"); }
            else if (k != k2) { int w = x.v().which(); CHECK(P(18), info(w).ntdef, "a failed assignment left alternative " << w << " of " << int(N)); int now = B::read(x.v()); look(s, x.v(), w, !info(w).tracked || (w == k && now == x.val) ? now : tk::DEFVAL, "fallback"); pbt::label("failed assignment, fallback"); }
        }
        if (k >= 2 || k2 >= 2) pbt::nontrivial(); if (k >= 20 || k2 >= 20) pbt::label("alternative beyond the default unrolling limit"); }
        CHECK(P(18), tk::st().n == 0, "objects never destroyed");
    }
    // every position, deterministically
    static void sweep(Source& s) {
        tk::reset();
        for (int k = 0; k < N; ++k) { Var<V, B> x(s, k, k % 7); look(s, x.v(), k, x.val, x.how); { int j = (k + 1 + s.below(N)) % N; Var<V, B> y(s, j, 3); pair(s, x, y); pair(s, y, x); x.v() = y.cv(); look(s, x.v(), j, y.val, "assigned"); } }
        CHECK(P(18), tk::st().n == 0, "objects never destroyed"); pbt::nontrivial();
    }
};
}
#define OVER_CASES(V, ...) static void over_one(pbt::Source& s) { ov::Over<V, __VA_ARGS__>::one(s); } static void over_sweep(pbt::Source& s) { ov::Over<V, __VA_ARGS__>::sweep(s); } \
    PBT_CASE("over.one", over_one, 40, pbt::P(18) | pbt::P(20)); PBT_CASE("over.sweep", over_sweep, 1, pbt::P(18) | pbt::P(20))
#endif
