// C18/C20: very long lists of bounded types, with few instantiations per type.
#ifndef VERIF_LONG_HPP
#define VERIF_LONG_HPP
#include "pbt.hpp"
#include <boost/variant/variant.hpp>
#include <boost/variant/get.hpp>
#include <boost/variant/apply_visitor.hpp>
#include <boost/variant/static_visitor.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/joint_view.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/push_back.hpp>
#include <cstring>
#include <memory>
namespace lg {
using pbt::P; using pbt::Source;
inline int& live() { static int n = 0; return n; }
inline int& fuse() { static int n = 0; return n; }
struct Boom {};
// F 0: plain, 1: copying may throw, 2: nothrow default-constructible
template <int K, int F> struct T {
    int v; const T* self;
    explicit T(int x) noexcept : v(x), self(this) { ++live(); }
    T(const T& o) noexcept : v(o.v), self(this) { ++live(); }
    T& operator=(const T& o) noexcept { v = o.v; return *this; }
    ~T() { if (self != this) std::abort(); self = 0; --live(); }
};
template <int K> struct T<K, 1> {
    int v; const T* self;
    explicit T(int x) : v(x), self(this) { ++live(); }
    T(const T& o) : v(o.v), self(this) { if (fuse() && --fuse() == 0) throw Boom(); ++live(); }
    T& operator=(const T& o) { if (fuse() && --fuse() == 0) throw Boom(); v = o.v; return *this; }
    ~T() { if (self != this) std::abort(); self = 0; --live(); }
};
template <int K> struct T<K, 2> {
    int v; const T* self;
    T() noexcept : v(-77), self(this) { ++live(); }
    explicit T(int x) noexcept : v(x), self(this) { ++live(); }
    T(const T& o) noexcept : v(o.v), self(this) { ++live(); }
    T& operator=(const T& o) noexcept { v = o.v; return *this; }
    ~T() { if (self != this) std::abort(); self = 0; --live(); }
};
template <int K, int F> bool operator==(const T<K, F>& a, const T<K, F>& b) { return a.v == b.v; }
template <int K, int F> bool operator<(const T<K, F>& a, const T<K, F>& b) { return a.v < b.v; }

template <class... L> struct Front;
template <> struct Front<> { typedef boost::mpl::list<>::type type; };
template <class H, class... L> struct Front<H, L...> { typedef typename boost::mpl::push_front<typename Front<L...>::type, H>::type type; };
template <class S, class... L> struct BackOn { typedef S type; };
template <class S, class H, class... L> struct BackOn<S, H, L...> { typedef typename BackOn<typename boost::mpl::push_back<S, H>::type, L...>::type type; };
template <class... L> struct Back { typedef typename BackOn<boost::mpl::vector<>, L...>::type type; };
template <class A, class B> struct Joint { typedef boost::mpl::joint_view<typename A::type, typename B::type> type; };
template <class... L> struct TL {};

struct Probe { int k, v, f; const void* a; };
struct See : boost::static_visitor<Probe> {
    template <int K, int F> Probe operator()(const T<K, F>& t) const { Probe p = { K, t.v, F, &t }; return p; }
};
template <class V> struct Box {     // raw storage
    typename std::aligned_storage<sizeof(V), alignof(V)>::type m;
    V& v() { return *reinterpret_cast<V*>(&m); }
};
template <class V, class E> struct Mk { static void make(void* p, int x) { E e(x); new (p) V(e); } };
template <class V, class E> struct Sel {   // a few alternatives are also assigned and got directly
    static void assign(V& v, int x) { E e(x); v = e; }
    static int get(const V& v) { const E* p = boost::get<E>(&v); return p ? p->v : -1000; }
    static const void* addr(const V& v) { return boost::get<E>(&v); }
};
template <class V, class All, class Chosen> struct Long;
template <class V, class... E, int... K, int... F> struct Long<V, TL<E...>, TL<T<K, F>...> > {
    enum { N = sizeof...(E), M = sizeof...(K) };
    static void make(void* p, int k, int x) { typedef void (*Fn)(void*, int); static const Fn f[] = { &Mk<V, E>::make... }; f[k](p, x); }
    static void assign(V& v, int i, int x) { typedef void (*Fn)(V&, int); static const Fn f[] = { &Sel<V, T<K, F> >::assign... }; f[i](v, x); }
    static const void* addr(const V& v, int i) { typedef const void* (*Fn)(const V&); static const Fn f[] = { &Sel<V, T<K, F> >::addr... }; return f[i](v); }
    static int chosen(int i) { static const int k[] = { K... }; return k[i]; }
    static int pick(Source& s) { switch (s.below(4)) { case 0: return chosen(s.below(M)); case 1: return N - 1 - s.below(N < 12 ? N : 12); default: return s.below(N); } }
    static void look(const V& v, int k, int x, const char* how) {
        CHECK(P(18) | P(20), v.which() == k, "which() is " << v.which() << " for alternative " << k << " of " << int(N) << " (" << how << ")");
        Probe p = boost::apply_visitor(See(), v);
        CHECK(P(18) | P(20), p.k == k && p.v == x, "visitation reached alternative " << p.k << " with value " << p.v << ", expected " << k << " with " << x << ", of " << int(N) << " (" << how << ")");
        for (int i = 0; i < M; ++i) CHECK(P(18) | P(20), addr(v, i) == (chosen(i) == k ? p.a : 0), "get of alternative " << chosen(i) << " on a variant holding " << k << " of " << int(N) << " (" << how << ")");
    }
    struct S { Box<V> b; int k, x; S(int k_, int x_) : k(k_), x(x_) { std::memset(&b, 0xCB, sizeof b); make(&b.m, k, x); } ~S() { v().~V(); } V& v() { return b.v(); } };
    static void run(Source& s) {
        live() = 0; fuse() = 0;
        { S a(pick(s), s.below(50)), b(pick(s), s.below(50)), c(pick(s), s.below(50)); S* z[3] = { &a, &b, &c };
        TRACE(int(N) << " types, holding " << a.k << ", " << b.k << ", " << c.k);
        int steps = 1 + s.below(10);
        for (int i = 0; i < steps; ++i) {
            S& l = *z[s.below(3)]; S& r = *z[s.below(3)];
            switch (s.below(8)) {
            case 0: TRACE("copy and copy back"); { V t(l.v()); look(t, l.k, l.x, "copied"); r.v() = t; r.k = l.k; r.x = l.x; } break;
            case 1: TRACE("move construct"); { V t(std::move(l.v())); look(t, l.k, l.x, "moved"); } break;
#ifndef LG_BIG      // comparison and swap instantiate n*n functions
            case 2: TRACE("swap"); l.v().swap(r.v()); std::swap(l.k, r.k); std::swap(l.x, r.x); break;
#else
            case 2:
#endif
            case 3: { int i2 = s.below(M), x = s.below(50); TRACE("assign " << chosen(i2)); assign(l.v(), i2, x); l.k = chosen(i2); l.x = x; break; }
            case 4: case 5: {
                int i2 = s.below(M), x = s.below(50); int f = 1 + s.below(2); TRACE("assign " << chosen(i2) << ", copy " << f << " fails"); bool t = false; fuse() = f; int k0 = l.k, x0 = l.x;
                try { assign(l.v(), i2, x); } catch (const Boom&) { t = true; } fuse() = 0;
                if (!t) { l.k = chosen(i2); l.x = x; }
                else { Probe p = boost::apply_visitor(See(), l.v()); CHECK(P(18) | P(20), (p.k == k0 && p.v == x0) || (p.f == 2 && p.v == -77), "a failed assignment left alternative " << p.k << " of " << int(N) << " with value " << p.v << "; it held " << k0 << " with " << x0); l.k = p.k; l.x = p.v; pbt::label("failed assignment"); }
                break; }
            case 6: TRACE("assign variant"); l.v() = r.v(); l.k = r.k; l.x = r.x; break;
#ifndef LG_BIG
            case 7: { TRACE("compare"); bool eq = l.k == r.k && l.x == r.x, lt = l.k < r.k || (l.k == r.k && l.x < r.x);
                CHECK(P(18) | P(20), (l.v() == r.v()) == eq && (l.v() < r.v()) == lt, "comparison of alternatives " << l.k << " and " << r.k << " of " << int(N)); break; }
#endif
            default: break;
            }
            for (int q = 0; q < 3; ++q) look(z[q]->v(), z[q]->k, z[q]->x, "after the step");
        }
        if (a.k > 20 || b.k > 20 || c.k > 20) pbt::nontrivial();
        if (a.k > 126 || b.k > 126 || c.k > 126) pbt::label("alternative above 126"); }
        CHECK(P(18) | P(20), live() == 0, live() << " objects never destroyed, or destroyed twice");
    }
    static void sweep(Source& s) {
        live() = 0; fuse() = 0;
        for (int k = 0; k < N; ++k) { S a(k, k * 3), b((k + 1 + s.below(N)) % N, 5); look(a.v(), k, a.x, "constructed"); V t(a.v()); look(t, k, a.x, "copied"); b.v() = t; look(b.v(), k, a.x, "assigned");
#ifndef LG_BIG
            bool same = b.v() == a.v(); CHECK(P(18) | P(20), same, "a copy compares different for alternative " << k << " of " << int(N));
#endif
        }
        CHECK(P(18) | P(20), live() == 0, live() << " objects never destroyed, or destroyed twice"); if (N > 20) pbt::nontrivial();
    }
};
}
#endif
