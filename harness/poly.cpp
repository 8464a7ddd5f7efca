// C08: polymorphic_get over hierarchies with single, multiple and virtual
// inheritance.  Oracle: the implicit derived-to-base conversion of the held
// object's own address.
#include "state.hpp"
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/recursive_wrapper.hpp>

namespace po {
using pbt::P; using pbt::Source;
struct A { int v; explicit A(int x = 0) : v(x) {} };
struct X { long x; explicit X(int a = 0) : x(a) {} };
struct B : A { int b; explicit B(int x = 0) : A(x), b(x) {} };
struct C : X, A { int c; explicit C(int x = 0) : X(x), A(x), c(x) {} };
struct F : B { explicit F(int x = 0) : B(x) {} };
struct U { int v; explicit U(int x = 0) : v(x) {} };
struct VB { short v; explicit VB(int x = 0) : v((short)x) {} virtual ~VB() {} };
struct V1 : virtual VB { int p; explicit V1(int x = 0) : VB(x), p(x) {} };
struct V2 : virtual VB { int q; explicit V2(int x = 0) : VB(x), q(x) {} };
struct V3 : V1, V2 { explicit V3(int x = 0) : VB(x), V1(x), V2(x) {} };
struct W : X, VB { int w; explicit W(int x = 0) : X(x), VB(x), w(x) {} };
struct Fin final : A { explicit Fin(int x = 0) : A(x) {} };
struct TA : A { tk::CM<1> t; explicit TA(int x = 0) : A(x), t(tk::Raw(), x) {} TA(const TA& o) : A(o), t(o.t) {} TA& operator=(const TA& o) { t = o.t; v = o.v; return *this; } };
struct TB : X, A { tk::CO<2> t; explicit TB(int x = 0) : X(x), A(x), t(tk::Raw(), x) {} TB(const TB& o) : X(o), A(o), t(o.t) {} TB& operator=(const TB& o) { t = o.t; v = o.v; x = o.x; return *this; } };
template <class T> struct PV { enum { tracked = 0, ntcopy = 0, ntmove = 0, ntdef = 0, allocs = 0, copyable = 1, movable = 0, blank = 0, ntma = 0 };
    static int canon(int v) { return v; } static void construct(void* p, int v) { new (p) T(v); } static unsigned serial(const T&) { return 0; } static bool moved(int) { return false; } static int defval() { return 0; }
    static int read(const T& t) { return (int)t.v; } static void set(T& t, int v) { t = T(v); } };
}
template <> struct VT<po::A> : po::PV<po::A> {}; template <> struct VT<po::B> : po::PV<po::B> {}; template <> struct VT<po::C> : po::PV<po::C> {}; template <> struct VT<po::F> : po::PV<po::F> {};
template <> struct VT<po::U> : po::PV<po::U> {}; template <> struct VT<po::VB> : po::PV<po::VB> {}; template <> struct VT<po::V1> : po::PV<po::V1> {}; template <> struct VT<po::V2> : po::PV<po::V2> {};
template <> struct VT<po::V3> : po::PV<po::V3> {}; template <> struct VT<po::W> : po::PV<po::W> {}; template <> struct VT<po::Fin> : po::PV<po::Fin> {}; template <> struct VT<po::TA> : po::PV<po::TA> {}; template <> struct VT<po::TB> : po::PV<po::TB> {};
namespace po {
template <class U, class T, bool Is> struct Up { static const void* f(const T&) { return 0; } };
template <class U, class T> struct Up<U, T, true> { static const void* f(const T& t) { return static_cast<const U*>(std::addressof(t)); } };
template <class U> struct UpVis : boost::static_visitor<const void*> {
    template <class T> const void* operator()(const T& t) const { return Up<U, T, (std::is_same<U, T>::value || std::is_base_of<U, T>::value)>::f(t); }
};
template <class Q> int tag_of(const Q& q) { return (int)q.v; }
inline int tag_of(const X& q) { return (int)q.x; }
inline int tag_of(const C& q) { return (int)q.v; } inline int tag_of(const W& q) { return (int)q.v; } inline int tag_of(const TB& q) { return (int)q.v; }
inline int tag_of(const int& q) { return q; }

template <class... Q> struct Req {};
template <class V, class... E> struct Runner {
    typedef Builder<V, E...> BD;
    template <class Q, class F> static void ref_form(F f, const void* want, int val, const char* what) {
        bool threw = false; const Q* got = 0;
        try { got = std::addressof(f()); } catch (const boost::bad_polymorphic_get& e) { threw = true; CHECK(P(8), e.what() && *e.what(), "no text"); const std::exception& se = e; (void)se; }
        catch (const boost::bad_get&) { CHECK(P(8), false, what << " threw bad_get"); }
        CHECK(P(8), threw == (want == 0), what << (want ? " threw" : " did not throw bad_polymorphic_get"));
        if (want) CHECK(P(8), (const void*)got == want && tag_of(*got) == val, what << " gave a different object");
    }
    template <class Q, bool Strict> struct Ask { static void go(V& x, const void* want, int val) {
        const V& cx = x; typedef const Q CQ; V* np = 0; const V* cnp = 0;
        static_assert(std::is_same<decltype(boost::polymorphic_get<Q>(&x)), Q*>::value && std::is_same<decltype(boost::polymorphic_get<Q>(&cx)), CQ*>::value && std::is_same<decltype(boost::polymorphic_get<Q>(x)), Q&>::value && std::is_same<decltype(boost::polymorphic_get<Q>(cx)), CQ&>::value, "result types");
        CHECK(P(8), (const void*)boost::polymorphic_get<Q>(&x) == want && (const void*)boost::polymorphic_strict_get<Q>(&x) == want, "polymorphic_get<Q>(&v)");
        CHECK(P(8), (const void*)boost::polymorphic_get<Q>(&cx) == want && (const void*)boost::polymorphic_strict_get<Q>(&cx) == want, "polymorphic_get<Q>(const*)");
        CHECK(P(8), (const void*)boost::polymorphic_get<CQ>(&x) == want, "polymorphic_get<const Q>(&v)");
        CHECK(P(8), !boost::polymorphic_get<Q>(np) && !boost::polymorphic_strict_get<Q>(cnp), "null pointer");
        ref_form<Q>([&]() -> Q& { return boost::polymorphic_get<Q>(x); }, want, val, "polymorphic_get<Q>(v)");
        ref_form<Q>([&]() -> CQ& { return boost::polymorphic_get<Q>(cx); }, want, val, "polymorphic_get<Q>(const v)");
        ref_form<Q>([&]() -> Q& { return boost::polymorphic_strict_get<Q>(x); }, want, val, "polymorphic_strict_get<Q>(v)");
        ref_form<Q>([&]() -> CQ& { return boost::polymorphic_strict_get<Q>(cx); }, want, val, "polymorphic_strict_get<Q>(const v)");
    } };
    template <class Q> struct Ask<Q, false> { static void go(V&, const void*, int) {} };
    template <class Q> struct IsReq { enum { strict = !AllTrue<!(std::is_same<Q, E>::value || std::is_same<boost::recursive_wrapper<Q>, E>::value || std::is_base_of<Q, E>::value)...>::value }; };
    template <class Q> static void query(V& x, int val) {
        const V& cx = x; typedef const Q CQ; V* np = 0; const V* cnp = 0;
        const void* want = boost::apply_visitor(UpVis<Q>(), cx);
        TRACE("    request " << boost::typeindex::type_id<Q>().pretty_name() << (want ? " (held or base of held)" : ""));
        CHECK(P(8), (const void*)boost::polymorphic_relaxed_get<Q>(&x) == want, "polymorphic_relaxed_get<Q>(&v)");
        CHECK(P(8), (const void*)boost::polymorphic_relaxed_get<Q>(&cx) == want, "polymorphic_relaxed_get<Q>(const*)");
        CHECK(P(8), (const void*)boost::polymorphic_relaxed_get<CQ>(&x) == want, "polymorphic_relaxed_get<const Q>(&v)");
        CHECK(P(8), !boost::polymorphic_relaxed_get<Q>(np) && !boost::polymorphic_relaxed_get<Q>(cnp), "null pointer");
        ref_form<Q>([&]() -> Q& { return boost::polymorphic_relaxed_get<Q>(x); }, want, val, "polymorphic_relaxed_get<Q>(v)");
        ref_form<Q>([&]() -> CQ& { return boost::polymorphic_relaxed_get<Q>(cx); }, want, val, "polymorphic_relaxed_get<Q>(const v)");
        Ask<Q, IsReq<Q>::strict != 0>::go(x, want, val);
        if (want) pbt::label("match");
    }
    template <class... Q> static void run(Source& s, Req<Q...>) {
        tk::reset();
        typedef void (*F)(V&, int); static const F q[] = { &Runner::template query<Q>... };
        typename std::aligned_storage<sizeof(V), alignof(V)>::type m; V& x = *reinterpret_cast<V*>(&m); int n = 0;
        do {
            int k = s.below(sizeof...(E)); int v = BD::canon(k, some_val(s)); const char* how = BD::make(s, &m, k, v); v = BD::read(x);
            TRACE("  variant holds alternative " << k << " value " << v << " (" << how << ")");
            int r = s.below(4);
            if (r == 0) for (unsigned i = 0; i < sizeof...(Q); ++i) q[i](x, v); else for (int i = 0; i < r; ++i) q[s.below(sizeof...(Q))](x, v);
            CHECK(P(8), x.which() == k && BD::read(x) == v, "polymorphic_get changed the variant");
            if (k) pbt::nontrivial();
            x.~V();
        } while (s.more() && ++n < 10);
    }
};
template <class V, class Q, class... E> struct Go { static void run(Source& s) { Runner<V, E...>::run(s, Q()); } };
}
using namespace po;
#define POLY_CASES(tag, REQ, ...) \
    static void tag##_run(pbt::Source& s) { po::Runner<boost::variant<__VA_ARGS__>, __VA_ARGS__>::run(s, REQ()); } \
    PBT_CASE(#tag, tag##_run, 10, pbt::P(8))
#ifdef POLY_PART2
typedef po::Req<VB, V1, V2, V3, W, X, A, U> R2;
POLY_CASES(poly_virtual, R2, V1, V2, V3, VB, boost::recursive_wrapper<W>);
typedef po::Req<A, TA, TB, X, B, int> R3;
POLY_CASES(poly_backup, R3, TA, TB, A);
#else
typedef po::Req<A, B, C, F, U, X, int, VB, Fin> R1;
POLY_CASES(poly_plain, R1, int, A, B, C, F, U, Fin);
typedef po::Req<A, B, C, F, U, X, int> R4;
POLY_CASES(poly_derived, R4, F, boost::recursive_wrapper<C>, B, U);
#endif
