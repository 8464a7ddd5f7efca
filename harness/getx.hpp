// C07: the get family, on lists of related and look-alike types, for bounded
// and unbounded requests.
#ifndef VERIF_GETX_HPP
#define VERIF_GETX_HPP
#include "state.hpp"
#include <boost/variant/get.hpp>
#include <boost/variant/recursive_wrapper.hpp>

namespace gx {
struct Base { int v; explicit Base(int x = 0) : v(x) {} virtual ~Base() {} };
struct Derived : Base { explicit Derived(int x = 0) : Base(x) {} };
struct Derived2 : Derived { int w; explicit Derived2(int x = 0) : Derived(x), w(x) {} };
struct Conv { int v; int* p; explicit Conv(int x = 0) : v(x), p(0) {} operator int&() { return v; } operator const int&() const { return v; } operator Base() const { return Base(v); } };
struct FromAny { int v; FromAny(const FromAny& o) : v(o.v) {} FromAny& operator=(const FromAny& o) { v = o.v; return *this; } explicit FromAny(int x) : v(x) {} };
struct Agg { int v; };
enum Color { Red, Green };
template <int> struct Same { int v; explicit Same(int x = 0) : v(x) {} };
}
#define GX_VT(TT, MAKE, READ, SET) \
    template <> struct VT<TT> { typedef TT T; enum { tracked = 0, ntcopy = 1, ntmove = 1, ntdef = 1, allocs = 0, copyable = 1, movable = 0, blank = 0, ntma = 1 }; \
        static int canon(int v) { return ((v % 100) + 100) % 100; } static void construct(void* p, int v) { v = canon(v); new (p) T MAKE; } \
        static int read(const T& t) { return READ; } static void set(T& t, int v) { v = canon(v); SET; } static unsigned serial(const T&) { return 0; } static bool moved(int) { return false; } static int defval() { return 0; } }
namespace gx { inline const char* cs(int v) { static char b[101]; return b + v; } inline int sc(const char* p) { return int(p - cs(0)); } }
GX_VT(gx::Base, (v), t.v, t.v = v); GX_VT(gx::Derived, (v), t.v, t.v = v); GX_VT(gx::Derived2, (v), t.v == t.w ? t.v : -1, (t.v = v, t.w = v));
GX_VT(gx::Conv, (v), t.v, t.v = v); GX_VT(gx::FromAny, (v), t.v, t.v = v); GX_VT(gx::Agg, { v }, t.v, t.v = v); 
template <int I> struct VT<gx::Same<I> > { typedef gx::Same<I> T; enum { tracked = 0, ntcopy = 1, ntmove = 1, ntdef = 1, allocs = 0, copyable = 1, movable = 0, blank = 0, ntma = 1 };
    static int canon(int v) { return v; } static void construct(void* p, int v) { new (p) T(v); } static int read(const T& t) { return t.v; } static void set(T& t, int v) { t.v = v; } static unsigned serial(const T&) { return 0; } static bool moved(int) { return false; } static int defval() { return 0; } };
GX_VT(bool, (v & 1), t ? 1 : 0, t = v & 1); GX_VT(signed char, (v), t, t = (signed char)v); GX_VT(unsigned char, (v), t, t = (unsigned char)v);
GX_VT(short, (v), t, t = (short)v); GX_VT(unsigned short, (v), t, t = (unsigned short)v); GX_VT(unsigned, (v), (int)t, t = v); GX_VT(long, (v), (int)t, t = v); GX_VT(unsigned long, (v), (int)t, t = v); GX_VT(long long, (v), (int)t, t = v);
GX_VT(float, (v), (int)t, t = (float)v); GX_VT(wchar_t, (v), (int)t, t = v); GX_VT(gx::Color, (gx::Color(v & 1)), (int)t, t = gx::Color(v & 1));
GX_VT(const char*, (gx::cs(v)), gx::sc(t), t = gx::cs(v)); GX_VT(char*, (const_cast<char*>(gx::cs(v))), gx::sc(t), t = const_cast<char*>(gx::cs(v))); GX_VT(void*, ((void*)gx::cs(v)), gx::sc((const char*)t), t = (void*)gx::cs(v));
namespace gx {
using pbt::P; using pbt::Source;
// canon for bool and Color is not the identity on its range; normalise through a read back
template <class... U> struct Req {};

template <class V, class... E> struct Runner {
    typedef Builder<V, E...> B;
    template <class U> static int index() { return IndexOf<U, typename Pub<E>::type...>::value; }
    template <class U, class F> static void ref_form(F f, bool is, const void* addr, const char* what) {
        bool threw = false; const void* got = 0;
        try { got = std::addressof(f()); } catch (const boost::bad_get& e) { threw = true; CHECK(P(7), e.what() && *e.what(), "bad_get has no text"); const std::exception& se = e; (void)se; }
        CHECK(P(7), threw == !is, what << (is ? " threw bad_get for the held type" : " did not throw bad_get for another type"));
        if (is) CHECK(P(7), got == addr, what << " gave a different object");
    }
    template <class U> static void relaxed(V& x, const void* addr, bool is) {
        const V& cx = x; typedef const U CU;
        static_assert(std::is_same<decltype(boost::relaxed_get<U>(&x)), U*>::value && std::is_same<decltype(boost::relaxed_get<U>(&cx)), CU*>::value && std::is_same<decltype(boost::relaxed_get<U>(x)), U&>::value && std::is_same<decltype(boost::relaxed_get<U>(cx)), CU&>::value && std::is_same<decltype(boost::relaxed_get<U>(std::move(x))), U&&>::value, "result types");
        const void* want = is ? addr : 0;
        CHECK(P(7), (const void*)boost::relaxed_get<U>(&x) == want, "relaxed_get<U>(&v)");
        CHECK(P(7), (const void*)boost::relaxed_get<U>(&cx) == want, "relaxed_get<U>(const*)");
        CHECK(P(7), (const void*)boost::relaxed_get<CU>(&x) == want, "relaxed_get<const U>(&v)");
        V* np = 0; const V* cnp = 0;
        CHECK(P(7), !boost::relaxed_get<U>(np) && !boost::relaxed_get<U>(cnp), "relaxed_get of a null pointer");
        ref_form<U>([&]() -> U& { return boost::relaxed_get<U>(x); }, is, addr, "relaxed_get<U>(v)");
        ref_form<U>([&]() -> CU& { return boost::relaxed_get<U>(cx); }, is, addr, "relaxed_get<U>(const v)");
        ref_form<U>([&]() -> U& { U&& r = boost::relaxed_get<U>(std::move(x)); return static_cast<U&>(r); }, is, addr, "relaxed_get<U>(rvalue)");
    }
    template <class U, bool Bounded> struct Strict { static void go(V& x, const void* addr, bool is) {
        const V& cx = x; typedef const U CU; const void* want = is ? addr : 0;
        static_assert(std::is_same<decltype(boost::get<U>(&x)), U*>::value && std::is_same<decltype(boost::get<U>(&cx)), CU*>::value && std::is_same<decltype(boost::get<U>(x)), U&>::value && std::is_same<decltype(boost::get<U>(cx)), CU&>::value && std::is_same<decltype(boost::get<U>(std::move(x))), U&&>::value, "result types");
        CHECK(P(7), (const void*)boost::get<U>(&x) == want && (const void*)boost::strict_get<U>(&x) == want, "get<U>(&v)");
        CHECK(P(7), (const void*)boost::get<U>(&cx) == want && (const void*)boost::strict_get<U>(&cx) == want, "get<U>(const*)");
        CHECK(P(7), (const void*)boost::get<CU>(&x) == want && (const void*)boost::strict_get<CU>(&x) == want, "get<const U>(&v)");
        V* np = 0; const V* cnp = 0;
        CHECK(P(7), !boost::get<U>(np) && !boost::get<U>(cnp) && !boost::strict_get<U>(np) && !boost::strict_get<U>(cnp), "get of a null pointer");
        ref_form<U>([&]() -> U& { return boost::get<U>(x); }, is, addr, "get<U>(v)");
        ref_form<U>([&]() -> CU& { return boost::get<U>(cx); }, is, addr, "get<U>(const v)");
        ref_form<U>([&]() -> U& { U&& r = boost::get<U>(std::move(x)); return static_cast<U&>(r); }, is, addr, "get<U>(rvalue)");
        ref_form<U>([&]() -> U& { return boost::strict_get<U>(x); }, is, addr, "strict_get<U>(v)");
        ref_form<U>([&]() -> CU& { return boost::strict_get<U>(cx); }, is, addr, "strict_get<U>(const v)");
        ref_form<U>([&]() -> U& { U&& r = boost::strict_get<U>(std::move(x)); return static_cast<U&>(r); }, is, addr, "strict_get<U>(rvalue)");
        if (is) { U t(boost::get<U>(std::move(x))); U t2(std::move(t)); (void)t2; }
    } };
    template <class U> struct Strict<U, false> { static void go(V&, const void*, bool) {} };
    template <class U> static void query(V& x, int k, const void* addr) {
        bool is = index<U>() == k;
        TRACE("    request type " << boost::typeindex::type_id<U>().pretty_name() << (is ? " (held)" : index<U>() >= 0 ? "" : " (not bounded)"));
        relaxed<U>(x, addr, is);
        Strict<U, (IndexOf<U, typename Pub<E>::type...>::value >= 0)>::go(x, addr, is);
    }
    struct AddrVis : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& t) const { return std::addressof(t); } };
    template <class... U> static void run(Source& s, Req<U...>) {
        tk::reset();
        typedef void (*Q)(V&, int, const void*); static const Q q[] = { &Runner::template query<U>... };
        typename std::aligned_storage<sizeof(V), alignof(V)>::type m; V& x = *reinterpret_cast<V*>(&m);
        int n = 0;
        do {
            int k = s.below(sizeof...(E)); int v = B::canon(k, some_val(s));
            const char* how = B::make(s, &m, k, v); v = B::read(x);
            TRACE("  variant holds alternative " << k << " value " << v << " (" << how << ")");
            const void* addr = boost::apply_visitor(AddrVis(), const_cast<const V&>(x));
            bool all = s.below(4) == 0;
            if (all) for (unsigned i = 0; i < sizeof...(U); ++i) q[i](x, k, addr);
            else { int i = s.below(sizeof...(U)); q[i](x, k, addr); }
            CHECK(P(7) | P(1), x.which() == k && (std::is_same<V, V>::value) && B::addr(x) == addr, "get changed the variant");
            if (k) pbt::nontrivial();
            x.~V();
        } while (s.more() && ++n < 10);
        CHECK(P(4), tk::st().n == 0, "objects leaked");
    }
};
}
#define GET_CASES(tag, REQ, ...) \
    static void tag##_run(pbt::Source& s) { gx::Runner<__VA_ARGS__>::run(s, REQ()); } \
    PBT_CASE(#tag, tag##_run, 10, pbt::P(7))
#endif
