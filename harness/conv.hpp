// Support for the generated programs of C12 and C13: a pool of types with
// values and equality, operand forms, and the overload-resolution oracle.
#ifndef VERIF_CONV_HPP
#define VERIF_CONV_HPP
#include <boost/variant.hpp>
#include <boost/blank.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace cv {
// ------------------------------------------------------------------ pool
enum E1 { e1a, e1b, e1c }; enum E2 : unsigned char { e2a, e2b, e2c }; enum class S1 { a, b, c };
struct Base { int v; int how; Base(int x = 0) : v(x), how(0) {} };
struct Derived : Base { int w; Derived(int x = 0) : Base(x), w(x + 1) {} };
struct D2 : Derived { int z; D2(int x = 0) : Derived(x), z(x + 2) {} };
struct Other { int o; Other() : o(0) {} explicit Other(int x) : o(x) {} };
struct FromInt { long v; int how; FromInt() : v(0), how(0) {} FromInt(int x) : v(x), how(1) {} };
struct FromLong { long v; int how; FromLong() : v(0), how(0) {} FromLong(long x) : v(x), how(2) {} };
struct FromDbl { double v; int how; FromDbl() : v(0), how(0) {} FromDbl(double x) : v(x), how(3) {} FromDbl(float x) : v(x), how(4) {} };
struct FromStr { std::string v; int how; FromStr() : how(0) {} FromStr(const char* p) : v(p), how(5) {} FromStr(const std::string& s) : v(s), how(6) {} FromStr(std::string&& s) : v(std::move(s)), how(7) {} };
struct FromBase { int v; int how; FromBase() : v(0), how(0) {} FromBase(const Base& b) : v(b.v), how(8) {} };
struct FromBaseRV { int v; int how; FromBaseRV() : v(0), how(0) {} FromBaseRV(Base&& b) : v(b.v), how(9) {} FromBaseRV(const Base& b) : v(b.v), how(10) {} };
struct ExplInt { int v; ExplInt() : v(0) {} explicit ExplInt(int x) : v(x) {} };
struct FromAny { std::size_t sz; int how; FromAny() : sz(0), how(0) {} template <class T> FromAny(const T&) : sz(sizeof(typename std::decay<T>::type)), how(11) {} };
struct FromOther { int v; int how; FromOther() : v(0), how(0) {} FromOther(Other& x) : v(x.o), how(12) {} FromOther(const Other& x) : v(x.o), how(13) {} FromOther(Other&& x) : v(x.o), how(14) {} };
struct ToInt { int v; ToInt(int x = 0) : v(x) {} operator int() const { return v; } };
struct ToStr { int v; ToStr(int x = 0) : v(x) {} operator std::string() const { return std::string((v & 7) + 1, 's'); } };
struct ToBase { int v; ToBase(int x = 0) : v(x) {} operator Base() const { return Base(v + 5); } };
struct ToDerRef { Derived d; ToDerRef(int x = 0) : d(x) {} operator Derived&() { return d; } operator const Derived&() const { return d; } };
struct ToPtr { int v; ToPtr(int x = 0) : v(x) {} operator const char*() const { return "to-ptr"; } };
struct ToMany { int v; ToMany(int x = 0) : v(x) {} operator short() const { return (short)(v + 1); } operator double() const { return v + 2; } };
struct ToNC { int v; ToNC(int x = 0) : v(x) {} operator int() { return v + 1; } operator long() const { return v + 2; } };
struct ToRV { int v; ToRV(int x = 0) : v(x) {} operator int() && { return v + 1; } operator double() const& { return v + 2; } };
struct Incr { int v; Incr(int x = 0) : v(x) {} };
typedef int (*Fn)(int); inline int f0(int x) { return x; } inline int f1(int x) { return x + 1; }
typedef std::unique_ptr<int> Up; typedef std::vector<int> Vec; typedef std::function<int(int)> Func; typedef int Base::* Mp;
typedef const char* Ccp; typedef char* Chp; typedef void* Vp; typedef const void* Cvp; typedef int* Ip; typedef const int* Cip; typedef Base* Bp; typedef const Base* Cbp; typedef Derived* Dp; typedef std::nullptr_t Nul;
typedef unsigned char Uc; typedef signed char Sc; typedef unsigned short Us; typedef unsigned Ui; typedef unsigned long Ul; typedef long long Ll; typedef unsigned long long Ull; typedef long double Ld;
inline int& cell(int i) { static int c[4] = { 1, 2, 3, 4 }; return c[i & 3]; }
inline Derived& dcell(int i) { static Derived d[4] = { Derived(1), Derived(2), Derived(3), Derived(4) }; return d[i & 3]; }
inline char* chs(int i) { static char c[2][8] = { "char*0", "char*1" }; return c[i & 1]; }

template <class T> struct Mk { static T go(int s) { return T(s); } };
template <> struct Mk<bool> { static bool go(int s) { return s & 1; } };
template <> struct Mk<E1> { static E1 go(int s) { return E1(((s % 3) + 3) % 3); } }; template <> struct Mk<E2> { static E2 go(int s) { return E2(((s % 3) + 3) % 3); } }; template <> struct Mk<S1> { static S1 go(int s) { return S1(((s % 3) + 3) % 3); } };
template <> struct Mk<float> { static float go(int s) { return s + 0.25f; } }; template <> struct Mk<double> { static double go(int s) { return s + 0.75; } }; template <> struct Mk<Ld> { static Ld go(int s) { return s + 0.125L; } };
template <> struct Mk<Fn> { static Fn go(int s) { return s & 1 ? &f0 : &f1; } }; template <> struct Mk<Mp> { static Mp go(int s) { return s & 1 ? &Base::v : &Base::how; } };
template <> struct Mk<Up> { static Up go(int s) { return Up(new int(s)); } }; template <> struct Mk<Vec> { static Vec go(int s) { return Vec(1 + (s & 3), s); } }; template <> struct Mk<Func> { static Func go(int s) { return Func([s](int x) { return x + s; }); } };
template <> struct Mk<std::string> { static std::string go(int s) { char b[40]; std::snprintf(b, 40, "%d%s", s, s & 1 ? " and a longer tail beyond sso" : ""); return b; } };
template <> struct Mk<FromStr> { static FromStr go(int s) { return FromStr(Mk<std::string>::go(s)); } };
template <> struct Mk<FromDbl> { static FromDbl go(int s) { return FromDbl(s + 0.5); } };
template <> struct Mk<FromBase> { static FromBase go(int s) { return FromBase(Base(s)); } }; template <> struct Mk<FromBaseRV> { static FromBaseRV go(int s) { return FromBaseRV(Base(s)); } }; template <> struct Mk<FromOther> { static FromOther go(int s) { return FromOther(Other(s)); } };
template <> struct Mk<FromAny> { static FromAny go(int s) { FromAny a; a.sz = s & 15; return a; } };
template <> struct Mk<Nul> { static Nul go(int) { return nullptr; } }; template <> struct Mk<Ccp> { static Ccp go(int s) { return chs(s); } }; template <> struct Mk<Chp> { static Chp go(int s) { return chs(s); } };
template <> struct Mk<Vp> { static Vp go(int s) { return &cell(s); } }; template <> struct Mk<Cvp> { static Cvp go(int s) { return &cell(s); } }; template <> struct Mk<Ip> { static Ip go(int s) { return &cell(s); } }; template <> struct Mk<Cip> { static Cip go(int s) { return &cell(s); } };
template <> struct Mk<Bp> { static Bp go(int s) { return &dcell(s); } }; template <> struct Mk<Cbp> { static Cbp go(int s) { return &dcell(s); } }; template <> struct Mk<Dp> { static Dp go(int s) { return &dcell(s); } };
template <> struct Mk<boost::blank> { static boost::blank go(int) { return boost::blank(); } };

template <class T> bool same(const T& a, const T& b) { return a == b; }
inline bool same(const Base& a, const Base& b) { return a.v == b.v && a.how == b.how; } inline bool same(const Derived& a, const Derived& b) { return a.v == b.v && a.w == b.w; } inline bool same(const D2& a, const D2& b) { return a.v == b.v && a.w == b.w && a.z == b.z; }
inline bool same(const Other& a, const Other& b) { return a.o == b.o; } inline bool same(const ExplInt& a, const ExplInt& b) { return a.v == b.v; } inline bool same(const FromAny& a, const FromAny& b) { return a.sz == b.sz && a.how == b.how; }
#define CV_SAME(T) inline bool same(const T& a, const T& b) { return a.v == b.v && a.how == b.how; }
CV_SAME(FromInt) CV_SAME(FromLong) CV_SAME(FromDbl) CV_SAME(FromStr) CV_SAME(FromBase) CV_SAME(FromBaseRV) CV_SAME(FromOther)
#undef CV_SAME
#define CV_SAME(T) inline bool same(const T& a, const T& b) { return a.v == b.v; }
CV_SAME(ToInt) CV_SAME(ToStr) CV_SAME(ToBase) CV_SAME(ToPtr) CV_SAME(ToMany) CV_SAME(ToNC) CV_SAME(ToRV) CV_SAME(Incr)
#undef CV_SAME
inline bool same(const ToDerRef& a, const ToDerRef& b) { return a.d.v == b.d.v; } inline bool same(const Up& a, const Up& b) { return (!a && !b) || (a && b && *a == *b); }
inline bool same(const Func& a, const Func& b) { return (!a && !b) || (a && b && a(100) == b(100)); } inline bool same(const boost::blank&, const boost::blank&) { return true; }

// -------------------------------------------------------------- operands
template <class T> struct Lv { typedef T& Op; typedef T obj; static Op use(T& t) { return t; } static T make(int s) { return Mk<T>::go(s); } };
template <class T> struct Cl { typedef const T& Op; typedef T obj; static Op use(T& t) { return t; } static T make(int s) { return Mk<T>::go(s); } };
template <class T> struct Rv { typedef T&& Op; typedef T obj; static Op use(T& t) { return std::move(t); } static T make(int s) { return Mk<T>::go(s); } };
template <class T> struct Cr { typedef const T&& Op; typedef T obj; static Op use(T& t) { return static_cast<const T&&>(t); } static T make(int s) { return Mk<T>::go(s); } };
struct Lit { typedef const char (&Op)[4]; typedef int obj; static Op use(int&) { return "lit"; } static int make(int s) { return s; } };
struct Arr { typedef int (&Op)[3]; typedef int obj; static Op use(int&) { static int a[3] = { 7, 8, 9 }; return a; } static int make(int s) { return s; } };
struct FunRef { typedef int (&Op)(int); typedef int obj; static Op use(int&) { return f0; } static int make(int s) { return s; } };
template <class O> struct IsLv { enum { value = 0 }; }; template <class T> struct IsLv<Lv<T> > { enum { value = 1 }; };
template <> struct IsLv<Arr> { enum { value = 1 }; };

// ---------------------------------------------------------------- oracle
template <class... T> struct List { enum { size = sizeof...(T) }; };
template <class T> struct Unwrap { typedef T type; }; template <class T> struct Unwrap<boost::recursive_wrapper<T> > { typedef T type; };
template <int I, class... T> struct Val; template <int I> struct Val<I> { static void f(); };
template <int I, class H, class... T> struct Val<I, H, T...> : Val<I + 1, T...> { using Val<I + 1, T...>::f; static std::integral_constant<int, I> f(typename Unwrap<H>::type); };
template <int I, class... T> struct Ref; template <int I> struct Ref<I> { static void f(); };
template <int I, class H, class... T> struct Ref<I, H, T...> : Ref<I + 1, T...> { using Ref<I + 1, T...>::f; typedef typename Unwrap<H>::type U; static std::integral_constant<int, I> f(const U&); static std::integral_constant<int, I> f(U&&); };
template <class...> struct Void { typedef void type; };
template <class S, class Op, class = void> struct Pick { enum { value = -1 }; };
template <class S, class Op> struct Pick<S, Op, typename Void<decltype(S::f(std::declval<Op>()))>::type> { enum { value = decltype(S::f(std::declval<Op>()))::value }; };
template <int I, class... T> struct At; template <class H, class... T> struct At<0, H, T...> { typedef typename Unwrap<H>::type type; }; template <int I, class H, class... T> struct At<I, H, T...> : At<I - 1, T...> {};
template <class T, class... L> struct Has { enum { value = 0 }; }; template <class T, class H, class... L> struct Has<T, H, L...> { enum { value = std::is_same<T, typename Unwrap<H>::type>::value || Has<T, L...>::value }; };
// index chosen by both readings of "overload resolution over the bounded types"; -1 when undecided
template <class Op, class L> struct Choose;
template <int I, class Op, class... T> struct Fine { typedef typename At<I, T...>::type W; enum { nul = std::is_same<typename std::decay<Op>::type, Nul>::value && (std::is_same<W, std::string>::value || std::is_same<W, FromStr>::value), value = !nul && std::is_convertible<Op, typename At<I, T...>::type>::value && std::is_constructible<typename At<I, T...>::type, Op>::value ? I : -1 }; };
template <class Op, class... T> struct Fine<-1, Op, T...> { enum { value = -1 }; };
// recursive_wrapper<T> takes part in a conversion only from T itself (T may be
// incomplete), unless an unwrapped alternative accepts the operand
template <class Op, class... T> struct Gate { enum { value = 0 }; };
template <class Op, class H, class... T> struct Gate<Op, H, T...> { enum { value = std::is_constructible<H, Op>::value || Gate<Op, T...>::value }; };
template <class Op, class H, class... T> struct Gate<Op, boost::recursive_wrapper<H>, T...> { enum { value = std::is_same<typename std::decay<Op>::type, H>::value || Gate<Op, T...>::value }; };
template <class Op, class... T> struct Choose<Op, List<T...> > { enum { a = Pick<Val<0, T...>, Op>::value, b = Pick<Ref<0, T...>, Op>::value, c = (a == b && Gate<Op, T...>::value) ? a : -1, value = Fine<c, Op, T...>::value }; };

// ---------------------------------------------------------------- report
struct Rep { long evals, cases, decided, skipped; };
inline Rep& rep() { static Rep r; return r; }
inline void bad(const char* id, const std::string& m) { std::printf("FAIL %s %s\n", id, m.c_str()); std::fflush(stdout); std::_Exit(1); }
#define CV_CHECK(c, expr) do { if (!(c)) { std::ostringstream o_; o_ << expr; ::cv::bad(id, o_.str()); } } while (0)
struct Rng { unsigned long long x; unsigned below(unsigned n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return unsigned((x >> 16) % n); } };

template <class... T> struct Fill { typedef boost::variant<T...> V;
    template <class U> static void set(V& v, int s) { v = Mk<U>::go(s); }
    static void put(V& v, int k, int s) { typedef void (*F)(V&, int); static const F f[] = { &Fill::template set<typename Unwrap<T>::type>... }; f[k](v, s); }
    template <class U> static bool eq(const V& v, int s) { const U* p = boost::get<U>(&v); return p && same(*p, Mk<U>::go(s)); }
    static bool holds(const V& v, int k, int s) { typedef bool (*F)(const V&, int); static const F f[] = { &Fill::template eq<typename Unwrap<T>::type>... }; return v.which() == k && f[k](v, s); }
};
// ------------------------------------------------------------ C12 driver
template <class O, class L, int K> struct Conv1;
template <class O, int K, class... T> struct Conv2 {
    typedef boost::variant<T...> V; typedef typename At<K, T...>::type U; typedef typename O::Op Op;
    static void verify(const char* id, const V& v, const U& e, const char* how, int s) {
        CV_CHECK(v.which() == K, how << ": selected alternative " << v.which() << ", overload resolution selects " << K << " (value seed " << s << ")");
        CV_CHECK(boost::get<U>(&v) && same(*boost::get<U>(&v), e), how << ": stored value is not the conversion of the operand (value seed " << s << ")");
        ++rep().evals;
    }
    static V pass(V v) { return v; }
    template <bool B, class X = void> struct Assign { static void go(const char* id, Rng& r, int s, const U& e0) {
        U e(Own<O>::expected(s, e0));
        for (unsigned k = 0; k < sizeof...(T); ++k) {
            V v; Fill<T...>::put(v, k, r.below(50)); typename O::obj o = O::make(s);
            V& ref = (v = O::use(o)); verify(id, v, e, "assignment", s); CV_CHECK(&ref == &v, "assignment does not return its left operand");
        } } };
    template <class X> struct Assign<false, X> { static void go(const char*, Rng&, int, const U&) {} };
    // assignment takes an lvalue operand as const
    template <class Q, class X = void> struct Own { static U expected(int s, const U&) { typename Q::obj o = Q::make(s); U e = Q::use(o); return e; } };
    template <class Q, class X> struct Own<Lv<Q>, X> { static U expected(int s, const U&) { Q o = Lv<Q>::make(s); U e = Cl<Q>::use(o); return e; } };
    static void go(const char* id, Rng& r, int rounds) {
        for (int n = 0; n < rounds; ++n) {
            int s = (int)r.below(120); typename O::obj o0 = O::make(s); U e = O::use(o0);
            { typename O::obj o = O::make(s); V v(O::use(o)); verify(id, v, e, "direct construction", s); }
            { typename O::obj o = O::make(s); V v = O::use(o); verify(id, v, e, "copy-initialisation", s); }
            { typename O::obj o = O::make(s); verify(id, pass(O::use(o)), e, "argument passing", s); }
            enum { asg = !IsLv<O>::value || (Choose<const typename std::remove_reference<Op>::type&, List<T...> >::value == K) };
            Assign<asg != 0>::go(id, r, s, e);
        }
    }
};
template <class O, int K, class... T> struct Conv1<O, List<T...>, K> { static void go(const char* id, Rng& r, int rounds) { ++rep().decided; Conv2<O, K, T...>::go(id, r, rounds); } };
template <class O, class... T> struct Conv1<O, List<T...>, -1> { static void go(const char*, Rng&, int) { ++rep().skipped; } };
template <class O, class L> void conv_case(const char* id, unsigned long long seed, int rounds) {
    Rng r = { seed * 0x9E3779B97F4A7C15ull + 12345 }; ++rep().cases; Conv1<O, L, Choose<typename O::Op, L>::value>::go(id, r, rounds);
}
}
#endif
