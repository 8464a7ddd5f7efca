// C20: one deterministic program, built under many configurations.  Each case
// is a byte string decoded into a history; everything observable is written
// to a log, of which digests are printed per case:
//   base (no failures injected), io (text written to streams), fault (the same
//   history with throwing contents), long (lists around the discriminator limits).
#include <boost/blank.hpp>
#include <cstddef>
namespace boost { inline std::size_t hash_value(const blank&) { return 77; } }
#include <boost/variant/variant.hpp>
#include <boost/variant/get.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/apply_visitor.hpp>
#include <boost/variant/static_visitor.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/recursive_variant.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/joint_view.hpp>
#include <boost/blank.hpp>
#ifndef BOOST_NO_IOSTREAM
#include <boost/variant/detail/variant_io.hpp>
#endif
#include <boost/throw_exception.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
#define EXC 1
#else
#define EXC 0
#include <exception>
namespace boost { void throw_exception(std::exception const&) { std::abort(); } 
#ifdef BOOST_NO_EXCEPTIONS
struct source_location; void throw_exception(std::exception const&, boost::source_location const&) { std::abort(); }
#endif
}
#endif

struct Source {
    const uint8_t* p; size_t n, i;
    uint32_t below(uint32_t k) { if (k <= 1) return 0; uint8_t b = i < n ? p[i] : 0; ++i; return b % k; }
    bool more() const { return i < n; }
};
static uint64_t g_h; static bool g_trace; static std::string g_line;
static void mix(uint64_t x) { g_h = (g_h ^ (x + 0x9e3779b97f4a7c15ull)) * 1099511628211ull; g_h ^= g_h >> 29; }
static void put(const char* what, long v) { for (const char* c = what; *c; ++c) mix(uint8_t(*c)); mix(uint64_t(v)); if (g_trace) std::printf("  %s %ld\n", what, v); }
static void puts_(const char* what, const std::string& s) { for (const char* c = what; *c; ++c) mix(uint8_t(*c)); for (size_t i = 0; i < s.size(); ++i) mix(uint8_t(s[i])); if (g_trace) std::printf("  %s %s\n", what, s.c_str()); }

static int g_fuse, g_live;
struct Boom {};
static void tick() {
#if EXC
    if (g_fuse && --g_fuse == 0) throw Boom();
#endif
}
// F: 0 no default constructor, nothrow copy; 1 throwing copy and move, no default; 2 throwing copy and move, throwing default; 3 nothrow default
template <int K, int F> struct T {
    int v;
    explicit T(int x) noexcept : v(x) { ++g_live; }
    T(const T& o) noexcept : v(o.v) { ++g_live; }
    T& operator=(const T& o) noexcept { v = o.v; return *this; }
    ~T() { v = -1; --g_live; }
};
template <int K> struct T<K, 1> {
    int v; char pad[K % 5 + 1];
    explicit T(int x) : v(x) { ++g_live; }
    T(const T& o) : v(o.v) { tick(); ++g_live; }
    T(T&& o) : v(o.v) { tick(); ++g_live; }
    T& operator=(const T& o) { tick(); v = o.v; return *this; }
    T& operator=(T&& o) { tick(); v = o.v; return *this; }
    ~T() { v = -1; --g_live; }
};
template <int K> struct T<K, 2> {
    std::string s; int v;
    T() : s("default"), v(0) { tick(); ++g_live; }
    explicit T(int x) : s("built"), v(x) { ++g_live; }
    T(const T& o) : s(o.s), v(o.v) { tick(); ++g_live; }
    T& operator=(const T& o) { tick(); s = o.s; v = o.v; return *this; }
    ~T() { v = -1; --g_live; }
};
template <int K> struct T<K, 3> {
    int v;
    T() noexcept : v(-7) { ++g_live; }
    explicit T(int x) noexcept : v(x) { ++g_live; }
    T(const T& o) noexcept : v(o.v) { ++g_live; }
    T(T&& o) noexcept : v(o.v) { ++g_live; }
    T& operator=(const T& o) noexcept { v = o.v; return *this; }
    T& operator=(T&& o) noexcept { v = o.v; return *this; }
    ~T() { v = -1; --g_live; }
};
template <int K, int F> bool operator==(const T<K, F>& a, const T<K, F>& b) { return a.v == b.v; }
template <int K, int F> bool operator<(const T<K, F>& a, const T<K, F>& b) { return a.v < b.v; }
template <int K, int F> std::size_t hash_value(const T<K, F>& a) { return std::size_t(a.v) * 2654435761u + K; }
#ifndef BOOST_NO_IOSTREAM
template <int K, int F> std::ostream& operator<<(std::ostream& o, const T<K, F>& a) { return o << "T" << K << ':' << a.v; }
#endif

typedef unsigned long UL;
// reading any content
inline UL val(int x) { return x; } inline UL val(double x) { return UL(long(x * 4)); } inline UL val(char x) { return x; } inline UL val(const boost::blank&) { return -3; }
inline UL val(const std::string& s) { UL h = s.size(); for (size_t i = 0; i < s.size(); ++i) h = h * 31 + s[i]; return h; }
template <int K, int F> UL val(const T<K, F>& t) { return UL(K * 1000 + t.v); }
template <class U> UL val(const std::vector<U>& t) { return 70000 + UL(t.size()); }
// building any content
template <class U> struct Mk { static U make(int x) { return U(x); } };
template <> struct Mk<std::string> { static std::string make(int x) { return std::string(x % 23, char('a' + x % 26)); } };
template <> struct Mk<double> { static double make(int x) { return x / 2.0; } };
template <> struct Mk<char> { static char make(int x) { return char('A' + x % 50); } };
template <> struct Mk<boost::blank> { static boost::blank make(int) { return boost::blank(); } };
template <> struct Mk<std::vector<int> > { static std::vector<int> make(int x) { return std::vector<int>(x % 9, x); } };

struct See : boost::static_visitor<UL> {
    template <class U> UL operator()(const U& u) const { return val(u); }
};
struct Cat : boost::static_visitor<UL> {      // category and constness seen
    template <class U> UL operator()(U& u) const { return val(u) * 8 + 1; }
    template <class U> UL operator()(const U& u) const { return val(u) * 8 + 2; }
    template <class U> UL operator()(U&& u, typename std::enable_if<!std::is_lvalue_reference<U>::value && !std::is_const<U>::value>::type* = 0) const { return val(u) * 8 + 3; }
};
struct Bin : boost::static_visitor<UL> {
    template <class A, class B> UL operator()(const A& a, const B& b) const { return val(a) * 131 + val(b); }
};
struct Ter : boost::static_visitor<UL> {
    template <class A, class B, class C> UL operator()(const A& a, const B& b, const C& c) const { return (val(a) * 131 + val(b)) * 137 + val(c); }
};
struct Ref : boost::static_visitor<const void*> { template <class U> const void* operator()(const U& u) const { return &u; } };
struct Add : boost::static_visitor<> {
    int d; explicit Add(int x) : d(x) {}
    void operator()(int& x) const { x += d; } void operator()(double& x) const { x += d; } void operator()(char& x) const { x = char('a' + d % 20); } void operator()(boost::blank&) const {}
    void operator()(std::string& s) const { s += char('a' + d % 20); } template <class U> void operator()(std::vector<U>& v) const { if (!v.empty()) v.pop_back(); }
    template <int K, int F> void operator()(T<K, F>& t) const { t.v += d; }
};
static long fp(int& x) { return x; }

template <class... L> struct TL {};
template <class V, class E> struct Ops {
    static V* make(int x) { E e(Mk<E>::make(x)); return new V(e); }
    static V* makem(int x) { return new V(Mk<E>::make(x)); }
    static void assign(V& v, int x) { E e(Mk<E>::make(x)); v = e; }
    static void assignm(V& v, int x) { v = Mk<E>::make(x); }
    static const void* get(const V& v) { return boost::get<E>(&v); }
    static const void* sget(V& v) { return boost::strict_get<E>(&v); }
    static const void* rget(const V& v) { return boost::relaxed_get<E>(&v); }
    static const void* pget(V& v) { return boost::polymorphic_relaxed_get<E>(&v); }
    static long type(const V& v) { return boost::typeindex::type_index(v.type()) == boost::typeindex::type_id<E>(); }
    static long val_or_throw(const V& v) {
#if EXC
        try { return val(boost::get<E>(v)); } catch (const boost::bad_get&) { return -555; }
#else
        const E* p = boost::get<E>(&v); return p ? val(*p) : -555;
#endif
    }
};
#if EXC
#define GUARD(expr) try { expr; put("ok", 1); } catch (const Boom&) { put("boom", 1); }
#else
#define GUARD(expr) expr; put("ok", 1);
#endif

enum { BASE = 1, IO = 2, FAULT = 4 };
template <class V, class List> struct H;
template <class V, class... E> struct H<V, TL<E...> > {
    enum { N = sizeof...(E) };
    typedef V* (*MkF)(int); typedef void (*AsF)(V&, int); typedef const void* (*GcF)(const V&); typedef const void* (*GF)(V&); typedef long (*LF)(const V&);
    static void observe(V& v, const char* who, int mode) {
        const V& c = v;
        static const GcF gc[] = { &Ops<V, E>::get... }; static const GF gs[] = { &Ops<V, E>::sget... }; static const GcF gr[] = { &Ops<V, E>::rget... }; static const GF gp[] = { &Ops<V, E>::pget... };
        static const LF ty[] = { &Ops<V, E>::type... }; static const LF vt[] = { &Ops<V, E>::val_or_throw... };
        puts_("slot", who);
        put("which", c.which()); put("empty", c.empty());
        put("visit", boost::apply_visitor(See(), c)); put("cat", boost::apply_visitor(Cat(), v)); put("ccat", boost::apply_visitor(Cat(), c)); put("rcat", boost::apply_visitor(Cat(), std::move(v)));
        See s; put("delayed", boost::apply_visitor(s)(c)); put("member", c.apply_visitor(s));
        const void* a = boost::apply_visitor(Ref(), c);
        for (int i = 0; i < int(N); ++i) { put("get", (gc[i](c) == a) + 2 * (gs[i](v) == a) + 4 * (gr[i](c) == a) + 8 * (gp[i](v) == a) + 16 * !gc[i](c)); put("type", ty[i](c)); put("value", vt[i](c)); }
        put("foreign", boost::relaxed_get<std::pair<int, int> >(&v) != 0);
        put("hash", long(boost::hash<V>()(c)));
#if EXC
        if (mode & FAULT) { boost::visitor_ptr_t<int&, long> p = boost::visitor_ptr(&fp); long r = -9; try { r = boost::apply_visitor(p, v); } catch (const boost::bad_visit&) { r = -8; } put("ptr", r); }
#endif
        (void)mode;
#ifndef BOOST_NO_IOSTREAM
        if (mode & IO) { std::ostringstream o; o << c; puts_("text", o.str()); o.str(""); o.width(12); o.fill('*'); o << c; puts_("text", o.str()); }
#endif
    }
    static void compare(const V& a, const V& b) { put("cmp", (a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b)); }
    static void run(Source s, int mode) {
        g_live = 0; g_fuse = 0;
        static const MkF mk[] = { &Ops<V, E>::make... }; static const MkF mm[] = { &Ops<V, E>::makem... }; static const AsF as[] = { &Ops<V, E>::assign... }; static const AsF am[] = { &Ops<V, E>::assignm... };
        V* z[3]; int k[6]; for (int i = 0; i < 3; ++i) { k[i] = s.below(N); k[3 + i] = s.below(60); z[i] = (s.below(2) ? mk : mm)[k[i]](k[3 + i]); }
        int steps = 1 + s.below(14);
        for (int i = 0; i < steps; ++i) {
            V& l = *z[s.below(3)]; V& r = *z[s.below(3)]; int op = s.below(12), e = s.below(N), x = s.below(60), f = s.below(8);
            put("op", op); put("alternative", e);
            // moved-from values are not compared between builds: the source of a move gets a new value
            g_fuse = (mode & FAULT) && op != 9 ? f : 0;
            switch (op) {
            case 0: case 1: GUARD(as[e](l, x)) break;
            case 2: GUARD(am[e](l, x)) break;
            case 3: case 4: GUARD(l = r) break;
            case 5: { GUARD(V t(r); l = t) break; }
            case 6: { GUARD(V t(r); l = std::move(t)) break; }
            case 7: { GUARD(l.swap(r)) break; }
            case 8: { GUARD(V t(r); V u(std::move(t)); boost::swap(u, l)) break; }
            case 9: boost::apply_visitor(Add(x), l); break;
            case 10: { GUARD(std::vector<V> v; v.reserve(1); v.push_back(l); v.push_back(r); v.erase(v.begin()); l = v.back()) break; }
            case 11: { std::set<V> m; GUARD(m.insert(l); m.insert(r); m.insert(*z[0]); put("set", long(m.size())); put("first", boost::apply_visitor(See(), *m.begin()))) break; }
            }
            g_fuse = 0;
            compare(*z[0], *z[1]); compare(*z[1], *z[2]); compare(l, r);
            put("binary", boost::apply_visitor(Bin(), l, r)); Bin bv; put("delayed binary", boost::apply_visitor(bv)(l, r)); put("binary rvalue", boost::apply_visitor(Bin(), std::move(l), static_cast<const V&>(r)));
            if (s.below(4) == 0) put("ternary", boost::apply_visitor(Ter(), *z[0], *z[1], *z[2]));
            if (s.below(3) == 0) { put("sum", 0); observe(l, "left", mode); }
            put("live", g_live);
        }
        for (int i = 0; i < 3; ++i) observe(*z[i], i == 0 ? "0" : i == 1 ? "1" : "2", mode);
        for (int i = 0; i < 3; ++i) delete z[i];
        put("end", g_live);
    }
};

// long lists: few instantiations per type
template <int K> struct Q {
    int v; Q() noexcept : v(-7) { ++g_live; } explicit Q(int x) noexcept : v(x) { ++g_live; } Q(const Q& o) : v(o.v) { tick(); ++g_live; } Q& operator=(const Q& o) { tick(); v = o.v; return *this; } ~Q() { v = -1; --g_live; }
};
template <int K> struct R {       // no default constructor: heap backups
    int v; explicit R(int x) noexcept : v(x) { ++g_live; } R(const R& o) : v(o.v) { tick(); ++g_live; } R& operator=(const R& o) { tick(); v = o.v; return *this; } ~R() { v = -1; --g_live; }
};
template <int... I> struct Ints {};
template <int N, int... I> struct Upto : Upto<N - 1, N - 1, I...> {};
template <int... I> struct Upto<0, I...> { typedef Ints<I...> type; };
template <template <int> class X, class S, int N> struct Push { typedef typename boost::mpl::push_front<typename Push<X, S, N - 1>::type, X<N - 1> >::type type; };   // reversed
template <template <int> class X, class S> struct Push<X, S, 0> { typedef S type; };
struct LSee : boost::static_visitor<UL> { template <int K> UL operator()(const Q<K>& q) const { return UL(K * 1000 + q.v); } template <int K> UL operator()(const R<K>& q) const { return UL(K * 1000 + q.v); } };
template <template <int> class X, int N> struct Lg {
    typedef typename Push<X, boost::mpl::list<>::type, N>::type L;
    typedef typename boost::make_variant_over<L>::type V;
    template <int K> struct Mk1 { static V* make(int x) { X<K> e(x); return new V(e); } };
    template <class I> struct Tab; template <int... I> struct Tab<Ints<I...> > { static V* make(int k, int x) { typedef V* (*F)(int); static const F f[] = { &Mk1<I>::make... }; return f[k](x); } };
    static long look(const V& v) { put("which", v.which()); put("visit", boost::apply_visitor(LSee(), v)); put("g0", boost::get<X<0> >(&v) != 0); put("gl", boost::get<X<N - 1> >(&v) != 0); put("gm", boost::get<X<N / 2> >(&v) != 0); return 0; }
    static void run(Source s, int mode) {
        g_live = 0; g_fuse = 0;
        typedef typename Upto<N>::type I;
        int ka = s.below(2) ? s.below(N) : N - 1 - s.below(4), kb = s.below(2) ? s.below(N) : N - 1 - s.below(4);
        V* a = Tab<I>::make(ka, s.below(50)); V* b = Tab<I>::make(kb, s.below(50));
        int steps = 1 + s.below(5);
        for (int i = 0; i < steps; ++i) {
            int op = s.below(4), f = s.below(4); g_fuse = mode & FAULT ? f : 0; put("op", op);
            switch (op) {
            case 0: { GUARD(*a = *b) break; }
            case 1: { GUARD(V t(*a); *b = t) break; }
            case 2: { X<N - 1> e(s.below(50)); GUARD(*a = e) break; }
            case 3: { X<0> e(s.below(50)); GUARD(*b = e) break; }
            }
            g_fuse = 0; look(*a); look(*b); put("live", g_live);
        }
        delete a; delete b; put("end", g_live);
    }
};

// recursive
typedef boost::make_recursive_variant<int, std::string, std::vector<boost::recursive_variant_> >::type Tree;
struct Fold : boost::static_visitor<UL> { UL operator()(int x) const { return x; } UL operator()(const std::string& s) const { return 7 * val(s); } UL operator()(const std::vector<Tree>& v) const { UL r = 3; for (size_t i = 0; i < v.size(); ++i) r = r * 17 + boost::apply_visitor(*this, v[i]); return r; } };
static Tree grow(Source& s, int d) {
    switch (d > 5 ? s.below(2) : s.below(4)) { case 0: return Tree(int(s.below(9))); case 1: return Tree(Mk<std::string>::make(s.below(40)));
    default: { std::vector<Tree> v; int n = s.below(4); for (int i = 0; i < n; ++i) v.push_back(grow(s, d + 1)); return Tree(v); } }
}
static void tree(Source s, int) {
    Tree a = grow(s, 0), b = grow(s, 0); put("fold", boost::apply_visitor(Fold(), a)); put("eq", a == b); put("lt", a < b); a.swap(b); put("fold", boost::apply_visitor(Fold(), a));
    if (std::vector<Tree>* v = boost::get<std::vector<Tree> >(&a)) { v->push_back(b); Tree c(v->back()); a = c; put("fold", boost::apply_visitor(Fold(), a)); } put("eq", a == b);
}
// conversions between variants
static void conv(Source s, int) {
    boost::variant<int, std::string> n; if (s.below(2)) n = int(s.below(90)); else n = Mk<std::string>::make(s.below(40));
    boost::variant<double, std::string, int, std::vector<int> > w(n); put("w", w.which()); put("v", boost::apply_visitor(See(), w)); w = n; put("w", w.which()); w = 'c'; put("w", w.which()); w = 2.5f; put("w", w.which()); put("v", boost::apply_visitor(See(), w));
    w = boost::variant<int, std::string>(n); put("w", w.which()); w = "text"; put("w", w.which()); put("v", boost::apply_visitor(See(), w));
}
struct PB { int b; PB() : b(1) {} virtual ~PB() {} }; struct PB2 { int c; PB2() : c(2) {} virtual ~PB2() {} }; struct PD : PB, PB2 { int d; PD() : d(3) {} }; struct PE : PB { int e; PE() : e(4) {} };
static void poly(Source s, int) {
    boost::variant<PD, PE, PB> v; switch (s.below(3)) { case 0: v = PD(); break; case 1: v = PE(); break; default: v = PB(); }
    put("b", boost::polymorphic_get<PB>(&v) ? boost::polymorphic_get<PB>(&v)->b : 0); put("b2", boost::polymorphic_get<PB2>(&v) ? boost::polymorphic_get<PB2>(&v)->c : 0); put("e", boost::polymorphic_get<PE>(&v) ? boost::polymorphic_get<PE>(&v)->e : 0);
}

typedef void (*Fn)(Source, int);
#define LIST(name, ...) typedef boost::variant<__VA_ARGS__> V##name; typedef TL<__VA_ARGS__> L##name;
LIST(0, int, std::string, double)
LIST(1, T<0, 1>, T<1, 1>, T<2, 0>)
LIST(2, T<0, 1>, boost::blank, T<1, 2>, T<2, 3>)
LIST(3, T<0, 2>, T<1, 1>, int, T<3, 3>, std::string)
LIST(4, T<0, 0>, T<1, 3>, T<2, 1>, T<3, 0>, T<4, 1>, T<5, 2>, T<6, 1>, T<7, 0>)
typedef boost::variant<boost::recursive_wrapper<T<0, 1> >, T<1, 1>, boost::recursive_wrapper<T<2, 3> >, std::string> V5; typedef TL<T<0, 1>, T<1, 1>, T<2, 3>, std::string> L5;
static const Fn fns[] = {
#if PART == 0
    &H<V0, L0>::run, &H<V1, L1>::run, &H<V2, L2>::run, &tree, &conv, &poly
#elif PART == 1
    &H<V3, L3>::run, &H<V5, L5>::run
#elif PART == 2
    &H<V4, L4>::run
#elif PART == 3
    &Lg<Q, 130>::run, &Lg<R, 23>::run
#elif PART == 4
    &Lg<R, 129>::run
#elif PART == 5
    &Lg<R, 127>::run, &Lg<R, 128>::run
#else
    &Lg<Q, 258>::run
#endif
};
static uint64_t rnd(uint64_t& x) { x += 0x9e3779b97f4a7c15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void one(const std::vector<uint8_t>& b) {
    Source s = { b.data(), b.size(), 0 }; Fn f = fns[s.below(sizeof fns / sizeof *fns)];
    uint64_t d[3] = { 0, 0, 0 };
    for (int m = 0; m < 3; ++m) {
        if (m == 2 && !EXC) continue;
#ifdef BOOST_NO_IOSTREAM
        if (m == 1) continue;
#endif
        g_h = 14695981039346656037ull; if (g_trace) std::printf(" %s\n", m == 0 ? "base" : m == 1 ? "io" : "fault");
        f(s, m == 0 ? BASE : m == 1 ? IO : FAULT); d[m] = g_h ? g_h : 1;
    }
    std::printf("%016llx %016llx %016llx\n", (unsigned long long)d[0], (unsigned long long)d[1], (unsigned long long)d[2]);
}
int main(int argc, char** argv) {
    if (argc > 2 && (!std::strcmp(argv[1], "hex") || !std::strcmp(argv[1], "trace"))) {
        g_trace = argv[1][0] == 't'; std::vector<uint8_t> b; std::string h(argv[2]);
        for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(uint8_t(std::strtoul(h.substr(i, 2).c_str(), 0, 16)));
        one(b); return 0;
    }
    uint64_t seed = std::strtoull(argv[1], 0, 10); long n = std::atol(argv[2]); bool show = argc > 3;
    for (long c = 0; c < n; ++c) {
        uint64_t x = seed * 1000003 + c; std::vector<uint8_t> b(4 + rnd(x) % 120); for (size_t i = 0; i < b.size(); ++i) b[i] = uint8_t(rnd(x));
        if (show && c == std::atol(argv[3])) { for (size_t i = 0; i < b.size(); ++i) std::printf("%02x", b[i]); std::printf("\n"); return 0; }
        if (!show) one(b);
    }
}
