// C21: const operations on shared variants from several threads, mutating
// operations on private ones.  Contents have no global state, so every data
// race ThreadSanitizer sees, and every difference from the sequential run, is
// the library's.
#include <boost/variant.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

struct Source {
    const uint8_t* p; size_t n, i;
    uint32_t below(uint32_t k) { if (k <= 1) return 0; uint8_t b = i < n ? p[i] : 0; ++i; return b % k; }
};
typedef unsigned long UL;
static bool g_trace; static long g_heap, g_threads;
[[noreturn]] static void fail(const std::string& m) { std::printf("FAIL %s\n", m.c_str()); std::fflush(stdout); std::_Exit(1); }
static thread_local int t_fuse;
struct Boom {};
static void tick() { if (t_fuse && --t_fuse == 0) throw Boom(); }
struct Base { virtual ~Base() {} int b; Base() : b(1) {} };
// F: 0 plain, 1 throwing copy and move without default, 2 nothrow default, 3 derived from Base
template <int K, int F> struct T { int v; explicit T(int x) : v(x) {} };
template <int K> struct T<K, 1> { int v; std::string s; explicit T(int x) : v(x), s("throwing") {} T(const T& o) : v((tick(), o.v)), s(o.s) {} T& operator=(const T& o) { tick(); v = o.v; s = o.s; return *this; } };
template <int K> struct T<K, 2> { int v; T() noexcept : v(-7) {} explicit T(int x) noexcept : v(x) {} T(const T& o) noexcept : v(o.v) {} T& operator=(const T& o) noexcept { v = o.v; return *this; } };
template <int K> struct T<K, 3> : Base { int v; explicit T(int x) : v(x) {} };
template <int K, int F> bool operator==(const T<K, F>& a, const T<K, F>& b) { return a.v == b.v; }
template <int K, int F> bool operator<(const T<K, F>& a, const T<K, F>& b) { return a.v < b.v; }
template <int K, int F> std::size_t hash_value(const T<K, F>& a) { return std::size_t(a.v) * 31 + K; }
template <int K, int F> std::ostream& operator<<(std::ostream& o, const T<K, F>& a) { return o << "T" << K << ':' << a.v; }
inline UL val(int x) { return UL(x); } inline UL val(double x) { return UL(long(x * 4)); }
inline UL val(const std::string& s) { UL h = s.size(); for (size_t i = 0; i < s.size(); ++i) h = h * 31 + UL(s[i]); return h; }
template <int K, int F> UL val(const T<K, F>& t) { return UL(K * 1000 + t.v); }
template <class U> struct Mk { static U make(int x) { return U(x); } };
template <> struct Mk<std::string> { static std::string make(int x) { return std::string(x % 23, char('a' + x % 26)); } };
template <> struct Mk<double> { static double make(int x) { return x / 2.0; } };

struct See : boost::static_visitor<UL> { template <class U> UL operator()(const U& u) const { return val(u); } };
struct SeeN { typedef UL result_type; UL base; template <class U> UL operator()(const U& u) const { return val(u) + base; } };
struct Bin : boost::static_visitor<UL> { template <class A, class B> UL operator()(const A& a, const B& b) const { return val(a) * 131 + val(b); } };
struct Ter : boost::static_visitor<UL> { template <class A, class B, class C> UL operator()(const A& a, const B& b, const C& c) const { return (val(a) * 131 + val(b)) * 137 + val(c); } };
struct Addr : boost::static_visitor<const void*> { template <class U> const void* operator()(const U& u) const { return &u; } };
struct Add : boost::static_visitor<> { int d; explicit Add(int x) : d(x) {} void operator()(int& x) const { x = (x + d) % 1000; } void operator()(double& x) const { x += d; } void operator()(std::string& s) const { s += 'x'; if (s.size() > 40) s.clear(); } template <int K, int F> void operator()(T<K, F>& t) const { t.v = (t.v + d) % 1000; } };
static UL fp(const std::string& s) { return val(s) + 1; }

template <class... L> struct TL {};
template <class V, class E> struct Ops {
    static V* make(int x) { E e(Mk<E>::make(x)); return new V(e); }
    static void assign(V& v, int x) { E e(Mk<E>::make(x)); v = e; }
    static void assignm(V& v, int x) { v = Mk<E>::make(x); }
    static UL get(const V& v) { UL r = 0; if (const E* p = boost::get<E>(&v)) r += val(*p); if (const E* p = boost::relaxed_get<E>(&v)) r += 3 * val(*p); try { r += 5 * val(boost::strict_get<E>(v)); } catch (const boost::bad_get&) { r += 7777; } r += v.type() == typeid(E) ? 11 : 0; return r; }
};
template <class V> struct Widen; template <class... L> struct Widen<boost::variant<L...> > { typedef boost::variant<std::vector<int>, L...> type; };
template <class V, class List> struct H;
template <class V, class... E> struct H<V, TL<E...> > {
    enum { N = sizeof...(E), S = 4 };
    typedef typename Widen<V>::type Wide;
    struct WSee : boost::static_visitor<UL> { template <class U> UL operator()(const U& u) const { return val(u); } UL operator()(const std::vector<int>&) const { return 9; } };
    static void assign(V& v, int e, int x, bool m) { typedef void (*F)(V&, int); static const F f[] = { &Ops<V, E>::assign... }; static const F g[] = { &Ops<V, E>::assignm... }; (m ? g : f)[e](v, x); }
    static V* make(int e, int x) { typedef V* (*F)(int); static const F f[] = { &Ops<V, E>::make... }; return f[e](x); }
    static UL get(const V& v, int e) { typedef UL (*F)(const V&); static const F f[] = { &Ops<V, E>::get... }; return f[e](v); }
    struct Step { int op, i, j, k, e, x, f; };
    // one step of a thread: reads shared variants (const), may change its own one
    static UL step(const Step& s, const V* const* z, V& mine) {
        const V& a = *z[s.i]; const V& b = *z[s.j];
        switch (s.op) {
        case 0: return UL(a.which()) * 2 + a.empty();
        case 1: return get(a, s.e);
        case 2: return boost::apply_visitor(See(), a);
        case 3: { See v; return boost::apply_visitor(v)(a) + a.apply_visitor(v); }
        case 4: return boost::apply_visitor(Bin(), a, b);
        case 5: return UL((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b));
        case 6: return UL(boost::hash<V>()(a)) + 3 * UL(std::hash<V>()(a)) + 5 * UL(hash_value(a));
        case 7: { std::ostringstream o; o.width(s.x % 20); o << a << '/' << b; return val(o.str()); }
        case 8: { V c(a); return boost::apply_visitor(See(), c) + UL(c == a); }
        case 9: { Wide w(a); return boost::apply_visitor(WSee(), w) + UL(w.which()); }
        case 10: { boost::variant<const std::string*> q((const std::string*)0); const Base* p = boost::polymorphic_relaxed_get<const Base>(&a); return p ? UL(p->b) : 0; }
        case 11: { UL r; try { r = boost::apply_visitor(boost::visitor_ptr(&fp), a); } catch (const boost::bad_visit&) { r = 3; } return r; }
        case 12: return boost::apply_visitor(Ter(), a, b, *z[s.k]);
        case 13: { SeeN v = { UL(s.x) }; const SeeN& c = v; return boost::apply_visitor(c, a) + boost::apply_visitor(v, b); }
        case 14: { std::vector<V> v(3, a); v.push_back(b); v.erase(v.begin()); return boost::apply_visitor(See(), v.back()) + v.size(); }
        // changes to the thread's own variant
        case 15: mine = a; break;
        case 16: assign(mine, s.e, s.x, s.x & 1); break;
        case 17: t_fuse = s.f; try { if (s.x & 1) mine = a; else assign(mine, s.e, s.x, false); } catch (const Boom&) {} t_fuse = 0; break;
        case 18: { V c(b); t_fuse = s.f; try { c.swap(mine); } catch (const Boom&) {} t_fuse = 0; return boost::apply_visitor(Bin(), c, mine); }
        case 19: boost::apply_visitor(Add(s.x), mine); break;
        case 20: { V c(std::move(mine)); mine = a; mine = std::move(c); break; }
        }
        return boost::apply_visitor(See(), static_cast<const V&>(mine)) * 3 + UL(mine.which());
    }
    enum { NOP = 21 };
    static void run(Source s) {
        t_fuse = 0;
        V* z[S]; int heap = 0;
        for (int i = 0; i < S; ++i) {
            z[i] = make(s.below(N), s.below(60));
            for (int n = s.below(4); n > 0; --n) { t_fuse = s.below(4); try { assign(*z[i], s.below(N), s.below(60), s.below(2)); } catch (const Boom&) {} t_fuse = 0; }
            const char* at = (const char*)boost::apply_visitor(Addr(), *z[i]); if (at < (const char*)z[i] || at >= (const char*)(z[i] + 1)) ++heap;
        }
        const int nt = 2 + s.below(3), len = 1 + s.below(20), reps = 1 + s.below(6);
        std::vector<std::vector<Step> > plan(nt);
        for (int t = 0; t < nt; ++t) for (int i = 0; i < len; ++i) { Step q; q.op = s.below(NOP); q.i = s.below(S); q.j = s.below(S); q.k = s.below(S); q.e = s.below(N); q.x = s.below(60); q.f = s.below(5); plan[t].push_back(q); if (g_trace) std::printf("  thread %d: op %d on %d,%d,%d alternative %d value %d fuse %d\n", t, q.op, q.i, q.j, q.k, q.e, q.x, q.f); }
        // sequential run, and purity: no const operation changes a byte of any shared variant
        std::vector<std::string> before(S); const void* where[S]; UL seen[S];
        for (int i = 0; i < S; ++i) { before[i].assign((const char*)z[i], sizeof(V)); const V& c = *z[i]; where[i] = boost::apply_visitor(Addr(), c); seen[i] = boost::apply_visitor(See(), c); }
        std::vector<std::vector<UL> > want(nt), have(nt);
        for (int t = 0; t < nt; ++t) {
            std::unique_ptr<V> mine(make(t % N, t));
            for (int r = 0; r < reps; ++r) for (int i = 0; i < len; ++i) {
                want[t].push_back(step(plan[t][i], z, *mine));
                for (int k = 0; k < S; ++k) if (std::memcmp(before[k].data(), (const char*)z[k], sizeof(V)) != 0) { std::ostringstream o; o << "const operation " << plan[t][i].op << " changed the bytes of a variant holding alternative " << z[k]->which(); fail(o.str()); }
            }
        }
        auto check = [&](const char* when) {
            for (int k = 0; k < S; ++k) {
                if (std::memcmp(before[k].data(), (const char*)z[k], sizeof(V)) != 0) fail(std::string("the bytes of a shared variant changed ") + when);
                const V& c = *z[k]; if (boost::apply_visitor(Addr(), c) != where[k] || boost::apply_visitor(See(), c) != seen[k]) fail(std::string("the content of a shared variant changed ") + when);
            }
        };
        check("during const operations");
        std::atomic<int> ready(0);
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t) {
            have[t].reserve(reps * len);
            th.push_back(std::thread([&, t] {
                std::unique_ptr<V> mine(make(t % N, t)); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) {}
                for (int r = 0; r < reps; ++r) for (int i = 0; i < len; ++i) have[t].push_back(step(plan[t][i], z, *mine));
            }));
        }
        for (auto& x : th) x.join();
        for (int t = 0; t < nt; ++t) for (size_t i = 0; i < want[t].size(); ++i) if (want[t][i] != have[t][i]) { std::ostringstream o; o << "operation " << plan[t][i % len].op << " gave another result than in the sequential run"; fail(o.str()); }
        check("during concurrent const operations");
        for (int i = 0; i < S; ++i) delete z[i];
        static const char* const lab[] = { "no heap-held content", "heap-held content" };
        if (g_trace) std::printf("  %s\n", lab[heap > 0]);
        g_heap += heap > 0; g_threads += nt;
    }
};
typedef void (*Fn)(Source);
#define LIST(n, ...) typedef H<boost::variant<__VA_ARGS__>, TL<__VA_ARGS__> > H##n;
LIST(0, int, std::string, double)
LIST(1, T<0, 1>, T<1, 1>, T<2, 0>, std::string)
LIST(2, T<0, 1>, T<1, 2>, T<2, 3>)
typedef H<boost::variant<boost::recursive_wrapper<T<0, 1> >, T<1, 1>, T<2, 3>, boost::recursive_wrapper<std::string> >, TL<T<0, 1>, T<1, 1>, T<2, 3>, std::string> > H3;
static const Fn fns[] = { &H0::run, &H1::run, &H2::run, &H3::run, &H1::run, &H3::run };
static uint64_t rnd(uint64_t& x) { x += 0x9e3779b97f4a7c15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void one(const std::vector<uint8_t>& b) { Source s = { b.data(), b.size(), 0 }; Fn f = fns[s.below(sizeof fns / sizeof *fns)]; f(s); }
int main(int argc, char** argv) {
    if (argc > 2 && (!std::strcmp(argv[1], "hex") || !std::strcmp(argv[1], "trace"))) {
        g_trace = argv[1][0] == 't'; std::vector<uint8_t> b; std::string h(argv[2]);
        for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(uint8_t(std::strtoul(h.substr(i, 2).c_str(), 0, 16)));
        for (int r = 0; r < (g_trace ? 1 : 10); ++r) one(b);
        std::printf("PASS\n"); return 0;
    }
    uint64_t seed = std::strtoull(argv[1], 0, 10); long n = std::atol(argv[2]);
    for (long c = 0; c < n; ++c) {
        uint64_t x = seed * 1000003 + c; std::vector<uint8_t> b(8 + rnd(x) % 200); for (size_t i = 0; i < b.size(); ++i) b[i] = uint8_t(rnd(x));
        std::string h; for (size_t i = 0; i < b.size(); ++i) { char t[3]; std::snprintf(t, 3, "%02x", b[i]); h += t; }
        // the running case is always known from a file, so that a crash or a race report can be attributed
        std::FILE* f = std::fopen(argv[3], "w"); if (f) { std::fputs(h.c_str(), f); std::fclose(f); }
        one(b);
    }
    std::printf("SUMMARY %ld %ld %ld\n", n, g_heap, g_threads);
}
