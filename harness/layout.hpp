// C19: support for generated lists of types of mixed size and alignment.
#ifndef VERIF_LAYOUT_HPP
#define VERIF_LAYOUT_HPP
#include <boost/variant.hpp>
#include <boost/variant/recursive_variant.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/blank.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <type_traits>
static long g_allocs; static bool g_count;
void* operator new(std::size_t n) { if (g_count) ++g_allocs; void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
namespace cv {
struct Rep { long evals, cases, decided, skipped; };
inline Rep& rep() { static Rep r = { 0, 0, 0, 0 }; return r; }
[[noreturn]] inline void bad(const char* id, const std::string& m) { std::printf("FAIL %s %s\n", id, m.c_str()); std::fflush(stdout); std::_Exit(1); }
// Size bytes at alignment Align; F 1: copying may throw (never does here), 0: nothrow, 2: nothrow default constructor as well
template <int K, int Size, int Align, int F> struct alignas(Align) L {
    unsigned char b[Size];
    explicit L(int x) noexcept { std::memset(b, x, Size); }
    L(const L& o) noexcept(F != 1) { std::memcpy(b, o.b, Size); }
    L& operator=(const L& o) noexcept(F != 1) { std::memmove(b, o.b, Size); return *this; }
};
template <int K, int Size, int Align> struct alignas(Align) L<K, Size, Align, 2> {
    unsigned char b[Size];
    L() noexcept { std::memset(b, 0, Size); }
    explicit L(int x) noexcept { std::memset(b, x, Size); }
    L(const L& o) noexcept { std::memcpy(b, o.b, Size); }
    L& operator=(const L& o) noexcept { std::memmove(b, o.b, Size); return *this; }
};
template <int K> struct Empty { explicit Empty(int) {} };
template <class T> struct M { static T make(int x) { return T(x); } static void fill(T& t, int x) { std::memset(&t, x, sizeof t); } static bool is(const T& t, int x) { const unsigned char* p = (const unsigned char*)&t; for (size_t i = 0; i < sizeof t; ++i) if (p[i] != (unsigned char)x) return false; return true; } };
template <int K, int S, int A, int F> struct M<L<K, S, A, F> > { typedef L<K, S, A, F> T; static T make(int x) { return T(x); } static void fill(T& t, int x) { std::memset(t.b, x, S); } static bool is(const T& t, int x) { for (int i = 0; i < S; ++i) if (t.b[i] != (unsigned char)x) return false; return true; } };
template <int K> struct M<Empty<K> > { static Empty<K> make(int x) { return Empty<K>(x); } static void fill(Empty<K>&, int) {} static bool is(const Empty<K>&, int) { return true; } };
// alternatives of recursive variants: a pointer to the variant stays in place, a type made from it is wrapped
template <class T> struct M<T*> { static T* make(int x) { return reinterpret_cast<T*>(static_cast<std::uintptr_t>(x) * 256); } static void fill(T*& t, int x) { t = make(x); } static bool is(T* const& t, int x) { return t == make(x); } };
template <class X> struct Cell { unsigned char b[3]; explicit Cell(int x) noexcept { std::memset(b, x, 3); } };
template <class X> struct M<Cell<X> > { typedef Cell<X> T; static T make(int x) { return T(x); } static void fill(T& t, int x) { std::memset(t.b, x, 3); } static bool is(const T& t, int x) { return t.b[0] == x && t.b[1] == x && t.b[2] == x; } };
template <class T> struct N { static T make(int x) { return T(x); } static void fill(T& t, int x) { t = T(x); } static bool is(const T& t, int x) { return t == T(x); } };
template <> struct M<char> : N<char> {}; template <> struct M<short> : N<short> {}; template <> struct M<int> : N<int> {}; template <> struct M<long> : N<long> {}; template <> struct M<double> : N<double> {}; template <> struct M<long double> : N<long double> {}; template <> struct M<float> : N<float> {}; template <> struct M<bool> { static bool make(int x) { return x & 1; } static void fill(bool& t, int x) { t = x & 1; } static bool is(bool t, int x) { return t == bool(x & 1); } };
template <class E> struct PubOf { typedef E type; enum { w = 0 }; };
template <class E> struct PubOf<boost::recursive_wrapper<E> > { typedef E type; enum { w = 1 }; };
struct At : boost::static_visitor<const void*> { template <class U> const void* operator()(const U& u) const { return &u; } };
struct Al : boost::static_visitor<std::size_t> { template <class U> std::size_t operator()(const U&) const { return alignof(U); } };
struct Sz : boost::static_visitor<std::size_t> { template <class U> std::size_t operator()(const U&) const { return sizeof(U); } };
struct Is : boost::static_visitor<bool> { int x; explicit Is(int v) : x(v) {} template <class U> bool operator()(const U& u) const { return M<U>::is(u, x); } };
struct Fill : boost::static_visitor<> { int x; explicit Fill(int v) : x(v) {} template <class U> void operator()(U& u) const { M<U>::fill(u, x); } };

template <class V, class... E> struct Layout {
    enum { Z = sizeof...(E) };
    template <class T> struct Op { static void make(void* p, int x) { T t(M<T>::make(x)); ::new (p) V(t); } static void assign(V& v, int x) { T t(M<T>::make(x)); v = t; } };
    static void make(int k, void* p, int x) { typedef void (*F)(void*, int); static const F f[] = { &Op<typename PubOf<E>::type>::make... }; f[k](p, x); }
    static void assign(int k, V& v, int x) { typedef void (*F)(V&, int); static const F f[] = { &Op<typename PubOf<E>::type>::assign... }; f[k](v, x); }
    static void run(const char* id, unsigned long long seed, int rounds) {
        ++rep().cases; ++rep().decided;
        static const std::size_t al[] = { alignof(E)... }, sz[] = { sizeof(E)... }; static const int wr[] = { PubOf<E>::w... };
        for (int i = 0; i < Z; ++i) {
            if (alignof(V) % al[i]) bad(id, "the variant's alignment does not suffice for alternative " + std::to_string(i));
            if (sizeof(V) < sz[i]) bad(id, "the variant is smaller than alternative " + std::to_string(i));
        }
        // an array of three with guard bytes around it, at an address aligned for the variant and for nothing more
        std::size_t a = alignof(V), n = 3 * sizeof(V);
        unsigned char* raw = (unsigned char*)std::malloc(n + 4 * a + 64), *base = (unsigned char*)((reinterpret_cast<std::uintptr_t>(raw) / (2 * a) + 1) * (2 * a) + a);
        unsigned long long r = seed * 6364136223846793005ull + 1442695040888963407ull;
        bool heapless = true; for (int i = 0; i < Z; ++i) heapless = heapless && !wr[i];
        for (int q = 0; q < rounds; ++q) {
            std::memset(raw, 0xA5, n + 4 * a + 64);
            V* v = (V*)base; int k[3], x[3];
            g_allocs = 0; g_count = true;
            for (int i = 0; i < 3; ++i) { r = r * 6364136223846793005ull + 1; k[i] = int((r >> 33) % Z); x[i] = int((r >> 40) % 100); make(k[i], v + i, x[i]); }
            for (int step = 0; step < 12; ++step) {
                r = r * 6364136223846793005ull + 1442695040888963407ull; int i = int((r >> 30) % 3), j = int((r >> 36) % 3), e = int((r >> 42) % Z), y = int((r >> 50) % 100);
                switch ((r >> 56) % 5) {
                case 0: assign(e, v[i], y); k[i] = e; x[i] = y; break;
                case 1: v[i] = v[j]; k[i] = k[j]; x[i] = x[j]; break;
                case 2: boost::apply_visitor(Fill(y), v[i]); x[i] = y; break;
                case 3: v[i].swap(v[j]); std::swap(k[i], k[j]); std::swap(x[i], x[j]); break;
                default: { V t(v[j]); v[i] = std::move(t); k[i] = k[j]; x[i] = x[j]; break; }
                }
                for (int s = 0; s < 3; ++s) {
                    ++rep().evals; const V& c = v[s];
                    if (c.which() != k[s]) bad(id, "which() is " + std::to_string(c.which()) + " instead of " + std::to_string(k[s]));
                    if (!boost::apply_visitor(Is(x[s]), c)) bad(id, "the content of alternative " + std::to_string(k[s]) + " was overwritten");
                    const char* p = (const char*)boost::apply_visitor(At(), c);
                    if (reinterpret_cast<std::uintptr_t>(p) % boost::apply_visitor(Al(), c)) bad(id, "the content of alternative " + std::to_string(k[s]) + " is misaligned");
                    bool in = p >= (const char*)(v + s) && p + boost::apply_visitor(Sz(), c) <= (const char*)(v + s + 1);
                    if (in == bool(wr[k[s]])) bad(id, "the content of alternative " + std::to_string(k[s]) + (in ? " lies inside" : " lies outside") + " the variant");
                }
            }
            for (int i = 0; i < 3; ++i) v[i].~V();
            g_count = false;
            for (unsigned char* p = raw; p < raw + n + 4 * a + 64; ++p) if ((p < base || p >= base + n) && *p != 0xA5) bad(id, "a byte outside the variants was written");
            // throwing copies without a fallback type are backed up on the heap; otherwise nothing is allocated
            static const bool nt[] = { (std::is_nothrow_copy_constructible<E>::value)... }; static const bool nd[] = { (std::is_nothrow_default_constructible<E>::value && !PubOf<E>::w)... };
            bool all = true, any = false; for (int i = 0; i < Z; ++i) { all = all && nt[i]; any = any || nd[i]; }
            if (heapless && (all || any) && g_allocs) bad(id, "the heap was used");
        }
        std::free(raw);
    }
};
}
#endif
