// Content types whose comparison and hash operations are logged.
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include "state.hpp"
#include <limits>
#include <boost/functional/hash.hpp>
namespace ops {
enum { K_CMP = 256, K_HASH = 512 };
struct Log { int n; char op; const void* a; const void* b; };
inline Log& lg() { static Log l; return l; }
inline void note(char op, const void* a, const void* b) { ++lg().n; lg().op = op; lg().a = a; lg().b = b; }
// == is finer than <: equivalence is not equality
template <int Id, unsigned A = 0> struct L : tk::CM<Id, A> {
    typedef tk::CM<Id, A> base;
    L() noexcept((A & tk::NTDEF) != 0) {}
    L(tk::Raw r, int v) noexcept : base(r, v) {}
    friend bool operator==(const L& x, const L& y) { note('=', &x, &y); tk::point(K_CMP); return x.value() == y.value(); }
    friend bool operator<(const L& x, const L& y) { note('<', &x, &y); tk::point(K_CMP); return (x.value() >> 2) < (y.value() >> 2); }
    friend std::size_t hash_value(const L& x) { note('h', &x, 0); tk::point(K_HASH); return std::size_t(x.value() >> 1) * 2654435761u + 1; }
};
// unordered values, like a NaN
struct Nan { double d; Nan() : d(0) {} bool operator==(const Nan& o) const { return d == o.d; } bool operator<(const Nan& o) const { return d < o.d; }
    friend std::size_t hash_value(const Nan& n) { return n.d == n.d ? std::size_t(n.d * 4 + 1000) : 77; } };
struct NestI { typedef boost::variant<int, char> V; };
typedef boost::variant<int, char> Inner;

template <class T> struct Model {
    static bool eq(int a, int b) { return a == b; }
    static bool lt(int a, int b) { return a < b; }
    static int logged() { return 0; }
    static bool same_hash(int a, int b) { return a == b; }
};
template <int Id, unsigned A> struct Model<L<Id, A> > {
    static bool eq(int a, int b) { return a == b; }
    static bool lt(int a, int b) { return (a >> 2) < (b >> 2); }
    static int logged() { return 1; }
    static bool same_hash(int a, int b) { return (a >> 1) == (b >> 1); }
};
template <> struct Model<Nan> {
    static bool nan(int v) { return v % 5 == 3; }
    static bool eq(int a, int b) { return !nan(a) && !nan(b) && a == b; }
    static bool lt(int a, int b) { return !nan(a) && !nan(b) && a < b; }
    static int logged() { return 0; }
    static bool same_hash(int a, int b) { return a == b || (nan(a) && nan(b)); }
};
}
template <int Id, unsigned A> struct VT<ops::L<Id, A> > : VTTracked<ops::L<Id, A>, Id, A, true, true> {};
template <> struct VT<ops::Nan> : VTPod<ops::Nan> {
    static void construct(void* p, int v) { new (p) ops::Nan(); set(*static_cast<ops::Nan*>(p), v); }
    static int canon(int v) { return ops::Model<ops::Nan>::nan(v) ? nanval() : v; }
    static int read(const ops::Nan& t) { return t.d == t.d ? (int)t.d : nanval(); }
    static int nanval() { return 3; }
    static void set(ops::Nan& t, int v) { t.d = ops::Model<ops::Nan>::nan(v) ? std::numeric_limits<double>::quiet_NaN() : v; }
    static int defval() { return 0; }
};
template <> struct VT<ops::Inner> : VTPod<ops::Inner> {      // odd values in the int, even ones in the char
    static void construct(void* p, int v) { new (p) ops::Inner(); set(*static_cast<ops::Inner*>(p), v); }
    static int canon(int v) { return ((v % 100) + 100) % 100; }
    static int read(const ops::Inner& t) { return t.which() == 0 ? boost::get<int>(t) : boost::get<char>(t); }
    static void set(ops::Inner& t, int v) { v = canon(v); if (v & 1) t = int(v); else t = char(v); }
    static int defval() { return 0; }
};
template <> struct ops::Model<ops::Inner> {
    static bool eq(int a, int b) { return a == b; }
    static bool lt(int a, int b) { if ((a & 1) != (b & 1)) return (a & 1) != 0; return a < b; }
    static int logged() { return 0; }
    static bool same_hash(int a, int b) { return a == b; }
};
template <> struct ops::Model<std::string> {
    static bool eq(int a, int b) { return a == b; }
    static bool lt(int a, int b) { return VT<std::string>::str(a) < VT<std::string>::str(b); }
    static int logged() { return 0; }
    static bool same_hash(int a, int b) { return a == b; }
};
template <> struct ops::Model<std::vector<int> > {
    static std::vector<int> mk(int v) { return std::vector<int>(size_t(1 + (v & 3)), v); }
    static bool eq(int a, int b) { return a == b; }
    static bool lt(int a, int b) { return mk(a) < mk(b); }
    static int logged() { return 0; }
    static bool same_hash(int a, int b) { return a == b; }
};
namespace ops {
template <class... E> struct Models {
    typedef bool (*F)(int, int);
    static bool eq(int k, int a, int b) { static const F f[] = { &Model<typename Pub<E>::type>::eq... }; return f[k](a, b); }
    static bool lt(int k, int a, int b) { static const F f[] = { &Model<typename Pub<E>::type>::lt... }; return f[k](a, b); }
    static bool same_hash(int k, int a, int b) { static const F f[] = { &Model<typename Pub<E>::type>::same_hash... }; return f[k](a, b); }
    static int logged(int k) { typedef int (*G)(); static const G f[] = { &Model<typename Pub<E>::type>::logged... }; return f[k](); }
};
}
#endif
