// C25, generated programs: the bounded types of make_recursive_variant are the
// written type expressions with recursive_variant_ replaced by the variant.
// The expected types are written out by the generator, independently.
#ifndef VERIF_SUBST_HPP
#define VERIF_SUBST_HPP
#include <boost/variant.hpp>
#include <boost/variant/recursive_variant.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <typeinfo>
#include <vector>
namespace cv {
struct Rep { long evals, cases, decided, skipped; };
inline Rep& rep() { static Rep r; return r; }
[[noreturn]] inline void failed(const char* id, const std::string& m) { std::printf("FAIL %s %s\n", id, m.c_str()); std::fflush(stdout); std::exit(1); }
// transparent spellings, so that generated expressions need no declarator syntax
typedef boost::recursive_variant_ R;
template <class T> using Ptr = T*; template <class T> using Ref = T&; template <class T> using Const = const T; template <class T> using Volatile = volatile T; template <class T> using ConstVolatile = const volatile T;
template <class Ret, class... A> using Fn = Ret (*)(A...);
// user templates
template <class T> struct Box { T t; };
template <class T, class U = char> struct Two { T t; U u; };
template <class A, class B, class C, class D, class E> struct Five { A a; B b; C c; D d; E e; };
template <class... T> struct Pack {};
struct Leaf { int v; };
template <class V> struct Self { typedef V type; };

template <class T, class E> struct Same1 { enum { value = std::is_same<T, E>::value }; };
// the bounded types of V, in order
template <class V, int I, class... E> struct SameTypes { static int first() { return -1; } };
template <class V, int I, class H, class... E> struct SameTypes<V, I, H, E...> {
    static int first() { return Same1<typename boost::mpl::at_c<typename V::types, I>::type, H>::value ? SameTypes<V, I + 1, E...>::first() : I; } };
template <class V, class... E> void types_are(const char* id) {
    if (boost::mpl::size<typename V::types>::value != (long)sizeof...(E)) failed(id, "a different number of bounded types");
    int i = SameTypes<V, 0, E...>::first();
    if (i >= 0) { char b[200]; std::snprintf(b, sizeof b, "bounded type %d is not the written type with the placeholder replaced by the variant", i); failed(id, b); }
    ++rep().evals;
}
// values
template <class T> struct Mk;
template <class T> struct Mk<T*> { static T* go(int s) { return reinterpret_cast<T*>(static_cast<uintptr_t>(64 + 64 * (s & 63))); } static bool eq(T* a, int s) { return a == go(s); } };
template <> struct Mk<int> { static int go(int s) { return s; } static bool eq(int a, int s) { return a == s; } };
template <> struct Mk<char> { static char go(int s) { return char(s & 63); } static bool eq(char a, int s) { return a == char(s & 63); } };
template <> struct Mk<double> { static double go(int s) { return s + 0.5; } static bool eq(double a, int s) { return a == s + 0.5; } };
template <> struct Mk<std::string> { static std::string go(int s) { return std::string(3 + (s & 31), char('a' + (s & 7))); } static bool eq(const std::string& a, int s) { return a == go(s); } };
template <> struct Mk<Leaf> { static Leaf go(int s) { Leaf l = { s }; return l; } static bool eq(const Leaf& a, int s) { return a.v == s; } };
template <class T> struct Mk<Box<T> > { static Box<T> go(int s) { Box<T> b = { Mk<T>::go(s + 1) }; return b; } static bool eq(const Box<T>& b, int s) { return Mk<T>::eq(b.t, s + 1); } };
template <class T, class U> struct Mk<Two<T, U> > { static Two<T, U> go(int s) { Two<T, U> b = { Mk<T>::go(s + 1), Mk<U>::go(s + 2) }; return b; } static bool eq(const Two<T, U>& b, int s) { return Mk<T>::eq(b.t, s + 1) && Mk<U>::eq(b.u, s + 2); } };
template <class A, class B, class C, class D, class E> struct Mk<Five<A, B, C, D, E> > { typedef Five<A, B, C, D, E> F; static F go(int s) { F b = { Mk<A>::go(s + 1), Mk<B>::go(s + 2), Mk<C>::go(s + 3), Mk<D>::go(s + 4), Mk<E>::go(s + 5) }; return b; }
    static bool eq(const F& b, int s) { return Mk<A>::eq(b.a, s + 1) && Mk<B>::eq(b.b, s + 2) && Mk<C>::eq(b.c, s + 3) && Mk<D>::eq(b.d, s + 4) && Mk<E>::eq(b.e, s + 5); } };
template <class... T> struct Mk<Pack<T...> > { static Pack<T...> go(int) { return Pack<T...>(); } static bool eq(const Pack<T...>&, int) { return true; } };
template <class C, class T> struct MkSeq { static C go(int s) { C c; int n = s % 3; for (int i = 0; i < n; ++i) c.push_back(Mk<T>::go(s + i)); return c; }
    static bool eq(const C& c, int s) { int i = 0; if ((int)c.size() != s % 3) return false; for (typename C::const_iterator p = c.begin(); p != c.end(); ++p, ++i) if (!Mk<T>::eq(*p, s + i)) return false; return true; } };
template <class T, class A> struct Mk<std::vector<T, A> > : MkSeq<std::vector<T, A>, T> {};
template <class T, class A> struct Mk<std::list<T, A> > : MkSeq<std::list<T, A>, T> {};
template <class T, class A> struct Mk<std::deque<T, A> > : MkSeq<std::deque<T, A>, T> {};
template <class A, class B> struct Mk<std::pair<A, B> > { static std::pair<A, B> go(int s) { return std::pair<A, B>(Mk<A>::go(s + 1), Mk<B>::go(s + 2)); } static bool eq(const std::pair<A, B>& p, int s) { return Mk<A>::eq(p.first, s + 1) && Mk<B>::eq(p.second, s + 2); } };
template <class K, class T, class L, class A> struct Mk<std::map<K, T, L, A> > { typedef std::map<K, T, L, A> M; static M go(int s) { M m; if (s & 1) m.insert(std::make_pair(Mk<K>::go(s), Mk<T>::go(s + 3))); return m; }
    static bool eq(const M& m, int s) { return m.size() == size_t(s & 1) && (m.empty() || (Mk<K>::eq(m.begin()->first, s) && Mk<T>::eq(m.begin()->second, s + 3))); } };
template <class T> struct Mk<std::shared_ptr<T> > { static std::shared_ptr<T> go(int) { return std::shared_ptr<T>(); } static bool eq(const std::shared_ptr<T>& p, int) { return !p; } };
template <class... T> struct Mk<std::tuple<T...> > {
    static std::tuple<T...> go(int s) { (void)s; return std::tuple<T...>(Mk<T>::go(s)...); }
    template <int I, class H, class... U> static bool each(const std::tuple<T...>& t, int s) { return Mk<H>::eq(std::get<I>(t), s) && Tail<I + 1, U...>::go(t, s); }
    template <int I, class... U> struct Tail { static bool go(const std::tuple<T...>&, int) { return true; } };
    template <int I, class H, class... U> struct Tail<I, H, U...> { static bool go(const std::tuple<T...>& t, int s) { return Mk<H>::eq(std::get<I>(t), s) && Tail<I + 1, U...>::go(t, s); } };
    static bool eq(const std::tuple<T...>& t, int s) { return Tail<0, T...>::go(t, s); } };
// any variant here holds an int
template <class... T> struct Mk<boost::variant<T...> > { typedef boost::variant<T...> V; static V go(int s) { return V(s); } static bool eq(const V& v, int s) { return boost::get<int>(&v) && boost::get<int>(v) == s; } };

struct Which : boost::static_visitor<const std::type_info*> { const void** a; template <class T> const std::type_info* operator()(const T& t) const { *a = std::addressof(t); return &typeid(Self<T>); } };
template <class V, class T> void holds(const char* id, const V& v, int k, int s, const char* how) {
    const T* p = boost::get<T>(&v); const void* a = 0; Which w; w.a = &a;
    bool ok = v.which() == k && p && Mk<T>::eq(*p, s) && *boost::apply_visitor(w, v) == typeid(Self<T>) && a == std::addressof(*p);
    if (!ok) { char b[160]; std::snprintf(b, sizeof b, "a value of bounded type %d, %s, is not found as such", k, how); failed(id, b); }
    ++rep().evals;
}
template <class V, class T> void value(const char* id, int k, int rounds) {
    for (int s = 0; s < rounds; ++s) {
        T t(Mk<T>::go(s)); V v(t); holds<V, T>(id, v, k, s, "constructed"); V c(v); holds<V, T>(id, c, k, s, "copied"); V m(std::move(c)); holds<V, T>(id, m, k, s, "moved");
        V x(7); x = t; holds<V, T>(id, x, k, s, "assigned"); x = 7; holds<V, int>(id, x, boost::get<int>(&x) ? x.which() : -1, 7, "assigned over it"); x = v; holds<V, T>(id, x, k, s, "assigned from a variant");
        V r(Mk<T>::go(s)); holds<V, T>(id, r, k, s, "constructed from an rvalue"); x = 9; x.swap(r); holds<V, T>(id, x, k, s, "swapped"); }
}
}
#endif
