// C26: types for generated well-typed / ill-typed program pairs.
#ifndef VERIF_ILLTYPED_HPP
#define VERIF_ILLTYPED_HPP
#include <boost/variant.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/core/swap.hpp>
#include <memory>
#include <type_traits>
#include <unordered_map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace it {
// unrelated classes: comparable, printable, hashable; converting from and to nothing
template <int K> struct A { int v; A() : v(K) {} explicit A(char*) : v(0) {} friend bool operator==(const A& x, const A& y) { return x.v == y.v; } friend bool operator<(const A& x, const A& y) { return x.v < y.v; }
    friend std::ostream& operator<<(std::ostream& o, const A& a) { return o << a.v; } friend std::size_t hash_value(const A& a) { return a.v; } };
template <int K> struct NoEq { int v; NoEq() : v(K) {} friend bool operator<(const NoEq& x, const NoEq& y) { return x.v < y.v; } };
template <int K> struct NoLess { int v; NoLess() : v(K) {} friend bool operator==(const NoLess& x, const NoLess& y) { return x.v == y.v; } };
template <int K> struct NoOut { int v; NoOut() : v(K) {} };
template <int K> struct NoDef { int v; explicit NoDef(A<K>) : v(K) {} };
template <int K> struct MoveOnly { int v; MoveOnly() : v(K) {} MoveOnly(MoveOnly&&) noexcept : v(K) {} MoveOnly& operator=(MoveOnly&&) noexcept { return *this; } MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete; };
struct Base { int b; virtual ~Base() {} }; struct Base2 { int b2; virtual ~Base2() {} };
template <int K> struct Der : Base, Base2 { int d; Der() : d(K) {} };
template <int K> struct Der1 : Base { int d; Der1() : d(K) {} };
template <int K> struct SubA : A<K> {};
template <int K> struct Der2 : Base2 { int d; Der2() : d(K) {} };
struct VBase { int b; virtual ~VBase() {} };
template <int K> struct VDer : virtual VBase { int d; VDer() : d(K) {} };
struct SubDer1 : Der1<1> {};
struct Unrel { int u; virtual ~Unrel() {} };
template <int K> struct ToA { operator A<K>() const { return A<K>(); } };
template <int K> struct FromF { FromF() {} FromF(const A<20>&) {} };
template <class T> T mk() { return T(); }
template <class T> T* p() { static T x; return &x; }
template <class T> T& lv() { return *p<T>(); }
template <class T> const T& clv() { return *p<T>(); }
template <class T> void take(T) {}
}
#endif
