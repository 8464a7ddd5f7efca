// Uniform access to the value types used in generated variants.
#ifndef VERIF_VALUES_HPP
#define VERIF_VALUES_HPP
#include "track.hpp"
#include <boost/variant.hpp>
#include <boost/blank.hpp>
#include <cstdio>
#include <string>
#include <vector>
#include <type_traits>

template <class T> struct VT;

template <class T, int Id, unsigned A, bool Copyable, bool Movable> struct VTTracked {
    enum { tracked = 1, ntcopy = (A & tk::NTCOPY) != 0 && Copyable, ntmove = Movable ? (A & tk::NTMOVE) != 0 : (A & tk::NTCOPY) != 0,
           ntdef = (A & tk::NTDEF) != 0, allocs = 0, copyable = Copyable, movable = Movable, blank = 0,
           ntma = Movable ? (A & tk::NTMA) != 0 : (A & tk::NTCA) != 0 };
    static void construct(void* p, int v) { new (p) T(tk::Raw(), v); }
    static int canon(int v) { return v; }
    static int read(const T& t) { return t.value(); }
    static void set(T& t, int v) { t.set(v); }
    static unsigned serial(const T& t) { return t.b.ser(); }
    static bool moved(int v) { return v == tk::MOVED; }
    static int defval() { return tk::DEFVAL; }
};
template <int Id, unsigned A, size_t S, size_t L> struct VT<tk::CM<Id, A, S, L> > : VTTracked<tk::CM<Id, A, S, L>, Id, A, true, true> {};
template <int Id, unsigned A, size_t S, size_t L> struct VT<tk::CO<Id, A, S, L> > : VTTracked<tk::CO<Id, A, S, L>, Id, A, true, false> {};
template <int Id, unsigned A, size_t S, size_t L> struct VT<tk::MO<Id, A, S, L> > : VTTracked<tk::MO<Id, A, S, L>, Id, A, false, true> {};
template <int Id, unsigned A, size_t S, size_t L> struct VT<tk::SW<Id, A, S, L> > : VTTracked<tk::SW<Id, A, S, L>, Id, A, true, true> {};
template <class T> struct OwnSwap { enum { value = 0 }; };
template <int Id, unsigned A, size_t S, size_t L> struct OwnSwap<tk::SW<Id, A, S, L> > { enum { value = 1 }; };

template <class T> struct VTPod {
    enum { tracked = 0, ntcopy = 1, ntmove = 1, ntdef = 1, allocs = 0, copyable = 1, movable = 0, blank = 0, ntma = 1 };
    static unsigned serial(const T&) { return 0; }
    static bool moved(int) { return false; }
};
template <> struct VT<int> : VTPod<int> {
    static void construct(void* p, int v) { new (p) int(v); }
    static int canon(int v) { return v; }
    static int read(const int& t) { return t; }
    static void set(int& t, int v) { t = v; }
    static int defval() { return 0; }
};
template <> struct VT<char> : VTPod<char> {
    static void construct(void* p, int v) { new (p) char(canon(v)); }
    static int canon(int v) { return ((v % 100) + 100) % 100; }
    static int read(const char& t) { return t; }
    static void set(char& t, int v) { t = (char)canon(v); }
    static int defval() { return 0; }
};
template <> struct VT<double> : VTPod<double> {
    static void construct(void* p, int v) { new (p) double(v + 0.5); }
    static int canon(int v) { return v; }
    static int read(const double& t) { return (int)(t - 0.5); }
    static void set(double& t, int v) { t = v + 0.5; }
    static int defval() { return 0; }
};
template <> struct VT<boost::blank> : VTPod<boost::blank> {
    enum { blank = 1 };
    static void construct(void* p, int) { new (p) boost::blank(); }
    static int canon(int) { return 0; }
    static int read(const boost::blank&) { return 0; }
    static void set(boost::blank&, int) {}
    static int defval() { return 0; }
};
template <> struct VT<std::string> {
    enum { tracked = 0, ntcopy = 0, ntmove = 1, ntdef = 1, allocs = 1, copyable = 1, movable = 1, blank = 0, ntma = 1 };
    static std::string str(int v) { char b[16]; std::snprintf(b, sizeof b, "%d|", v); std::string s(b); if (v & 1) s.append(40, 'x'); return s; }
    static void construct(void* p, int v) { new (p) std::string(str(v)); }
    static int canon(int v) { return v; }
    // -1: not a value this harness writes (for example moved-from)
    static int read(const std::string& t) { if (t.empty()) return -1; int v = std::atoi(t.c_str()); return str(v) == t ? v : -2; }
    static void set(std::string& t, int v) { t = str(v); }
    static unsigned serial(const std::string&) { return 0; }
    static bool moved(int) { return true; }
    static int defval() { return -1; }
};
template <> struct VT<std::vector<int> > {
    typedef std::vector<int> T;
    enum { tracked = 0, ntcopy = 0, ntmove = 1, ntdef = 1, allocs = 1, copyable = 1, movable = 1, blank = 0, ntma = 1 };
    static void construct(void* p, int v) { new (p) T(size_t(1 + (v & 3)), v); }
    static int canon(int v) { return v; }
    static int read(const T& t) { if (t.empty()) return -1; int v = t[0]; if (t.size() != size_t(1 + (v & 3))) return -2; for (size_t i = 0; i < t.size(); ++i) if (t[i] != v) return -2; return v; }
    static void set(T& t, int v) { t.assign(size_t(1 + (v & 3)), v); }
    static unsigned serial(const T&) { return 0; }
    static bool moved(int) { return true; }
    static int defval() { return -1; }
};

// spec element -> public type
template <class E> struct Pub { typedef E type; enum { wrapper = 0 }; };
template <class T> struct Pub<boost::recursive_wrapper<T> > { typedef T type; enum { wrapper = 1 }; };

// a T built outside the window in which faults are armed
template <class T> struct Hold {
    typename std::aligned_storage<sizeof(T), alignof(T)>::type mem;
    explicit Hold(int v) { VT<T>::construct(&mem, v); }
    ~Hold() { ref().~T(); }
    T& ref() { return *reinterpret_cast<T*>(&mem); }
    Hold(const Hold&) = delete; Hold& operator=(const Hold&) = delete;
};

template <class T, class... L> struct IndexOf;
template <class T, class... L> struct IndexOf<T, T, L...> { enum { value = 0 }; };
template <class T, class H, class... L> struct IndexOf<T, H, L...> { enum { value = 1 + IndexOf<T, L...>::value }; };
template <class T> struct IndexOf<T> { enum { value = -100000 }; };
template <bool... B> struct AllTrue;
template <> struct AllTrue<> { enum { value = 1 }; };
template <bool H, bool... B> struct AllTrue<H, B...> { enum { value = H && AllTrue<B...>::value }; };
#endif
