// Puts a variant into a chosen value through a random history, so that checks
// of single operations also see states left by earlier (failed) operations.
#ifndef VERIF_STATE_HPP
#define VERIF_STATE_HPP
#include "values.hpp"

template <class V, class... E> struct Builder {
    enum { N = sizeof...(E) };
    template <class T> struct Op {
        static void construct(void* p, int v) { Hold<T> h(v); new (p) V(h.ref()); }
        static void assign(V& x, int v) { Hold<T> h(v); x = const_cast<const T&>(h.ref()); }
        static int canon(int v) { return VT<T>::canon(v); }
        static int read(const V& x) { return VT<T>::read(*boost::get<T>(&x)); }
        static void set(V& x, int v) { VT<T>::set(*boost::get<T>(&x), v); }
        static const void* addr(const V& x) { return std::addressof(*boost::get<T>(&x)); }
    };
    static void construct(void* p, int k, int v) { typedef void (*F)(void*, int); static const F f[] = { &Op<typename Pub<E>::type>::construct... }; f[k](p, v); }
    static void assign(V& x, int k, int v) { typedef void (*F)(V&, int); static const F f[] = { &Op<typename Pub<E>::type>::assign... }; f[k](x, v); }
    static int canon(int k, int v) { typedef int (*F)(int); static const F f[] = { &Op<typename Pub<E>::type>::canon... }; return f[k](v); }
    static int read(const V& x) { typedef int (*F)(const V&); static const F f[] = { &Op<typename Pub<E>::type>::read... }; return f[x.which()](x); }
    static void set(V& x, int v) { typedef void (*F)(V&, int); static const F f[] = { &Op<typename Pub<E>::type>::set... }; f[x.which()](x, v); }
    static const void* addr(const V& x) { typedef const void* (*F)(const V&); static const F f[] = { &Op<typename Pub<E>::type>::addr... }; return f[x.which()](x); }

    // p: raw storage.  Leaves a V holding alternative k with canonical value v.
    static const char* make(pbt::Source& s, void* p, int k, int v) {
        v = canon(k, v);
        switch (s.below(6)) {
        default: construct(p, k, v); return "constructed";
        case 2: { int j = s.below(N); construct(p, j, canon(j, v + 1)); assign(*static_cast<V*>(p), k, v); return "assigned"; }
        case 3: { V t(make_v(k, v)); new (p) V(t); return "copied"; }
        case 4: { int j = s.below(N); construct(p, j, canon(j, v + 1)); V t(make_v(k, v)); static_cast<V*>(p)->swap(t); return "swapped"; }
        case 5: {   // a failed assignment: content may now live on the heap
            construct(p, k, v); V& x = *static_cast<V*>(p);
            int j = s.below(N); V w(make_v(j, canon(j, v + 3)));
            tk::arm(1 + s.below(2), tk::K_COPY | tk::K_CASSIGN, false);
            try { x = const_cast<const V&>(w); } catch (...) {}
            tk::disarm();
            if (x.which() != k) assign(x, k, v);
            if (read(x) != v) set(x, v);
            return "after a failed assignment"; }
        }
    }
    static V make_v(int k, int v) { struct R { typename std::aligned_storage<sizeof(V), alignof(V)>::type m; V& v() { return *reinterpret_cast<V*>(&m); } ~R() { v().~V(); } } r; construct(&r.m, k, v); return V(r.v()); }
};

// a variant in place, built by Builder
template <class V, class B> struct Var {
    typename std::aligned_storage<sizeof(V), alignof(V)>::type m;
    int k, val; const char* how;
    Var(pbt::Source& s, int k_, int v_) : k(k_), val(B::canon(k_, v_)) { std::memset(&m, 0xCB, sizeof m); how = B::make(s, &m, k, val); }
    ~Var() { v().~V(); }
    V& v() { return *reinterpret_cast<V*>(&m); }
    const V& cv() { return v(); }
    const void* addr() { return B::addr(v()); }
    bool intact() { return v().which() == k && B::read(v()) == val; }
    Var(const Var&) = delete;
};
inline int some_val(pbt::Source& s) { int a = s.below(24); return a < 16 ? a : a < 20 ? a - 24 : 1000 + a; }
#endif
