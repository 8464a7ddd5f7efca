// Tracked value types: every construction, assignment and destruction is
// checked against a registry of live objects, and any operation that is not
// declared nothrow can be made to throw at a chosen point.
#ifndef VERIF_TRACK_HPP
#define VERIF_TRACK_HPP
#include "pbt.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <ostream>
#include <utility>

namespace tk {

using pbt::P;
// a broken object lifetime breaks these properties' statements
inline uint64_t LIFE() { return pbt::ALL; }

enum Kind { K_DEFAULT = 1, K_COPY = 2, K_MOVE = 4, K_CASSIGN = 8, K_MASSIGN = 16, K_ALLOC = 32, K_CONVERT = 64, K_ANY = 127 };
struct Injected { int token; };

struct State {
    bool armed; long countdown; int kinds; int fired_kind; int token;
    // live registry
    enum { MAX = 4096 };
    const void* addr[MAX]; size_t size[MAX]; int id[MAX]; int val[MAX]; unsigned ser[MAX]; int n;   // val, ser: of the one-byte types
    // counters (monotone)
    long n_default, n_copy, n_move, n_cassign, n_massign, n_convert, n_dtor, n_swap;
    unsigned serial;
    bool late;                      // assignments throw after having stored the new value
};
inline State& st() { static State s; return s; }

inline bool hit(int kind) {
    State& s = st();
    if (!s.armed || !(s.kinds & kind)) return false;
    if (--s.countdown != 0) return false;
    s.armed = false; s.fired_kind = kind; ++s.token;
    return true;
}
inline void point(int kind) { if (hit(kind)) { Injected e = { st().token }; throw e; } }
inline bool alloc_hook() { return hit(K_ALLOC); }

inline void reset() {
    State& s = st();
    s.armed = false; s.countdown = 0; s.kinds = 0; s.fired_kind = 0; s.n = 0; s.late = false;
    s.n_default = s.n_copy = s.n_move = s.n_cassign = s.n_massign = s.n_convert = s.n_dtor = s.n_swap = 0;
    s.serial = 1;
    pbt::g_new_fault = 0;
}
inline void arm(long countdown, int kinds, bool late) {
    State& s = st(); s.armed = countdown > 0; s.countdown = countdown; s.kinds = kinds; s.fired_kind = 0; s.late = late;
    pbt::g_new_fault = (s.armed && (kinds & K_ALLOC)) ? &alloc_hook : 0;
}
inline void disarm() { st().armed = false; pbt::g_new_fault = 0; }

inline int find(const void* p) { State& s = st(); for (int i = s.n - 1; i >= 0; --i) if (s.addr[i] == p) return i; return -1; }
inline void born(const void* p, size_t sz, int id) {
    State& s = st();
    for (int i = 0; i < s.n; ++i) {
        const char* a = (const char*)s.addr[i]; const char* b = (const char*)p;
        if (a < b + sz && b < a + s.size[i])
            pbt::fail(LIFE(), __FILE__, __LINE__, "object constructed over storage of a live object");
    }
    if (s.n >= State::MAX) pbt::fail(LIFE(), __FILE__, __LINE__, "too many live objects");
    s.addr[s.n] = p; s.size[s.n] = sz; s.id[s.n] = id; s.val[s.n] = 0; s.ser[s.n] = 0; ++s.n;
}
inline void died(const void* p, int id) {
    State& s = st(); int i = find(p);
    if (i < 0) pbt::fail(LIFE(), __FILE__, __LINE__, "destructor run on something that is not a live object");
    if (s.id[i] != id) pbt::fail(LIFE(), __FILE__, __LINE__, "destructor of another type run on a live object");
    --s.n; s.addr[i] = s.addr[s.n]; s.size[i] = s.size[s.n]; s.id[i] = s.id[s.n]; s.val[i] = s.val[s.n]; s.ser[i] = s.ser[s.n];
}
inline bool live(const void* p, int id) { int i = find(p); return i >= 0 && st().id[i] == id; }
// live tracked objects inside a byte range
inline int live_in(const void* p, size_t n) {
    State& s = st(); int c = 0; const char* b = (const char*)p;
    for (int i = 0; i < s.n; ++i) { const char* a = (const char*)s.addr[i]; if (a >= b && a < b + n) ++c; }
    return c;
}

static const int MOVED = -777777;
static const int DEFVAL = 4242;

// attributes
enum Attr { NTCOPY = 1, NTMOVE = 2, NTDEF = 4, NTCA = 8, NTMA = 16, NTALL = 31 };

struct Raw {};

template <int Id, unsigned A, size_t Size, size_t Align>
struct alignas(Align) Body {
    const void* self;
    int* heap;                      // malloc'ed: invisible to operator new accounting
    int val;
    unsigned serial;
    char pad[Size];
    void init(int v) {
        self = this; heap = (int*)std::malloc(sizeof(int)); *heap = v; val = v; serial = st().serial++;
        std::memset(pad, (unsigned char)(v * 7 + Id), Size);
        born(this, sizeof(*this), Id);
        if (reinterpret_cast<uintptr_t>(this) % Align) pbt::fail(LIFE(), __FILE__, __LINE__, "object constructed at a misaligned address");
    }
    void check(const char* what) const {
        if (!live(this, Id)) pbt::fail(LIFE(), __FILE__, __LINE__, std::string(what) + " on something that is not a live object of its type");
        if (self != this) pbt::fail(LIFE(), __FILE__, __LINE__, std::string(what) + ": object was relocated bitwise");
        if (*heap != val) pbt::fail(LIFE(), __FILE__, __LINE__, std::string(what) + ": payload corrupted");
        unsigned char c = (unsigned char)(val * 7 + Id);
        for (size_t i = 0; i < Size; ++i) if ((unsigned char)pad[i] != c) pbt::fail(LIFE(), __FILE__, __LINE__, std::string(what) + ": body corrupted");
    }
    void set(int v) { val = v; *heap = v; std::memset(pad, (unsigned char)(v * 7 + Id), Size); }
    void fini() { check("destructor"); died(this, Id); ++st().n_dtor; std::free(heap); heap = 0; val = -1; self = 0; }
    int get() const { check("read"); return val; }
    int v() const { return val; }
    unsigned ser() const { return serial; }
};
// one byte, no alignment: the value is kept in the registry, the byte follows it
template <int Id, unsigned A>
struct Body<Id, A, 0, 1> {
    unsigned char c;
    static unsigned char pat(int v) { return (unsigned char)(v * 7 + Id); }
    void init(int v) { c = pat(v); born(this, 1, Id); State& s = st(); s.val[s.n - 1] = v; s.ser[s.n - 1] = s.serial++; }
    void check(const char* what) const {
        if (!live(this, Id)) pbt::fail(LIFE(), __FILE__, __LINE__, std::string(what) + " on something that is not a live object of its type");
        if (c != pat(v())) pbt::fail(LIFE(), __FILE__, __LINE__, std::string(what) + ": body corrupted");
    }
    void set(int v) { st().val[find(this)] = v; c = pat(v); }
    void fini() { check("destructor"); died(this, Id); ++st().n_dtor; c = 0xDD; }
    int get() const { check("read"); return v(); }
    int v() const { return st().val[find(this)]; }
    unsigned ser() const { return st().ser[find(this)]; }
};

#define TK_COMMON(NAME) \
    typedef Body<Id, A, Size, Align> B; B b; \
    enum { id = Id }; \
    NAME() noexcept((A & NTDEF) != 0) { if (!(A & NTDEF)) point(K_DEFAULT); ++st().n_default; b.init(DEFVAL); } \
    NAME(Raw, int v) noexcept { b.init(v); } \
    ~NAME() noexcept { b.fini(); } \
    int value() const { return b.get(); } \
    void set(int v) { b.check("mutation"); b.set(v); } \
    friend bool operator==(const NAME& x, const NAME& y) { return x.b.get() == y.b.get(); } \
    friend bool operator<(const NAME& x, const NAME& y) { return x.b.get() < y.b.get(); } \
    template <class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& o, const NAME& x) { return o << 'o' << Id << ':' << x.b.get(); } \
    friend std::size_t hash_value(const NAME& x) { return std::size_t(x.b.get()) * 31 + 7; }

#define TK_COPY(NAME) \
    NAME(const NAME& o) noexcept((A & NTCOPY) != 0) { o.b.check("copy source"); if (!(A & NTCOPY)) point(K_COPY); ++st().n_copy; b.init(o.b.v()); } \
    NAME& operator=(const NAME& o) noexcept((A & NTCA) != 0) { o.b.check("copy-assign source"); b.check("copy-assign target"); \
        if (!(A & NTCA)) { if (st().late) { int v = o.b.v(); if (hit(K_CASSIGN)) { b.set(v); Injected e = { st().token }; throw e; } } else point(K_CASSIGN); } \
        ++st().n_cassign; b.set(o.b.v()); return *this; }
#define TK_MOVE(NAME) \
    NAME(NAME&& o) noexcept((A & NTMOVE) != 0) { o.b.check("move source"); if (!(A & NTMOVE)) point(K_MOVE); ++st().n_move; b.init(o.b.v()); o.b.set(MOVED); } \
    NAME& operator=(NAME&& o) noexcept((A & NTMA) != 0) { o.b.check("move-assign source"); b.check("move-assign target"); \
        if (!(A & NTMA)) { if (st().late) { int v = o.b.v(); if (hit(K_MASSIGN)) { b.set(v); Injected e = { st().token }; throw e; } } else point(K_MASSIGN); } \
        ++st().n_massign; if (&o != this) { b.set(o.b.v()); o.b.set(MOVED); } return *this; }

// copyable and movable
template <int Id, unsigned A = 0, size_t Size = 1, size_t Align = 8> struct CM { TK_COMMON(CM) TK_COPY(CM) TK_MOVE(CM) };
// copyable only (an rvalue is copied); its operator& is of no use to generic code
template <int Id, unsigned A = 0, size_t Size = 1, size_t Align = 8> struct CO { TK_COMMON(CO) TK_COPY(CO) CO* operator&() { return 0; } const CO* operator&() const { return 0; } };
// with a swap of its own that cannot fail
template <int Id, unsigned A = 0, size_t Size = 1, size_t Align = 8> struct SW { TK_COMMON(SW) TK_COPY(SW) TK_MOVE(SW)
    friend void swap(SW& x, SW& y) noexcept { x.b.check("swap"); y.b.check("swap"); ++st().n_swap; int v = x.b.v(); x.b.set(y.b.v()); y.b.set(v); } };
// move only
template <int Id, unsigned A = 0, size_t Size = 1, size_t Align = 8> struct MO { TK_COMMON(MO) TK_MOVE(MO) MO(const MO&) = delete; MO& operator=(const MO&) = delete; };

} // namespace tk
#endif
