// C24: recursive_wrapper<T> on its own, against a value model.
#include "values.hpp"
#include <boost/variant/recursive_wrapper.hpp>
namespace rw {
using pbt::P; using pbt::Source;
struct Later;
struct HasLater { boost::recursive_wrapper<Later> w; HasLater(); HasLater(const HasLater&); ~HasLater(); };
template <class T> struct Mach {
    typedef boost::recursive_wrapper<T> W; enum { K = 4, C = VT<T>::copyable };
    Source& s; void* p[K]; bool alive[K]; int val[K]; const T* at[K]; int n, moves, fails, cur;
    explicit Mach(Source& src) : s(src), n(0), moves(0), fails(0) { for (int i = 0; i < K; ++i) { p[i] = std::malloc(sizeof(W)); std::memset(p[i], 0xCB, sizeof(W)); alive[i] = false; } }
    ~Mach() { for (int i = 0; i < K; ++i) std::free(p[i]); }
    W& w(int i) { return *static_cast<W*>(p[i]); }
    int pick() { int i = s.below(K); for (int k = 0; k < K; ++k) if (alive[(i + k) % K]) return (i + k) % K; return -1; }
    void kill(int i) { if (!alive[i]) return; int l = tk::st().n; w(i).~W(); alive[i] = false; std::memset(p[i], 0xCB, sizeof(W)); CHECK(P(24) | P(4), tk::st().n == l - 1, "destroying a wrapper destroyed " << l - tk::st().n << " objects"); }
    template <class F> bool op(F f) {
        bool inj = s.below(5) >= 3; int tok = tk::st().token; bool threw = false; static const int ks[] = { tk::K_ANY, tk::K_ALLOC, tk::K_COPY | tk::K_MOVE | tk::K_DEFAULT, tk::K_CASSIGN | tk::K_MASSIGN };
        if (inj) { int k = ks[s.below(4)]; long cd = 1 + s.below(2); bool late = s.flip(); tk::arm(cd, k, late); }
        try { f(); } catch (const tk::Injected& e) { threw = true; CHECK(P(24), e.token == tok + 1, "another exception reached the caller"); } catch (const std::bad_alloc&) { threw = true; CHECK(P(24), tk::st().fired_kind == tk::K_ALLOC, "bad_alloc without a failed allocation"); }
        tk::disarm();
        CHECK(P(24), threw == (tk::st().token != tok), "an exception was swallowed");
        if (threw) { ++fails; TRACE("    -> failed"); pbt::label("failed wrapper operation"); }
        return threw;
    }
    void born(int i, int v, bool failed, int live0, long new0) {
        if (failed) { CHECK(P(24) | P(4), tk::st().n == live0 && pbt::g_new_live == new0, "a failed construction of a wrapper leaked"); std::memset(p[i], 0xCB, sizeof(W)); }
        else { alive[i] = true; val[i] = v; at[i] = w(i).get_pointer(); CHECK(P(24), tk::st().n == live0 + 1 && pbt::g_new_live == new0 + 1, "a wrapper does not own exactly one object in one block"); }
    }
    template <bool B, class Dm = void> struct Copy {
        static void make(Mach& m, int i, Hold<T>& h, int mode) { if (mode == 2) new (m.p[i]) W(std::move(h.ref())); else new (m.p[i]) W(const_cast<const T&>(h.ref())); }
        static void copy(Mach& m, int i, int j) { new (m.p[i]) W(const_cast<const W&>(m.w(j))); }
        static void assign(Mach& m, int i, int j) { W* r = &(m.w(i) = const_cast<const W&>(m.w(j))); CHECK(P(24), r == &m.w(i), "assignment does not return its left operand"); }
        static void assign_t(Mach& m, int i, Hold<T>& h, bool rv) { W* r = rv ? &(m.w(i) = std::move(h.ref())) : &(m.w(i) = const_cast<const T&>(h.ref())); CHECK(P(24), r == &m.w(i), "assignment does not return its left operand"); }
        static void assign_self_content(Mach& m, int i) { m.w(i) = const_cast<const T&>(m.w(i).get()); }
    };
    template <class Dm> struct Copy<false, Dm> {
        static void make(Mach& m, int i, Hold<T>& h, int) { new (m.p[i]) W(std::move(h.ref())); }
        static void copy(Mach& m, int i, int j) { new (m.p[i]) W(std::move(m.w(j))); }
        static void assign(Mach& m, int i, int j) { m.w(i) = std::move(m.w(j)); }
        static void assign_t(Mach& m, int i, Hold<T>& h, bool) { m.w(i) = std::move(h.ref()); }
        static void assign_self_content(Mach&, int) {}
    };
    typedef Copy<C != 0> Cp;
    void moved_from(int j, int old, int other) { int v = w(j).get().value(); CHECK(P(24), v == old || v == tk::MOVED || v == other, "the source of a move holds " << v << ", held " << old); val[j] = v; at[j] = w(j).get_pointer(); }
    void verify() {
        const T* seen[K]; int ns = 0, na = 0;
        for (int i = 0; i < K; ++i) if (alive[i]) {
            const W& c = w(i); ++na;
            CHECK(P(24), w(i).get_pointer() == c.get_pointer() && std::addressof(w(i).get()) == c.get_pointer() && std::addressof(c.get()) == c.get_pointer(), "get and get_pointer disagree");
            CHECK(P(24), c.get_pointer() == at[i], "the owned object moved");
            CHECK(P(24), c.get().value() == val[i], "wrapper " << i << " holds " << c.get().value() << ", model " << val[i]);
            for (int k = 0; k < ns; ++k) CHECK(P(24), seen[k] != c.get_pointer(), "two wrappers share one object");
            seen[ns++] = c.get_pointer();
        }
        CHECK(P(24) | P(4), tk::st().n == na, tk::st().n << " objects alive for " << na << " wrappers");
    }
    void step() {
        int o = s.below(13), i = s.below(K), j = pick(); int x = s.below(9);
        if (o <= 4 || j < 0) {
            if (j < 0 || o > 4) o = 1;
            if (o >= 2 && i == j && o < 4) i = (i + 1) % K;
            if (o == 4) o = 0;
            kill(i); int live0; long new0;
            if (o == 0) { TRACE("  w" << i << " <- default"); live0 = tk::st().n; new0 = pbt::g_new_live; bool f = op([&] { new (p[i]) W; }); born(i, tk::DEFVAL, f, live0, new0); }
            else if (o == 1) { Hold<T> h(x); int mode = s.below(3); TRACE("  w" << i << " <- T " << x << (mode == 2 ? " (rvalue)" : "")); live0 = tk::st().n; new0 = pbt::g_new_live; long c0 = tk::st().n_copy; bool f = op([&] { Cp::make(*this, i, h, mode); }); born(i, x, f, live0, new0); if (mode == 2 && VT<T>::movable) CHECK(P(24) | P(16), tk::st().n_copy == c0, "construction from an rvalue copied"); if (mode != 2 && C) CHECK(P(24), h.ref().value() == x, "the operand was modified"); }
            else { bool mv = o == 3 || !C; int old = val[j]; TRACE("  w" << i << " <- " << (mv ? "move" : "copy") << " of w" << j); live0 = tk::st().n; new0 = pbt::g_new_live; long c0 = tk::st().n_copy; const T* b = at[j];
                bool f = op([&] { if (mv) new (p[i]) W(std::move(w(j))); else Cp::copy(*this, i, j); }); 
                born(i, old, f, live0, new0); if (mv) { if (VT<T>::movable) CHECK(P(24) | P(16), tk::st().n_copy == c0, "moving a wrapper copied"); moved_from(j, old, old); ++moves; } (void)b; }
            return;
        }
        i = pick();
        switch (o) {
        case 5: case 6: {
            bool mv = o == 6 || !C; int a = val[i], b = val[j]; long c0 = tk::st().n_copy + tk::st().n_cassign; TRACE("  w" << i << " = " << (mv ? "move of w" : "w") << j);
            const T* ai = at[i];
            bool f = op([&] { if (mv) { W* r = &(w(i) = std::move(w(j))); CHECK(P(24), r == &w(i), "assignment does not return its left operand"); } else Cp::assign(*this, i, j); });
            if (i == j) { int v = w(i).get().value(); CHECK(P(24) | P(23), v == a || (mv && v == tk::MOVED), "self-assignment of a wrapper left " << v << ", held " << a); val[i] = v; if (mv) at[i] = w(i).get_pointer(); return; }
            if (!f) { if (mv) { at[i] = w(i).get_pointer(); if (VT<T>::movable) CHECK(P(24) | P(16), tk::st().n_copy + tk::st().n_cassign == c0, "move-assigning a wrapper copied"); val[i] = b; moved_from(j, b, a); ++moves; } else { val[i] = b; CHECK(P(24), at[i] == ai, ""); } }
            else { int v = w(i).get().value(); CHECK(P(24), v == a || v == b, "a failed assignment left " << v); val[i] = v; if (mv) { at[i] = w(i).get_pointer(); moved_from(j, b, a); } }
            break; }
        case 7: case 8: {
            bool rv = o == 8; Hold<T> h(x); int a = val[i]; TRACE("  w" << i << " = T " << x << (rv ? " (rvalue)" : "")); long c0 = tk::st().n_copy + tk::st().n_cassign;
            bool f = op([&] { Cp::assign_t(*this, i, h, rv); });
            if (!f) { val[i] = x; if ((rv || !C) && VT<T>::movable) CHECK(P(24) | P(16), tk::st().n_copy + tk::st().n_cassign == c0, "assigning an rvalue copied"); } else { int v = w(i).get().value(); CHECK(P(24), v == a || v == x, "a failed assignment left " << v); val[i] = v; }
            if (!rv && C) CHECK(P(24), h.ref().value() == x, "the operand was modified");
            break; }
        case 9: case 10: {
            TRACE("  swap(w" << i << ", w" << j << ")"); int how = s.below(3); long cm = tk::st().n_copy + tk::st().n_cassign; const T* a = at[i]; const T* b = at[j];
            bool f = op([&] { if (how == 0) w(i).swap(w(j)); else if (how == 1) { using std::swap; swap(w(i), w(j)); } else boost::swap(w(i), w(j)); });
            CHECK(P(24), !f, "swap of two wrappers threw"); if (VT<T>::movable) CHECK(P(24), tk::st().n_copy + tk::st().n_cassign == cm, "swap copied");
            std::swap(val[i], val[j]); at[i] = w(i).get_pointer(); at[j] = w(j).get_pointer(); (void)a; (void)b; ++moves; break; }
        case 11: { TRACE("  write " << x << " through w" << i); if (s.flip()) w(i).get().set(x); else w(i).get_pointer()->set(x); val[i] = x; break; }
        default: if (s.flip()) { TRACE("  w" << i << " = its own content"); int a = val[i]; op([&] { Cp::assign_self_content(*this, i); }); CHECK(P(24) | P(23), w(i).get().value() == a, "assigning its own content changed the value"); } else { TRACE("  destroy w" << i); kill(i); }
        }
    }
    void run() {
        tk::reset(); CHECK(P(24), noexcept(std::declval<W&>().swap(std::declval<W&>())), "swap is not noexcept");
        CHECK(P(24) | P(16), !boost::is_nothrow_move_constructible<W>::value, "a wrapper, which allocates, claims a nothrow move constructor");
        CHECK(P(24), boost::is_recursive_wrapper<W>::value && !boost::is_recursive_wrapper<T>::value && (std::is_same<typename boost::unwrap_recursive<W>::type, T>::value) && (std::is_same<typename boost::unwrap_recursive<T>::type, T>::value) && (std::is_same<typename W::type, T>::value), "wrapper traits");
        while (s.more() && n < 40) { ++n; step(); verify(); }
        for (int i = 0; i < K; ++i) kill(i);
        CHECK(P(24) | P(4), tk::st().n == 0, "objects never destroyed");
        if (moves || fails) pbt::nontrivial();
    }
};
// T is complete only here
struct Later { tk::CM<7> t; HasLater* next; Later() : t(tk::Raw(), 5), next(0) {} Later(const Later& o) : t(o.t), next(0) {} ~Later() { delete next; } };
HasLater::HasLater() {} HasLater::HasLater(const HasLater& o) : w(o.w) {} HasLater::~HasLater() {}
void incomplete(Source& s) {
    tk::reset();
    { HasLater a; int depth = s.below(20); HasLater* h = &a; for (int i = 0; i < depth; ++i) { h->w.get().next = new HasLater; h = h->w.get().next; } HasLater b(a); b.w.get().t.set(9); CHECK(P(24), a.w.get().t.value() == 5, "copies of a wrapper share their content"); CHECK(P(24), tk::st().n == depth + 2, "objects alive: " << tk::st().n); }
    CHECK(P(24) | P(4), tk::st().n == 0, "objects never destroyed"); pbt::nontrivial();
}
}
#define RW(tag, ...) static void tag(pbt::Source& s) { rw::Mach<__VA_ARGS__> m(s); m.run(); } PBT_CASE("wrapper." #tag, tag, 10, pbt::P(24))
RW(cm, tk::CM<1>); RW(co, tk::CO<2>); RW(mo, tk::MO<3>); RW(nt, tk::CM<4, tk::NTALL>); RW(big, tk::CM<5, tk::NTMOVE, 100, 16>);
using rw::incomplete; PBT_CASE("wrapper.incomplete", incomplete, 1, pbt::P(24));
