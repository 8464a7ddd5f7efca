// Stateful model-based machine over variant<E...>: random histories of
// construction, assignment, conversion, swap, mutation and destruction with
// injected failures, compared after every step with a tagged-union model.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
#include "values.hpp"
#include <boost/variant/static_visitor.hpp>
#include <boost/type_index.hpp>
#include <algorithm>

namespace core {
using pbt::P; using pbt::Source;

enum Emph { E_GENERAL, E_FAULT, E_SWAP, E_MOVE, E_SELF, E_ENUM };

template <class V, class... E> struct Mach {
    enum { N = sizeof...(E), K = 4 };
    static constexpr bool copyable() { return AllTrue<(VT<typename Pub<E>::type>::copyable != 0)...>::value; }
    static constexpr bool has_fallback() { return !AllTrue<!(VT<typename Pub<E>::type>::ntdef && !Pub<E>::wrapper)...>::value; }
    static constexpr bool allocating() { return !AllTrue<!(VT<typename Pub<E>::type>::allocs || Pub<E>::wrapper)...>::value; }

    struct Info { bool tracked, ntcopy, ntmove, ntdef, allocs, movable, wrapper, blank, ntma, swaps; int (*canon)(int); bool (*moved)(int); int defval; const char* tn; };
    template <class El> static Info info_of() {
        typedef VT<typename Pub<El>::type> T;
        Info i = { T::tracked != 0, T::ntcopy && !Pub<El>::wrapper, T::ntmove && !Pub<El>::wrapper, T::ntdef && !Pub<El>::wrapper, T::allocs || Pub<El>::wrapper, T::movable != 0, Pub<El>::wrapper != 0, T::blank != 0, T::ntma != 0, OwnSwap<typename Pub<El>::type>::value != 0, &T::canon, &T::moved, T::defval(), 0 };
        return i;
    }
    static const Info& info(int k) { static const Info a[] = { info_of<E>()... }; return a[k]; }

    struct Obs { int which; int val; const void* addr; unsigned serial; };

    struct Probe : boost::static_visitor<void> {
        int idx; const void* addr; int calls; bool cst;
        Probe() : idx(-1), addr(0), calls(0), cst(false) {}
        template <class T> void operator()(T& t) { ++calls; idx = IndexOf<typename std::remove_const<T>::type, typename Pub<E>::type...>::value; addr = std::addressof(t); cst = std::is_const<T>::value; }
    };

    template <class T> struct G {
        // every getter and type query on alternative k must agree with `which`
        static void agree(V& v, int k, int which, const void* addr) {
            const V& cv = v;
            T* p = boost::get<T>(&v); const T* cp = boost::get<T>(&cv);
            bool is = k == which;
            CHECK(P(1) | P(7), (p != 0) == is, "get<T" << k << ">(&v) on a variant whose which() is " << which);
            CHECK(P(1) | P(7), (cp != 0) == is, "get<T" << k << ">(const*) on a variant whose which() is " << which);
            CHECK(P(1) | P(7), boost::relaxed_get<T>(&v) == p && boost::strict_get<T>(&cv) == cp, "getters disagree");
            CHECK(P(1), (v.type() == boost::typeindex::type_id<T>().type_info()) == is, "type() disagrees with which() for alternative " << k);
            if (is) {
                CHECK(P(1) | P(7) | P(5), (const void*)p == addr && (const void*)cp == addr, "get and visitation give different objects");
                CHECK(P(1) | P(7), (const void*)std::addressof(boost::get<T>(v)) == addr && (const void*)std::addressof(boost::get<T>(cv)) == addr, "get<T>(v) gives a different object");
            }
        }
        static void thrown(V& v, int k) {
            bool threw = false;
            try { (void)boost::get<T>(v); } catch (const boost::bad_get&) { threw = true; }
            CHECK(P(1) | P(7), threw, "get<T" << k << ">(v) did not throw bad_get");
        }
        static int read(V& v) { return VT<T>::read(*boost::get<T>(&v)); }
        static unsigned serial(V& v) { return VT<T>::serial(*boost::get<T>(&v)); }
    };

    static Obs observe(V& v, int probe_k, bool readable) {
        const V& cv = v;
        Obs o; o.which = cv.which(); o.val = 0; o.serial = 0;
        CHECK(P(1), o.which >= 0 && o.which < N, "which() = " << o.which << " out of range");
        CHECK(P(1), !cv.empty(), "empty() returned true");
        Probe p; boost::apply_visitor(p, v);
        CHECK(P(1) | P(5), p.calls == 1, "visitor called " << p.calls << " times");
        CHECK(P(1) | P(5), p.idx == o.which, "visitation reached alternative " << p.idx << " but which() is " << o.which);
        CHECK(P(5), !p.cst, "non-const visitation passed a const reference");
        Probe q; boost::apply_visitor(q, cv);
        CHECK(P(1) | P(5), q.calls == 1 && q.idx == o.which && q.addr == p.addr, "const visitation disagrees: alternative " << q.idx << " vs " << o.which);
        CHECK(P(5), q.cst, "const visitation passed a non-const reference");
        o.addr = p.addr;
        int k = 0; int unused[] = { (G<typename Pub<E>::type>::agree(v, k, o.which, o.addr), ++k)... }; (void)unused;
        typedef void (*TF)(V&, int); static const TF tf[] = { &G<typename Pub<E>::type>::thrown... };
        if (probe_k >= 0 && probe_k != o.which) tf[probe_k](v, probe_k);
        if (readable || info(o.which).tracked) {
            typedef int (*RF)(V&); static const RF rf[] = { &G<typename Pub<E>::type>::read... };
            typedef unsigned (*SF)(V&); static const SF sf[] = { &G<typename Pub<E>::type>::serial... };
            o.val = rf[o.which](v); o.serial = sf[o.which](v);
        }
        return o;
    }

    // ------------------------------------------------------------- model
    struct M { bool alive; int which; int val; bool known; bool heapok; bool history; };

    struct Slot {
        void* base; void* mem; M m; unsigned serial;
        V& v() { return *static_cast<V*>(mem); }
    };

    Source& s; int emph; Slot sl[K];
    bool faulty; int n_cross, n_failed, n_steps;
    // exhaustive mode: after a short history, the last operation is run with
    // its k-th throwing point failing, for every k
    int enum_last; long enum_cd; bool enum_late; bool enum_fired;
    explicit Mach(Source& src, int e) : s(src), emph(e), faulty(false), n_cross(0), n_failed(0), n_steps(0), enum_last(-1), enum_cd(0), enum_late(false), enum_fired(false) {
        tk::reset();
        for (int i = 0; i < K; ++i) {
            // half of them aligned for V and not for more
            const size_t al = alignof(V), off = i & 1 ? al : 0; void* p = 0; if (posix_memalign(&p, 2 * al < sizeof(void*) ? sizeof(void*) : 2 * al, off + sizeof(V))) std::abort();
            sl[i].base = p; p = static_cast<char*>(p) + off;
            std::memset(p, 0xCB, sizeof(V));
            sl[i].mem = p; sl[i].m.alive = false; sl[i].serial = 0;
        }
    }
    ~Mach() {}

    // ------------------------------------------------------------- faults
    struct Res { bool failed; bool alloc; };
    template <class F> Res guarded(F f) {
        bool inject = faulty && s.chance(emph == E_FAULT ? 3 : 2, 5);
        int kinds = tk::K_ANY; long cd = 0; bool late = false;
        if (inject) {
            static const int ks[] = { tk::K_ANY, tk::K_COPY, tk::K_MOVE, tk::K_ALLOC, tk::K_CASSIGN | tk::K_MASSIGN, tk::K_COPY | tk::K_MOVE, tk::K_ANY, tk::K_ANY };
            kinds = ks[s.below(8)]; cd = 1 + s.below(6); late = s.below(4) == 3;
        }
        if (enum_last >= 0 && n_steps == enum_last) { inject = true; kinds = tk::K_ANY; cd = enum_cd; late = enum_late; }
        int tok = tk::st().token;
        Res r = { false, false };
        tk::arm(cd, kinds, late);
        try { f(); tk::disarm(); }
        catch (const tk::Injected& e) {
            tk::disarm(); r.failed = true;
            CHECK(P(3), e.token == tk::st().token && tk::st().token == tok + 1, "a different exception object reached the caller");
        }
        catch (const std::bad_alloc&) {
            tk::disarm(); r.failed = true; r.alloc = true;
            CHECK(P(3), tk::st().token == tok + 1 && tk::st().fired_kind == tk::K_ALLOC, "bad_alloc without a failed allocation");
        }
        catch (...) { tk::disarm(); pbt::fail(pbt::ALL, __FILE__, __LINE__, "operation threw something that no bounded type threw"); }
        if (tk::st().token != tok) {
            CHECK(P(3) | P(1), r.failed, "an exception thrown by a bounded type was swallowed");
            pbt::label("fault fired");
            if (enum_last >= 0 && n_steps == enum_last) enum_fired = true;
            TRACE("    -> failed (" << (r.alloc ? "allocation" : "bounded type") << ", point " << cd << ")");
        }
        return r;
    }

    int val() { int a = s.below(24); return a < 16 ? a : a < 20 ? a - 24 : 1000 + a; }
    int pick_alive() { int i = s.below(K); for (int k = 0; k < K; ++k) if (sl[(i + k) % K].m.alive) return (i + k) % K; return -1; }
    const Info& ci(int i) { return info(sl[i].m.which); }

    void destroy(int i) {
        if (!sl[i].m.alive) return;
        sl[i].v().~V(); sl[i].m.alive = false;
        CHECK(P(4) | P(1), tk::live_in(sl[i].mem, sizeof(V)) == 0, "content still alive after the variant's destructor");
        std::memset(sl[i].mem, 0xCB, sizeof(V));
    }
    void born(int i, int which, int v) { M m = { true, which, v, true, false, false }; sl[i].m = m; }
    void not_born(int i) {
        sl[i].m.alive = false;
        CHECK(P(4) | P(3), tk::live_in(sl[i].mem, sizeof(V)) == 0, "a failed construction left a live object behind");
        std::memset(sl[i].mem, 0xCB, sizeof(V));
    }

    // re-reads slot j after it was moved from: same alternative, old value or moved-from value
    void moved_from(int j, int other_val, bool other_ok) {
        Obs o = observe(sl[j].v(), -1, sl[j].m.known);
        M& m = sl[j].m;
        CHECK(P(2) | P(16), o.which == m.which, "source of a move changed its alternative from " << m.which << " to " << o.which);
        if (m.known) CHECK(P(2) | P(16), o.val == m.val || info(m.which).moved(o.val) || (other_ok && o.val == other_val), "source of a move holds " << o.val << ", held " << m.val);
        m.val = o.val;
    }

    void verify(int i, int k) {
        Slot& x = sl[i]; if (!x.m.alive) return;
        Obs o = observe(x.v(), k, x.m.known);
        CHECK(P(1) | P(2) | P(3) | P(15) | P(16) | P(23), o.which == x.m.which, "slot " << i << " holds alternative " << o.which << ", model " << x.m.which);
        if (x.m.known) CHECK(P(1) | P(2) | P(3) | P(4) | P(15) | P(16) | P(23), o.val == x.m.val, "slot " << i << " (alternative " << o.which << ") holds " << o.val << ", model " << x.m.val);
        const Info& t = info(o.which);
        bool inside = (const char*)o.addr >= (const char*)x.mem && (const char*)o.addr < (const char*)x.mem + sizeof(V);
        if (!t.wrapper && (!x.m.heapok || has_fallback() || t.ntcopy)) CHECK(P(19), inside, "content of slot " << i << " is not inside the variant");
        x.serial = o.serial;
    }
    void verify_all() { int k = s.below(N), z = s.below(K); for (int i = 0; i < K; ++i) verify(i, i == z ? k : -1); }

    // after a failed cross-type assignment: previous value, or a default
    // constructed nothrow-default-constructible alternative (blank preferred)
    void after_failed_assign(int i, int incoming, bool copy_like) {
        Obs o = observe(sl[i].v(), -1, false);
        M& m = sl[i].m;
        bool strong = info(incoming).ntcopy || info(incoming).ntmove;
        m.history = true; m.heapok = true;
        if (o.which == m.which) {
            if (m.known) {
                Obs o2 = observe(sl[i].v(), -1, true);
                bool fb = info(o.which).ntdef && !strong;
                CHECK(P(3) | P(1), o2.val == m.val || (fb && (!info(o.which).tracked || o2.val == info(o.which).defval)), "after a failed assignment the target holds " << o2.val << ", held " << m.val);
                if (o2.val != m.val) { m.val = o2.val; if (!info(o.which).tracked) m.known = false; }
            }
            pbt::label("failed assign: kept");
            return;
        }
        CHECK(P(3), !strong, "a failed assignment from a type that can be moved without throwing changed the target");
        CHECK(P(3) | P(1), info(o.which).ntdef, "after a failed assignment the target holds alternative " << o.which << ", which is neither its previous one nor nothrow default-constructible");
        bool anyblank = false; for (int k = 0; k < N; ++k) anyblank = anyblank || info(k).blank;
        if (anyblank) CHECK(P(3), info(o.which).blank, "boost::blank is a bounded type but the fallback taken was alternative " << o.which);
        m.which = o.which; m.known = info(o.which).tracked || info(o.which).blank || info(o.which).allocs;
        if (m.known) o = observe(sl[i].v(), -1, true);
        m.val = o.val;
        if (m.known) CHECK(P(3) | P(1), o.val == info(o.which).defval, "the fallback value is not a default-constructed one");
        (void)copy_like;
        pbt::label("failed assign: fallback");
    }

    // -------------------------------------------------------- typed operations
    template <class T, bool C> struct TO {   // C: copyable
        static void construct(Mach& m, int i, int k) {
            int v = VT<T>::canon(m.val()); int mode = m.s.below(3); Hold<T> h(v); void* p = m.sl[i].mem;
            TRACE("  slot" << i << " <- construct from " << (mode == 0 ? "const T&" : mode == 1 ? "T&" : "T&&") << " alternative " << k << " value " << v);
            long c0 = tk::st().n_copy, a0 = pbt::g_new_calls;
            Res r = m.guarded([&] {
                if (mode == 0) new (p) V(const_cast<const T&>(h.ref()));
                else if (mode == 1) new (p) V(h.ref());
                else new (p) V(std::move(h.ref()));
            });
            if (mode != 2) CHECK(P(2) | P(3), VT<T>::read(h.ref()) == v, "the operand of a converting construction was modified");
            else if (!info(k).allocs && VT<T>::movable) CHECK(P(16), tk::st().n_copy == c0, "construction from an rvalue copied it");
            if (!info(k).allocs) CHECK(P(19), pbt::g_new_calls == a0, "construction used the heap");
            if (r.failed) m.not_born(i); else m.born(i, k, v);
        }
        static void assign(Mach& m, int i, int k) {
            int v = VT<T>::canon(m.val()); int mode = m.s.below(3); Hold<T> h(v); V& x = m.sl[i].v(); M& md = m.sl[i].m;
            bool same = md.which == k;
            TRACE("  slot" << i << " = " << (mode == 0 ? "const T&" : mode == 1 ? "T&" : "T&&") << " alternative " << k << " value " << v << (same ? " (same type)" : " (holds alternative " + std::to_string(md.which) + ")"));
            long c0 = tk::st().n_copy, ca0 = tk::st().n_cassign, a0 = pbt::g_new_calls; V* ret = 0;
            Res r = m.guarded([&] {
                if (mode == 0) ret = &(x = const_cast<const T&>(h.ref()));
                else if (mode == 1) ret = &(x = h.ref());
                else ret = &(x = std::move(h.ref()));
            });
            if (mode != 2) CHECK(P(2) | P(3), VT<T>::read(h.ref()) == v, "the operand of an assignment was modified");
            m.assigned(i, k, v, same, r, mode == 2, c0, ca0, a0);
            if (!r.failed) CHECK(P(2), ret == &x, "assignment did not return *this");
        }
        static void assign_content(Mach& m, int i, int j) {   // slot i = get<T>(slot j)
            V& x = m.sl[i].v(); T& t = boost::get<T>(m.sl[j].v()); int v = m.sl[j].m.val; int k = m.sl[j].m.which; bool same = m.sl[i].m.which == k;
            TRACE("  slot" << i << " = get<T" << k << ">(slot" << j << ") value " << v);
            long c0 = tk::st().n_copy, ca0 = tk::st().n_cassign, a0 = pbt::g_new_calls;
            Res r = m.guarded([&] { x = const_cast<const T&>(t); });
            m.assigned(i, k, v, same, r, false, c0, ca0, a0);
        }
        static void mutate(Mach& m, int i, int k) { TO<T, false>::mutate(m, i, k); }
    };
    template <class T> struct TO<T, false> {
        static void construct(Mach& m, int i, int k) {
            int v = VT<T>::canon(m.val()); Hold<T> h(v); void* p = m.sl[i].mem;
            TRACE("  slot" << i << " <- construct from T&& alternative " << k << " value " << v);
            Res r = m.guarded([&] { new (p) V(std::move(h.ref())); });
            if (r.failed) m.not_born(i); else m.born(i, k, v);
        }
        static void assign(Mach& m, int i, int k) {
            int v = VT<T>::canon(m.val()); Hold<T> h(v); V& x = m.sl[i].v(); M& md = m.sl[i].m; bool same = md.which == k;
            TRACE("  slot" << i << " = T&& alternative " << k << " value " << v << (same ? " (same type)" : ""));
            long c0 = tk::st().n_copy, ca0 = tk::st().n_cassign, a0 = pbt::g_new_calls;
            Res r = m.guarded([&] { x = std::move(h.ref()); });
            m.assigned(i, k, v, same, r, true, c0, ca0, a0);
        }
        static void assign_content(Mach&, int, int) {}
        struct Setter : boost::static_visitor<void> { int v; explicit Setter(int a) : v(a) {} template <class U> void operator()(U& u) const { VT<U>::set(u, v); } };
        static void mutate(Mach& m, int i, int k) {
            int v = VT<T>::canon(m.val()); V& x = m.sl[i].v(); int how = m.s.below(4);
            TRACE("  mutate slot" << i << " to " << v << " through " << (how == 0 ? "get<T>(v)" : how == 1 ? "get<T>(&v)" : how == 2 ? "visitor" : "relaxed_get"));
            if (how == 0) VT<T>::set(boost::get<T>(x), v);
            else if (how == 1) VT<T>::set(*boost::get<T>(&x), v);
            else if (how == 2) { Setter st(v); boost::apply_visitor(st, x); }
            else VT<T>::set(boost::relaxed_get<T>(x), v);
            m.sl[i].m.val = v; m.sl[i].m.known = true; (void)k;
        }
    };

    // common oracle for an assignment of value v of alternative k into slot i
    void assigned(int i, int k, int v, bool same, const Res& r, bool rvalue, long c0, long ca0, long a0) {
        M& md = sl[i].m;
        if (!same) ++n_cross;
        if (!r.failed) {
            bool hist = md.history;
            md.which = k; md.val = v; md.known = true;
            if (!same) { md.heapok = false; md.history = false; }
            if (same && !hist && info(k).tracked && !info(k).wrapper) {
                Obs o = observe(sl[i].v(), -1, true);
                CHECK(P(2), o.serial == sl[i].serial, "assignment of the contained type replaced the content instead of assigning to it");
            }
            if (rvalue && info(k).movable && info(k).tracked && (same || info(k).ntmove || (has_fallback() && !info(k).ntcopy)))
                CHECK(P(16), tk::st().n_copy == c0 && tk::st().n_cassign == ca0, "assignment from an rvalue copied it");
            if (!allocating() && (has_fallback() || (info(k).ntcopy))) CHECK(P(19), pbt::g_new_calls == a0, "assignment used the heap");
        } else {
            ++n_failed;
            if (same) {
                Obs o = observe(sl[i].v(), -1, md.known);
                CHECK(P(3) | P(1), o.which == k, "a failed same-type assignment changed the alternative");
                if (md.known) CHECK(P(3) | P(1), o.val == md.val || o.val == v || (info(k).moved(o.val) && rvalue), "a failed same-type assignment left " << o.val);
                md.val = o.val; md.history = true; md.heapok = true;
            } else after_failed_assign(i, k, !rvalue);
        }
    }

    typedef void (*OpF)(Mach&, int, int);
    static void t_construct(Mach& m, int i, int k) { static const OpF f[] = { &TO<typename Pub<E>::type, VT<typename Pub<E>::type>::copyable != 0>::construct... }; f[k](m, i, k); }
    static void t_assign(Mach& m, int i, int k) { static const OpF f[] = { &TO<typename Pub<E>::type, VT<typename Pub<E>::type>::copyable != 0>::assign... }; f[k](m, i, k); }
    static void t_mutate(Mach& m, int i, int k) { static const OpF f[] = { &TO<typename Pub<E>::type, VT<typename Pub<E>::type>::copyable != 0>::mutate... }; f[k](m, i, k); }
    static void t_assign_content(Mach& m, int i, int j) { static const OpF f[] = { &TO<typename Pub<E>::type, VT<typename Pub<E>::type>::copyable != 0>::assign_content... }; f[m.sl[j].m.which](m, i, j); }

    // ------------------------------------------------------ untyped operations
    void default_construct(int i) {
        void* p = sl[i].mem; TRACE("  slot" << i << " <- default construct");
        long a0 = pbt::g_new_calls;
        Res r = guarded([&] { new (p) V(); });
        if (!info(0).allocs) CHECK(P(19), pbt::g_new_calls == a0, "default construction used the heap");
        if (r.failed) not_born(i); else born(i, 0, info(0).defval);
    }
    template <bool C, class Dummy = void> struct VO {
        static void copy_construct(Mach& m, int i, int j) {
            void* p = m.sl[i].mem; V& src = m.sl[j].v(); int mode = m.s.below(2);
            TRACE("  slot" << i << " <- copy of slot" << j << (mode ? " (non-const)" : ""));
            long a0 = pbt::g_new_calls;
            Res r = m.guarded([&] { if (mode) new (p) V(src); else new (p) V(const_cast<const V&>(src)); });
            if (!m.ci(j).allocs) CHECK(P(19), pbt::g_new_calls == a0, "copy construction used the heap");
            if (r.failed) m.not_born(i); else { m.born(i, m.sl[j].m.which, m.sl[j].m.val); m.sl[i].m.known = m.sl[j].m.known; }
        }
        static void copy_assign(Mach& m, int i, int j) {
            V& x = m.sl[i].v(); V& y = m.sl[j].v(); M b = m.sl[j].m; bool same = m.sl[i].m.which == b.which; int mode = m.s.below(2); V* ret = 0;
            TRACE("  slot" << i << " = slot" << j << (i == j ? " (self)" : "") << (mode ? " (non-const)" : ""));
            long c0 = tk::st().n_copy, ca0 = tk::st().n_cassign, a0 = pbt::g_new_calls;
            bool hist = m.sl[i].m.history || b.history;
            m.sl[i].m.history = hist;
            Res r = m.guarded([&] { if (mode) ret = &(x = y); else ret = &(x = const_cast<const V&>(y)); });
            if (!r.failed) CHECK(P(2), ret == &x, "assignment did not return *this");
            if (i == j) {
                if (r.failed) { Obs o = observe(x, -1, b.known); CHECK(P(3) | P(23), o.which == b.which && (!b.known || o.val == b.val), "a failed self-assignment changed the value"); m.sl[i].m.history = m.sl[i].m.heapok = true; ++m.n_failed; }
                return;
            }
            bool kn = b.known;
            m.assigned(i, b.which, b.val, same, r, false, c0, ca0, a0);
            if (!r.failed && !kn) m.sl[i].m.known = false;
        }
    };
    template <class Dummy> struct VO<false, Dummy> { static void copy_construct(Mach& m, int i, int j) { m.move_construct(i, j); } static void copy_assign(Mach& m, int i, int j) { m.move_assign(i, j); } };

    void move_construct(int i, int j) {
        void* p = sl[i].mem; V& src = sl[j].v(); M b = sl[j].m;
        TRACE("  slot" << i << " <- move of slot" << j);
        long c0 = tk::st().n_copy, a0 = pbt::g_new_calls;
        Res r = guarded([&] { new (p) V(std::move(src)); });
        if (info(b.which).movable) CHECK(P(16), tk::st().n_copy == c0, "move construction copied the content");
        if (!ci(j).allocs) CHECK(P(19), pbt::g_new_calls == a0, "move construction used the heap");
        if (r.failed) {
            not_born(i); ++n_failed;
            Obs o = observe(src, -1, b.known); CHECK(P(3), o.which == b.which && (!b.known || o.val == b.val || info(b.which).moved(o.val)), "a failed move construction changed its source"); if (b.known) sl[j].m.val = o.val;
        } else { born(i, b.which, b.val); sl[i].m.known = b.known; moved_from(j, 0, false); }
    }
    void move_assign(int i, int j) {
        V& x = sl[i].v(); V& y = sl[j].v(); M a = sl[i].m, b = sl[j].m; bool same = a.which == b.which; V* ret = 0;
        TRACE("  slot" << i << " = move(slot" << j << ")" << (i == j ? " (self)" : ""));
        long c0 = tk::st().n_copy, ca0 = tk::st().n_cassign, a0 = pbt::g_new_calls;
        sl[i].m.history = a.history || b.history;
        Res r = guarded([&] { ret = &(x = std::move(y)); });
        if (!r.failed) CHECK(P(2), ret == &x, "move assignment did not return *this");
        if (i == j) {
            Obs o = observe(x, -1, b.known);
            CHECK(P(23) | P(2), o.which == b.which, "self move assignment changed the alternative");
            if (b.known && info(b.which).tracked) CHECK(P(23) | P(2), o.val == b.val || o.val == tk::MOVED, "self move assignment left " << o.val);
            if (b.known) sl[i].m.val = o.val;
            if (r.failed) sl[i].m.history = sl[i].m.heapok = true;
            return;
        }
        assigned(i, b.which, b.val, same, r, !(a.history || b.history), c0, ca0, a0);
        if (!r.failed) { if (!b.known) sl[i].m.known = false; moved_from(j, a.val, info(b.which).wrapper && same); }
        else {
            Obs o = observe(y, -1, b.known); CHECK(P(3), o.which == b.which, "a failed move assignment changed its source's alternative");
            if (b.known) CHECK(P(3), o.val == b.val || info(b.which).moved(o.val), "a failed move assignment changed its source to " << o.val);
            if (b.known) sl[j].m.val = o.val;
        }
    }
    void do_swap(int i, int j) {
        V& x = sl[i].v(); V& y = sl[j].v(); M a = sl[i].m, b = sl[j].m; int how = s.below(3);
        TRACE("  swap(slot" << i << ", slot" << j << ") " << (how == 0 ? "member" : how == 1 ? "ADL" : "std-or-ADL"));
        long c0 = tk::st().n_copy, ca0 = tk::st().n_cassign, a0 = pbt::g_new_calls, all0 = c0 + ca0 + tk::st().n_move + tk::st().n_massign, sw0 = tk::st().n_swap;
        Res r = guarded([&] { if (how == 0) x.swap(y); else if (how == 1) boost::swap(x, y); else { using std::swap; swap(x, y); } });
        if (a.which != b.which) ++n_cross;
        if (i != j && a.which == b.which && info(a.which).swaps) {
            CHECK(P(15), !r.failed, "swap of contents that have a swap of their own failed");
            CHECK(P(15), tk::st().n_swap == sw0 + 1 && tk::st().n_copy + tk::st().n_cassign + tk::st().n_move + tk::st().n_massign == all0, "swap of contents that have a swap of their own did not use it");
        }
        if (!r.failed) {
            if (i == j) { Obs o = observe(x, -1, a.known); CHECK(P(15) | P(23) | P(2), o.which == a.which && (!a.known || o.val == a.val || (info(a.which).tracked && o.val == tk::MOVED)), "swap with itself changed the value"); if (a.known) sl[i].m.val = o.val; return; }
            std::swap(sl[i].m.which, sl[j].m.which); std::swap(sl[i].m.val, sl[j].m.val); std::swap(sl[i].m.known, sl[j].m.known);
            if (a.which != b.which) { sl[i].m.heapok = sl[j].m.heapok = false; sl[i].m.history = sl[j].m.history = false; }
            if (!a.history && !b.history && info(a.which).movable && info(b.which).movable && info(a.which).tracked && info(b.which).tracked && (a.which == b.which || (info(a.which).ntmove && info(b.which).ntmove) || (has_fallback() && (info(a.which).ntmove || !info(a.which).ntcopy) && (info(b.which).ntmove || !info(b.which).ntcopy))) && !info(a.which).wrapper && !info(b.which).wrapper)
                CHECK(P(16), tk::st().n_copy == c0 && tk::st().n_cassign == ca0, "swap of movable contents copied them");
            if (!allocating() && has_fallback()) CHECK(P(19), pbt::g_new_calls == a0, "swap used the heap");
        } else {
            ++n_failed;
            for (int q = 0; q < 2; ++q) {
                int z = q ? j : i; M& md = sl[z].m; Obs o = observe(sl[z].v(), -1, false);
                CHECK(P(3) | P(1) | P(15), o.which == a.which || o.which == b.which || info(o.which).ntdef, "after a failed swap a variant holds alternative " << o.which << " that neither operand held");
                bool readable = (a.known && b.known) || info(o.which).tracked;
                if ((o.which != a.which && o.which != b.which) || info(o.which).ntdef) readable = info(o.which).tracked;
                if (readable) {
                    Obs o2 = observe(sl[z].v(), -1, true);
                    bool ok = (o2.which == a.which && o2.val == a.val) || (o2.which == b.which && o2.val == b.val) || info(o2.which).moved(o2.val) || (info(o2.which).ntdef && o2.val == info(o2.which).defval);
                    CHECK(P(3) | P(1) | P(15), ok, "after a failed swap a variant holds the value " << o2.val << " that neither operand held");
                    o = o2;
                }
                md.which = o.which; md.val = o.val; md.known = readable; md.history = md.heapok = true;
            }
        }
    }
    template <bool C, class D = void> struct Cont {
        static void go(Mach& m) {   // std::vector of variants: growth, insertion, erasure
            std::vector<V> c; std::vector<M> md; int n = 1 + m.s.below(6);
            TRACE("  std::vector round trip of " << n);
            for (int q = 0; q < n; ++q) {
                int j = m.pick_alive(); if (j < 0) return; if (!m.sl[j].m.known) continue;
                if (m.s.flip() || c.empty()) { c.push_back(m.sl[j].v()); md.push_back(m.sl[j].m); }
                else { size_t at = m.s.below((uint32_t)c.size()); c.insert(c.begin() + at, m.sl[j].v()); md.insert(md.begin() + at, m.sl[j].m); }
                if (m.s.below(5) == 4) { size_t at = m.s.below((uint32_t)c.size()); c.erase(c.begin() + at); md.erase(md.begin() + at); }
            }
            for (size_t q = 0; q < c.size(); ++q) { Obs o = observe(c[q], -1, true); CHECK(P(2), o.which == md[q].which && o.val == md[q].val, "element " << q << " of a std::vector of variants holds (" << o.which << "," << o.val << "), expected (" << md[q].which << "," << md[q].val << ")"); }
        }
    };
    template <class D> struct Cont<false, D> { static void go(Mach&) {} };

    void run() {
        CHECK(P(16), !std::is_nothrow_move_constructible<V>::value || AllTrue<(VT<typename Pub<E>::type>::ntmove && !Pub<E>::wrapper)...>::value, "the variant claims a nothrow move constructor but a bounded type may throw when moved");
        CHECK(P(3), !std::is_nothrow_default_constructible<V>::value || info(0).ntdef, "the variant claims a nothrow default constructor but its first bounded type may throw");
        CHECK(P(16), !std::is_nothrow_move_assignable<V>::value || AllTrue<(VT<typename Pub<E>::type>::ntmove && VT<typename Pub<E>::type>::ntma && !Pub<E>::wrapper)...>::value, "the variant claims a nothrow move assignment but a bounded type may throw when moved or move-assigned");
        faulty = emph == E_FAULT ? true : s.below(5) >= 2;
        int max = emph == E_ENUM ? enum_last : 50;
        // at least two populated slots
        for (int i = 0; i < 2 || (i < K && s.flip()); ++i) if (i < K) { bool f = faulty; faulty = false; t_construct(*this, i, s.below(N)); faulty = f; if (i >= K - 1) break; }
        verify_all();
        while ((s.more() || emph == E_ENUM) && n_steps < max) {
            ++n_steps;
            static const uint8_t tab[6][20] = {
                { 0,1,1,2,2,3,4,4,4,5,5,6,6,6,7,8,9,10,11,6 },      // general
                { 1,2,3,4,4,4,4,5,5,5,6,6,6,6,7,7,8,9,10,0 },        // fault
                { 1,7,7,7,7,7,7,7,6,4,8,7,7,10,5,7,2,7,7,7 },        // swap
                { 1,3,3,3,5,5,5,5,6,6,3,7,7,8,10,11,5,3,5,9 },       // move
                { 1,12,12,12,13,13,13,12,9,9,9,4,5,6,8,7,14,14,9,12 },      // self
                { 1,2,3,4,4,4,4,5,5,5,6,6,6,6,7,7,7,9,5,0 } };             // enum
            int op = tab[emph][s.below(20)];
            int i = s.below(K), j;
            if (op <= 3) {
                if (op == 2 || op == 3) { j = pick_alive(); if (j < 0) { t_construct(*this, i, s.below(N)); verify_all(); continue; } if (j == i) i = (i + 1) % K; }
                destroy(i);
                switch (op) { case 0: default_construct(i); break; case 1: t_construct(*this, i, s.below(N)); break;
                    case 2: VO<copyable()>::copy_construct(*this, i, j); break; default: move_construct(i, j); }
            } else {
                i = pick_alive(); j = pick_alive();
                if (i < 0) { bool f = faulty; faulty = false; t_construct(*this, 0, s.below(N)); faulty = f; verify_all(); continue; }
                switch (op) {
                case 4: VO<copyable()>::copy_assign(*this, i, j); break;
                case 5: if (i != j) move_assign(i, j); break;
                case 6: t_assign(*this, i, s.below(N)); break;
                case 7: do_swap(i, j); break;
                case 8: if (sl[i].m.which >= 0) t_mutate(*this, i, sl[i].m.which); break;
                case 9: if (sl[j].m.known) t_assign_content(*this, i, j); break;
                case 10: { int z = s.below(K); if (z != i) { TRACE("  destroy slot" << z); destroy(z); } break; }
                case 11: if (alignof(V) <= 16) Cont<copyable()>::go(*this); break;
                case 12: VO<copyable()>::copy_assign(*this, i, i); break;
                case 13: move_assign(i, i); break;
                case 14: do_swap(i, i); break;
                }
            }
            verify_all();
        }
        for (int i = 0; i < K; ++i) { destroy(i); std::free(sl[i].base); }
        CHECK(P(4), tk::st().n == 0, tk::st().n << " bounded object(s) never destroyed");
        if (n_failed) pbt::label("case with a failed operation");
        if (n_cross) pbt::label("case with a cross-type change");
        bool nt = emph == E_FAULT || emph == E_ENUM ? n_failed > 0 : n_cross > 0;
        if (nt) pbt::nontrivial();
    }
};

template <class MachT, int Em> void run_case(pbt::Source& s) { MachT m(s, Em); TRACE("variant of " << int(MachT::N) << " alternatives"); m.run(); }

template <class MachT> void run_enum(pbt::Source& s) {
    int last = 1 + s.below(4); bool late = s.below(4) == 3;
    for (long cd = 1; cd < 40; ++cd) {
        pbt::Source s2(s); MachT m(s2, E_ENUM);
        m.enum_last = last; m.enum_cd = cd; m.enum_late = late;
        TRACE("variant of " << int(MachT::N) << " alternatives, operation " << last << " fails at point " << cd);
        m.run();
        if (!m.enum_fired) { s = s2; break; }
        pbt::label("fault point enumerated");
    }
}

} // namespace core

#define CORE_PROPS (P(1) | P(2) | P(3) | P(4) | P(15) | P(16) | P(19) | P(23))
#define CORE_CASES(tag, ...) \
    typedef core::Mach<__VA_ARGS__> tag##_M; \
    static void tag##_general(pbt::Source& s) { core::run_case<tag##_M, core::E_GENERAL>(s); } \
    static void tag##_fault(pbt::Source& s) { core::run_case<tag##_M, core::E_FAULT>(s); } \
    static void tag##_swap(pbt::Source& s) { core::run_case<tag##_M, core::E_SWAP>(s); } \
    static void tag##_move(pbt::Source& s) { core::run_case<tag##_M, core::E_MOVE>(s); } \
    static void tag##_self(pbt::Source& s) { core::run_case<tag##_M, core::E_SELF>(s); } \
    static void tag##_enum(pbt::Source& s) { core::run_enum<tag##_M>(s); } \
    PBT_CASE(#tag ".enum", tag##_enum, 6, pbt::P(1) | pbt::P(3) | pbt::P(4) | pbt::P(15)); \
    PBT_CASE(#tag ".general", tag##_general, 10, pbt::P(1) | pbt::P(2) | pbt::P(4) | pbt::P(5) | pbt::P(7) | pbt::P(16) | pbt::P(19) | pbt::P(20)); \
    PBT_CASE(#tag ".fault", tag##_fault, 10, pbt::P(1) | pbt::P(3) | pbt::P(4) | pbt::P(19) | pbt::P(20)); \
    PBT_CASE(#tag ".swap", tag##_swap, 6, pbt::P(15) | pbt::P(3) | pbt::P(4) | pbt::P(2)); \
    PBT_CASE(#tag ".move", tag##_move, 6, pbt::P(16) | pbt::P(4)); \
    PBT_CASE(#tag ".self", tag##_self, 6, pbt::P(23) | pbt::P(4))
#endif
