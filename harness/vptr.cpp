// C22: visitor_ptr adapters.
#include "state.hpp"
#include <boost/variant/visitor_ptr.hpp>
#include <boost/variant/apply_visitor.hpp>

namespace vp {
using pbt::P; using pbt::Source; using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef boost::recursive_wrapper<CM<3, NTMOVE> > W3; typedef CM<3, NTMOVE> A3;
typedef boost::variant<A1, int, A2, std::string, W3, long> V; typedef Builder<V, A1, int, A2, std::string, W3, long> B;
struct Seen { int calls, val; const void* addr; int salt; int tok; bool set; int newval; };
inline Seen& seen() { static Seen s; return s; }
struct Tok { int n; };
template <class T> int note(const T& t, const void* addr) { Seen& s = seen(); ++s.calls; s.val = VT<T>::read(t); s.addr = addr; if (s.tok) { Tok k = { s.tok }; throw k; } return s.val * 3 + s.salt; }
// parameter kinds x result kinds
template <class T> int by_val(T t) { return note<T>(t, 0); }
template <class T> int by_ref(T& t) { int r = note<T>(t, std::addressof(t)); if (seen().set) VT<T>::set(t, seen().newval); return r; }
template <class T> int by_cref(const T& t) { return note<T>(t, std::addressof(t)); }
template <class T> void v_ref(T& t) { note<T>(t, std::addressof(t)); }
template <class T> std::string s_cref(const T& t) { return std::to_string(note<T>(t, std::addressof(t))); }
inline int& cell() { static int c; return c; }
template <class T> int& r_cref(const T& t) { cell() = note<T>(t, std::addressof(t)); return cell(); }
}
template <> struct VT<long> : VTPod<long> {
    static void construct(void* p, int v) { new (p) long(v); } static int canon(int v) { return v; } static int read(const long& t) { return (int)t; } static void set(long& t, int v) { t = v; } static int defval() { return 0; }
};
namespace vp {
template <class T> struct One {
    static void go(Source& s, V& x, int idx, bool is, int val, const void* addr) {
        Seen& sn = seen(); std::memset(&sn, 0, sizeof sn); sn.salt = s.below(50); sn.tok = s.chance(1, 8) ? 4 : 0;
        const V& cx = x; int form = s.below(10); bool threw = false, tthrew = false, hasr = true, byaddr = true; int r = 0;
        TRACE("    visitor_ptr form " << form << " for alternative " << idx << (is ? " (held)" : "") << (sn.tok ? " throwing" : ""));
        try { switch (form) {
        case 0: { byaddr = false; auto v = boost::visitor_ptr(&by_val<T>); r = boost::apply_visitor(v, x); break; }
        case 1: { byaddr = false; r = boost::apply_visitor(boost::visitor_ptr(&by_val<T>), cx); break; }
        case 2: { auto v = boost::visitor_ptr(&by_ref<T>); r = boost::apply_visitor(v, x); break; }
        case 3: { auto v = boost::visitor_ptr(&by_cref<T>); r = boost::apply_visitor(v, x); break; }
        case 4: { auto v = boost::visitor_ptr(&by_cref<T>); auto w = v; r = boost::apply_visitor(w, cx); break; }
        case 5: { hasr = false; boost::apply_visitor(boost::visitor_ptr(&v_ref<T>), x); break; }
        case 6: { r = std::atoi(boost::apply_visitor(boost::visitor_ptr(&s_cref<T>), x).c_str()); break; }
        case 7: { auto v = boost::visitor_ptr(&r_cref<T>); int& q = boost::apply_visitor(v, cx); CHECK(P(22), &q == &cell(), "the reference result is a different object"); r = q; break; }
        case 8: { boost::visitor_ptr_t<T&, int> v(&by_ref<T>); r = boost::apply_visitor(v)(x); break; }
        default: { sn.set = !sn.tok; sn.newval = VT<T>::canon(val + 5); boost::visitor_ptr_t<T&, int> v = boost::visitor_ptr(&by_ref<T>); r = boost::apply_visitor(v, x); break; }
        } } catch (const boost::bad_visit& e) { threw = true; CHECK(P(22), e.what() && *e.what(), "bad_visit has no text"); const std::exception& se = e; (void)se; }
        catch (const Tok& t) { tthrew = true; CHECK(P(22), t.n == sn.tok, "wrong exception"); }
        CHECK(P(22), threw == !is, (is ? "bad_visit thrown for the held type" : "no bad_visit for another type"));
        CHECK(P(22), sn.calls == (is ? 1 : 0), "function called " << sn.calls << " times");
        if (is) {
            CHECK(P(22), sn.val == val, "function saw value " << sn.val << ", held " << val);
            if (byaddr) CHECK(P(22), sn.addr == addr, "function was given a different object");
            CHECK(P(22), tthrew == (sn.tok != 0), "exception of the function lost");
            if (hasr && !sn.tok) CHECK(P(22), r == val * 3 + sn.salt, "result " << r);
            if (sn.set) { CHECK(P(22), VT<T>::read(*boost::get<T>(&x)) == sn.newval, "a change through the reference parameter was lost"); VT<T>::set(*boost::get<T>(&x), val); }
            pbt::nontrivial();
        }
        CHECK(P(22), B::read(x) == val, "visitor_ptr changed the variant");
    }
};
static void run(Source& s) {
    tk::reset(); int n = 0;
    do {
        int k = s.below(6); Var<V, B> w(s, k, some_val(s));
        TRACE("  variant holds alternative " << k << " value " << w.val << " (" << w.how << ")");
        for (int i = 1 + s.below(3); i > 0; --i) {
            int j = s.flip() ? k : (int)s.below(6); const void* a = w.addr();
            switch (j) { case 0: One<A1>::go(s, w.v(), 0, k == 0, w.val, a); break; case 1: One<int>::go(s, w.v(), 1, k == 1, w.val, a); break; case 2: One<A2>::go(s, w.v(), 2, k == 2, w.val, a); break;
                case 3: One<std::string>::go(s, w.v(), 3, k == 3, w.val, a); break; case 4: One<A3>::go(s, w.v(), 4, k == 4, w.val, a); break; default: One<long>::go(s, w.v(), 5, k == 5, w.val, a); }
            CHECK(P(22) | P(1), w.intact(), "visitor_ptr changed the variant");
        }
    } while (s.more() && ++n < 10);
    CHECK(P(4), tk::st().n == 0, "objects leaked");
}
}
static void vptr_run(pbt::Source& s) { vp::run(s); }
PBT_CASE("vptr", vptr_run, 10, pbt::P(22));
