// C09: comparison.  Oracle: (alternative, value) pairs compared by the model.
#include "ops.hpp"
#include <algorithm>
#include <set>
#include <map>
#include <functional>
namespace cm {
using pbt::P; using pbt::Source; using namespace ops;
template <class V, class... E> struct Runner {
    typedef Builder<V, E...> BD; typedef Models<E...> M; typedef Var<V, BD> X;
    static bool eq(int k, int a, int l, int b) { return k == l && M::eq(k, a, b); }
    static bool lt(int k, int a, int l, int b) { return k != l ? k < l : M::lt(k, a, b); }
    template <class F> static void one(F f, const char* name, bool want, bool swapped, char op, X& x, X& y) {
        lg().n = 0; bool got = f(x.cv(), y.cv());
        CHECK(P(9), got == want, "x " << name << " y is " << got << " for (" << x.k << "," << x.val << ") and (" << y.k << "," << y.val << ")");
        int n = x.k == y.k ? M::logged(x.k) : 0;
        CHECK(P(9), lg().n <= n, name << " called the content's operators " << lg().n << " times");
        if (lg().n) {
            const void* a = swapped ? y.addr() : x.addr(); const void* b = swapped ? x.addr() : y.addr();
            CHECK(P(9), lg().op == op && lg().a == a && lg().b == b, name << " called the wrong operator or passed other objects than the contents in order");
        }
    }
    static void pair(Source& s, X& x, X& y) {
        bool e = eq(x.k, x.val, y.k, y.val), l = lt(x.k, x.val, y.k, y.val), g = lt(y.k, y.val, x.k, x.val);
        TRACE("  compare (" << x.k << "," << x.val << " " << x.how << ") with (" << y.k << "," << y.val << " " << y.how << ")");
        one([](const V& a, const V& b) { return a == b; }, "==", e, false, '=', x, y);
        one([](const V& a, const V& b) { return a != b; }, "!=", !e, false, '=', x, y);
        one([](const V& a, const V& b) { return a < b; }, "<", l, false, '<', x, y);
        one([](const V& a, const V& b) { return a > b; }, ">", g, true, '<', x, y);
        one([](const V& a, const V& b) { return a <= b; }, "<=", !g, true, '<', x, y);
        one([](const V& a, const V& b) { return a >= b; }, ">=", !l, false, '<', x, y);
        if (s.below(4) == 0) {
            one([](const V& a, const V& b) { return std::equal_to<V>()(a, b); }, "equal_to", e, false, '=', x, y);
            one([](const V& a, const V& b) { return std::less<V>()(a, b); }, "less", l, false, '<', x, y);
            one([](const V& a, const V& b) { return std::greater_equal<V>()(a, b); }, "greater_equal", !l, false, '<', x, y);
        }
        if (x.k == y.k && M::logged(x.k) && s.below(3) == 0) {
            int w = s.below(6); bool threw = false;
            tk::arm(1, K_CMP, false); int tok = tk::st().token + 1;
            try { switch (w) { case 0: (void)(x.cv() == y.cv()); break; case 1: (void)(x.cv() != y.cv()); break; case 2: (void)(x.cv() < y.cv()); break; case 3: (void)(x.cv() > y.cv()); break; case 4: (void)(x.cv() <= y.cv()); break; default: (void)(x.cv() >= y.cv()); } }
            catch (const tk::Injected& i) { threw = i.token == tok; }
            tk::disarm();
            CHECK(P(9), threw, "the exception of the content's operator did not propagate");
            pbt::label("throwing comparison");
        }
        CHECK(P(9), x.intact() && y.intact(), "comparison changed an operand");
        if (x.k == y.k) pbt::nontrivial();
        pbt::label(x.k == y.k ? (e ? "equal" : "same alternative") : "different alternatives");
    }
    static void pairs(Source& s) {
        tk::reset(); int n = 0;
        do {
            int k = s.below(sizeof...(E)), v = some_val(s); X x(s, k, v);
            int l = s.below(3) ? k : s.below(sizeof...(E)), w = s.below(3) ? v + (int)s.below(5) - 2 : some_val(s); X y(s, l, w);
            pair(s, x, y); if (s.below(4) == 0) pair(s, x, x); if (s.below(3) == 0) pair(s, y, x);
        } while (s.more() && ++n < 12);
    }
    // only when every bounded type is strictly weakly ordered
    static void ordered(Source& s) {
        tk::reset();
        struct It { int k, v, i; bool operator<(const It& o) const { return lt(k, v, o.k, o.v); } };
        std::vector<It> m; std::vector<V> a; int n = 2 + s.below(14);
        for (int i = 0; i < n; ++i) { int k = s.below(sizeof...(E)); It it = { k, BD::canon(k, some_val(s)), i }; m.push_back(it); X x(s, k, it.v); a.push_back(x.cv()); }
        std::vector<It> m0(m);
        std::stable_sort(m.begin(), m.end()); std::set<V> st(a.begin(), a.end()); std::set<It> ms(m0.begin(), m0.end());
        CHECK(P(9), st.size() == ms.size(), "std::set of variants has " << st.size() << " elements, expected " << ms.size());
        typename std::set<It>::iterator q = ms.begin();
        for (typename std::set<V>::iterator p = st.begin(); p != st.end(); ++p, ++q) CHECK(P(9), p->which() == q->k && BD::read(*p) == q->v, "std::set order");
        for (int i = 0; i < n; ++i) { CHECK(P(9), st.count(a[i]) == 1, "find in std::set"); CHECK(P(9), (std::find(a.begin(), a.end(), a[i]) - a.begin()) <= i, "std::find"); }
        std::stable_sort(a.begin(), a.end());
        for (int i = 0; i < n; ++i) { TRACE("  sorted " << i << " (" << m[i].k << "," << m[i].v << ")"); CHECK(P(9), a[i].which() == m[i].k && BD::read(a[i]) == m[i].v, "stable_sort of variants differs from the sorted model at " << i); }
        if (n > 2) pbt::nontrivial();
        pbt::label("container");
    }
};
}
#define CMP_CASES(tag, ordered_w, ...) \
    static void tag##_p(pbt::Source& s) { cm::Runner<boost::variant<__VA_ARGS__>, __VA_ARGS__>::pairs(s); } \
    static void tag##_o(pbt::Source& s) { cm::Runner<boost::variant<__VA_ARGS__>, __VA_ARGS__>::ordered(s); } \
    PBT_CASE(#tag ".pairs", tag##_p, 10, pbt::P(9)); PBT_CASE(#tag ".order", tag##_o, ordered_w, pbt::P(9))
using namespace ops;
