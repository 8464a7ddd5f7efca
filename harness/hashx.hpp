// C10: hashing.  Oracle: hash is a function of (alternative, value), computed
// from one call of the content's own hash, and spreads over both.
#include "ops.hpp"
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <boost/unordered_set.hpp>
namespace hx {
using pbt::P; using pbt::Source; using namespace ops;
template <class V, class... E> struct Runner {
    typedef Builder<V, E...> BD; typedef Models<E...> M; typedef Var<V, BD> X;
    struct H { std::size_t b, s, v; bool operator==(const H& o) const { return b == o.b && s == o.s && v == o.v; } };
    template <class F> static std::size_t one(F f, X& x, const char* what) {
        lg().n = 0; std::size_t h = f(x.cv());
        if (M::logged(x.k)) CHECK(P(10), lg().n == 1 && lg().op == 'h' && lg().a == x.addr(), what << " called the content's hash " << lg().n << " times, or not on the held object");
        CHECK(P(10), f(x.cv()) == h, what << " gives different results for the same variant");
        return h;
    }
    static H all(X& x) {
        H h; h.b = one([](const V& v) { return boost::hash<V>()(v); }, x, "boost::hash");
        h.s = one([](const V& v) { return std::hash<V>()(v); }, x, "std::hash");
        h.v = one([](const V& v) { return hash_value(v); }, x, "hash_value");
        CHECK(P(10), x.intact(), "hashing changed the variant");
        return h;
    }
    static void pairs(Source& s) {
        tk::reset(); int n = 0;
        do {
            int k = s.below(sizeof...(E)), v = some_val(s); X x(s, k, v), y(s, k, v); V z(y.cv());
            TRACE("  hash (" << x.k << "," << x.val << ") built twice: " << x.how << " / " << y.how);
            H a = all(x), b = all(y);
            CHECK(P(10), a == b, "equal variants (" << x.how << " / " << y.how << ") hash differently");
            CHECK(P(10), boost::hash<V>()(z) == a.b && std::hash<V>()(z) == a.s && hash_value(z) == a.v, "a copy hashes differently");
            // through the content's own hash only
            int w = BD::canon(k, v ^ 1);
            if (M::same_hash(k, x.val, w)) { X u(s, k, w); CHECK(P(10), all(u) == a, "contents with equal hashes in the same alternative give different hashes"); pbt::label("content hash collision"); }
            if (M::logged(k) && s.below(4) == 0) {
                bool threw = false; tk::arm(1, K_HASH, false); int tok = tk::st().token + 1, w2 = s.below(3);
                try { if (w2 == 0) boost::hash<V>()(x.cv()); else if (w2 == 1) std::hash<V>()(x.cv()); else hash_value(x.cv()); } catch (const tk::Injected& i) { threw = i.token == tok; }
                tk::disarm(); CHECK(P(10), threw && x.intact(), "exception of the content's hash did not propagate cleanly"); pbt::label("throwing hash");
            }
            // in-place change must show, changing back must restore
            int nv = BD::canon(k, v + 2 + 2 * (int)s.below(6));
            if (!M::same_hash(k, x.val, nv)) { BD::set(x.v(), nv); X f(s, k, nv); x.val = nv; CHECK(P(10), all(x) == all(f), "hash after changing the content in place is not that of the new value"); }
            if (x.how[0] != 'c' || y.how[0] != 'c') pbt::nontrivial();
        } while (s.more() && ++n < 10);
    }
    // spread: over a generated block of consecutive or scattered values
    static void spread(Source& s) {
        tk::reset();
        const int N = 24; int base = s.below(2) ? (int)s.below(2000) - 1000 : 0, step = 2 + 2 * s.below(40);
        std::size_t h[sizeof...(E)][N][3]; int val[sizeof...(E)][N];
        for (unsigned k = 0; k < sizeof...(E); ++k) for (int i = 0; i < N; ++i) { val[k][i] = BD::canon(k, base + i * step); X x(s, k, val[k][i]); h[k][i][0] = boost::hash<V>()(x.cv()); h[k][i][1] = std::hash<V>()(x.cv()); h[k][i][2] = hash_value(x.cv()); }
        TRACE("  values " << base << " + i*" << step << ", " << N << " per alternative");
        for (int f = 0; f < 3; ++f) for (unsigned k = 0; k < sizeof...(E); ++k) {
            std::set<std::size_t> dh; std::set<int> dv;
            for (int i = 0; i < N; ++i) { dh.insert(h[k][i][f]); bool fresh = true; for (std::set<int>::iterator p = dv.begin(); p != dv.end(); ++p) if (M::same_hash(k, *p, val[k][i])) fresh = false; if (fresh) dv.insert(val[k][i]); }
            CHECK(P(10), dh.size() * 4 >= dv.size() * 3, "alternative " << k << ": " << dv.size() << " contents with different hashes give only " << dh.size() << " hashes");
            for (unsigned l = 0; l < k; ++l) { int same = 0, cmp = 0; for (int i = 0; i < N; ++i) if (val[k][i] == val[l][i]) { ++cmp; same += h[k][i][f] == h[l][i][f]; } 
                if (cmp >= 8) CHECK(P(10), same * 2 <= cmp, "alternatives " << l << " and " << k << " collide for " << same << " of " << cmp << " equal-looking values"); }
        }
        pbt::nontrivial(); pbt::label("spread");
    }
    static void keys(Source& s) {
        tk::reset();
        std::unordered_set<V> a; boost::unordered_set<V> b; std::unordered_map<V, int> c; std::set<std::pair<int, int> > m; int n = 2 + s.below(24);
        for (int i = 0; i < n; ++i) {
            int k = s.below(sizeof...(E)); X x(s, k, s.below(10)); std::pair<int, int> key(k, x.val);
            if (s.below(4) == 0) { std::size_t e = m.erase(key); CHECK(P(10), a.erase(x.cv()) == e && b.erase(x.cv()) == e && c.erase(x.cv()) == e, "erase from an unordered container"); }
            else { bool fresh = m.insert(key).second; CHECK(P(10), a.insert(x.cv()).second == fresh && b.insert(x.cv()).second == fresh, "insert into an unordered container"); c[x.cv()] = i; }
            CHECK(P(10), a.size() == m.size() && b.size() == m.size() && c.size() == m.size() && a.count(x.cv()) == m.count(key) && b.count(x.cv()) == m.count(key), "unordered container contents");
        }
        if (m.size() > 2) pbt::nontrivial();
        pbt::label("unordered container");
    }
};
}
#define HASH_CASES(tag, ...) \
    static void tag##_p(pbt::Source& s) { hx::Runner<boost::variant<__VA_ARGS__>, __VA_ARGS__>::pairs(s); } \
    static void tag##_s(pbt::Source& s) { hx::Runner<boost::variant<__VA_ARGS__>, __VA_ARGS__>::spread(s); } \
    static void tag##_k(pbt::Source& s) { hx::Runner<boost::variant<__VA_ARGS__>, __VA_ARGS__>::keys(s); } \
    PBT_CASE(#tag ".pairs", tag##_p, 10, pbt::P(10)); PBT_CASE(#tag ".spread", tag##_s, 2, pbt::P(10)); PBT_CASE(#tag ".keys", tag##_k, 4, pbt::P(10))
using namespace ops;
