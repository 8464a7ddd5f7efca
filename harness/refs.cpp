// C17: variants with reference alternatives against an alias model.
#include "values.hpp"
#include <boost/functional/hash.hpp>
#include <deque>
namespace rf {
using pbt::P; using pbt::Source;
typedef tk::CM<1> T1; typedef tk::CO<2> T2; typedef tk::CM<3, tk::NTALL> T3;
struct B { int x; explicit B(int v = 0) : x(v) {} };
struct X { long pad; };
struct D : X, B { int y; explicit D(int v = 0) : B(v), y(v) {} };
typedef boost::variant<T1&, const T2&, double, T3&, std::string> V;
typedef boost::variant<T1&, const T2&> Narrow;
typedef boost::variant<T3, T1, std::string, double, T2> Val;      // same types by value

struct Probe : boost::static_visitor<void> {
    const void* addr; int idx; int calls; bool cst;
    Probe() : addr(0), idx(-1), calls(0), cst(false) {}
    template <class T> void operator()(T& t) { ++calls; cst = std::is_const<T>::value; addr = std::addressof(t); typedef typename std::remove_const<T>::type U; idx = IndexOf<U, T1, T2, double, T3, std::string>::value; }
};
struct Two : boost::static_visitor<void> { const void *a, *b; int calls; Two() : a(0), b(0), calls(0) {} template <class T, class U> void operator()(T& t, U& u) { ++calls; a = std::addressof(t); b = std::addressof(u); } };
struct Set : boost::static_visitor<bool> { int v; explicit Set(int a) : v(a) {}
    bool operator()(T1& t) const { t.set(v); return true; } bool operator()(T3& t) const { t.set(v); return true; }
    template <class T> bool operator()(const T&) const { return false; } };

struct Mach {
    enum { K = 5, R = 3 };
    Source& s; Hold<T1>* a[R]; Hold<T2>* b[R]; Hold<T3>* c[R]; int av[R], bv[R], cv[R];
    void* p[K]; bool alive[K]; int alt[K], ref[K], val[K]; int n, aliased;
    explicit Mach(Source& src) : s(src), n(0), aliased(0) {
        for (int i = 0; i < R; ++i) { a[i] = new Hold<T1>(av[i] = i + 1); b[i] = new Hold<T2>(bv[i] = i + 1); c[i] = new Hold<T3>(cv[i] = i + 1); }
        for (int i = 0; i < K; ++i) { p[i] = std::malloc(sizeof(V)); std::memset(p[i], 0xCB, sizeof(V)); alive[i] = false; }
    }
    ~Mach() { for (int i = 0; i < R; ++i) { delete a[i]; delete b[i]; delete c[i]; } for (int i = 0; i < K; ++i) std::free(p[i]); }
    V& v(int i) { return *static_cast<V*>(p[i]); }
    const void* want(int i) { return alt[i] == 0 ? (const void*)std::addressof(a[ref[i]]->ref()) : alt[i] == 1 ? (const void*)std::addressof(b[ref[i]]->ref()) : (const void*)std::addressof(c[ref[i]]->ref()); }
    bool isref(int i) { return alt[i] != 2 && alt[i] != 4; }
    int value(int i) { return alt[i] == 0 ? av[ref[i]] : alt[i] == 1 ? bv[ref[i]] : alt[i] == 3 ? cv[ref[i]] : val[i]; }
    int pick() { int i = s.below(K); for (int k = 0; k < K; ++k) if (alive[(i + k) % K]) return (i + k) % K; return -1; }
    // what no variant operation may do to a referent
    struct Counts { long cp, mv, ca, ma, d, nw; int live; };
    Counts now() { Counts c = { tk::st().n_copy, tk::st().n_move, tk::st().n_cassign, tk::st().n_massign, tk::st().n_dtor, pbt::g_new_calls, tk::st().n }; return c; }
    void untouched(const Counts& c, const char* what) {
        Counts e = now();
        CHECK(P(17), c.cp == e.cp && c.mv == e.mv && c.ca == e.ca && c.ma == e.ma && c.d == e.d && c.live == e.live, what << " copied, moved, assigned or destroyed a referent");
    }
    void kill(int i) { if (!alive[i]) return; Counts c = now(); v(i).~V(); untouched(c, "destroying a variant"); alive[i] = false; std::memset(p[i], 0xCB, sizeof(V)); }
    void construct(int i) {
        kill(i); int k = s.below(5), r = s.below(R); int x = s.below(9); alt[i] = k; ref[i] = r; val[i] = x;
        TRACE("  v" << i << " <- alternative " << k << " referent " << r);
        Counts ct = now(); std::string str = VT<std::string>::str(x);
        switch (k) {
        case 0: new (p[i]) V(a[r]->ref()); break;
        case 1: if (s.flip()) new (p[i]) V(b[r]->ref()); else new (p[i]) V(const_cast<const T2&>(b[r]->ref())); break;
        case 2: new (p[i]) V(x + 0.5); break;
        case 3: new (p[i]) V(c[r]->ref()); break;
        default: new (p[i]) V(str);
        }
        untouched(ct, "constructing a variant"); alive[i] = true;
    }
    void observe(int i) {
        V& x = v(i); const V& cx = x;
        CHECK(P(17), cx.which() == alt[i] && !cx.empty(), "which() is " << cx.which() << ", constructed with alternative " << alt[i]);
        static const std::type_info* const ti[] = { &typeid(T1), &typeid(T2), &typeid(double), &typeid(T3), &typeid(std::string) };
        CHECK(P(17), x.type() == *ti[alt[i]], "type() is wrong");
        Probe q, r; boost::apply_visitor(q, x); boost::apply_visitor(r, cx);
        CHECK(P(17), q.calls == 1 && r.calls == 1 && q.idx == alt[i] && r.idx == alt[i], "visitation reached alternative " << q.idx << "/" << r.idx << " of " << alt[i]);
        CHECK(P(17), q.addr == r.addr, "const and non-const visitation reach different objects");
        if (isref(i)) CHECK(P(17), q.addr == want(i), "visitation does not reach the referent");
        if (alt[i] == 1) CHECK(P(17), q.cst && r.cst, "a const reference alternative gave non-const access");
        else CHECK(P(17), !q.cst, "a non-const variant visited with a const reference");
        CHECK(P(17), (boost::get<T1>(&x) != 0) == (alt[i] == 0) && (boost::get<T1>(&cx) != 0) == (alt[i] == 0) && (boost::get<const T2>(&x) != 0) == (alt[i] == 1) && (boost::get<const T2>(&cx) != 0) == (alt[i] == 1)
            && (boost::get<double>(&x) != 0) == (alt[i] == 2) && (boost::get<T3>(&x) != 0) == (alt[i] == 3) && (boost::get<T3>(&cx) != 0) == (alt[i] == 3) && (boost::get<std::string>(&x) != 0) == (alt[i] == 4), "get disagrees with which() " << alt[i]);
        switch (alt[i]) {
        case 0: CHECK(P(17), boost::get<T1>(&x) == want(i) && boost::get<T1>(&cx) == want(i) && &boost::get<T1>(x) == want(i) && &boost::get<T1&>(x) == want(i) && &boost::relaxed_get<T1>(x) == want(i), "get does not give the referent"); break;
        case 1: CHECK(P(17), (const void*)boost::get<const T2>(&x) == want(i) && (const void*)boost::get<const T2>(&cx) == want(i) && (const void*)std::addressof(boost::get<const T2>(x)) == want(i) && (const void*)std::addressof(boost::get<const T2&>(x)) == want(i), "get does not give the referent"); break;
        case 2: CHECK(P(17), boost::get<double>(x) == val[i] + 0.5, "a value alternative changed"); break;
        case 3: CHECK(P(17), boost::get<T3>(&x) == want(i) && boost::get<T3>(&cx) == want(i) && &boost::get<T3>(x) == want(i), "get does not give the referent"); break;
        default: CHECK(P(17), boost::get<std::string>(x) == VT<std::string>::str(val[i]), "a value alternative changed");
        }
        if (alt[i] != 0) { bool th = false; try { (void)boost::get<T1>(x); } catch (const boost::bad_get&) { th = true; } CHECK(P(17), th, "get<T1> did not throw"); }
    }
    void referents() {
        for (int i = 0; i < R; ++i) { CHECK(P(17), a[i]->ref().value() == av[i] && b[i]->ref().value() == bv[i] && c[i]->ref().value() == cv[i], "a referent changed value"); }
    }
    static std::string text(int k, int x) { std::ostringstream o; if (k == 0) o << "o1:" << x; else if (k == 1) o << "o2:" << x; else if (k == 2) o << x + 0.5; else if (k == 3) o << "o3:" << x; else o << VT<std::string>::str(x); return o.str(); }
    void step() {
        int op = s.below(10), i = s.below(K), j = pick();
        if (op == 0 || j < 0) { construct(i); return; }
        switch (op) {
        case 1: case 2: {
            if (i == j) i = (i + 1) % K; kill(i); int how = s.below(4); Counts ct = now();
            TRACE("  v" << i << " <- " << (how == 0 ? "copy" : how == 1 ? "copy of const" : how == 2 ? "move" : "const move") << " of v" << j);
            if (how == 0) new (p[i]) V(v(j)); else if (how == 1) new (p[i]) V(const_cast<const V&>(v(j))); else if (how == 2) new (p[i]) V(std::move(v(j))); else new (p[i]) V(std::move(const_cast<const V&>(v(j))));
            untouched(ct, "copying a variant"); alive[i] = true; alt[i] = alt[j]; ref[i] = ref[j]; val[i] = val[j];
            if (how == 2 && alt[j] == 4) { V t(VT<std::string>::str(val[j])); v(j).~V(); new (p[j]) V(t); }
            if (isref(i)) ++aliased; break; }
        case 3: {      // write through the variant
            int x = s.below(50); TRACE("  write " << x << " through v" << j); int how = s.below(4); V& w = v(j); bool did = true;
            if (alt[j] == 0) { if (how == 0) boost::get<T1>(w).set(x); else if (how == 1) boost::get<T1>(&w)->set(x); else if (how == 2) boost::get<T1&>(w).set(x); else { Set st(x); did = boost::apply_visitor(st, w); } CHECK(P(17), did, "the visitor did not get write access"); av[ref[j]] = x; }
            else if (alt[j] == 3) { if (how == 0) boost::get<T3>(w).set(x); else if (how == 1) boost::get<T3>(&w)->set(x); else { Set st(x); did = boost::apply_visitor(st, w); } CHECK(P(17), did, "the visitor did not get write access"); cv[ref[j]] = x; }
            break; }
        case 4: { int r = s.below(R), x = s.below(50); TRACE("  write " << x << " to referents " << r); a[r]->ref().set(av[r] = x); b[r]->ref().set(bv[r] = x + 1); c[r]->ref().set(cv[r] = x + 2); break; }
        case 5: {      // observers of two variants
            i = pick(); const V& x = v(i); const V& y = v(j); Counts ct = now();
            TRACE("  compare v" << i << " v" << j);
            bool eq = alt[i] == alt[j] && value(i) == value(j);
            bool lt = alt[i] < alt[j] || (alt[i] == alt[j] && (alt[i] == 4 ? VT<std::string>::str(val[i]) < VT<std::string>::str(val[j]) : value(i) < value(j)));
            CHECK(P(17) | P(9), (x == y) == eq && (x != y) == !eq && (x < y) == lt && (x >= y) == !lt, "comparison of referents");
            if (eq) CHECK(P(17) | P(10), boost::hash<V>()(x) == boost::hash<V>()(y), "equal variants hash differently");
            std::ostringstream o; o << x; CHECK(P(17) | P(11), o.str() == text(alt[i], value(i)), "a reference variant prints as " << o.str());
            Two t; boost::apply_visitor(t, v(i), v(j));
            CHECK(P(17) | P(6), t.calls == 1 && (!isref(i) || t.a == want(i)) && (!isref(j) || t.b == want(j)), "binary visitation does not reach the referents");
            untouched(ct, "observing variants"); break; }
        case 6: {      // to a variant by value: copies the referent once
            TRACE("  convert v" << j << " to a variant of values"); long c0 = tk::st().n_copy, m0 = tk::st().n_move; bool cst = s.flip();
            { Val w = cst ? Val(const_cast<const V&>(v(j))) : Val(v(j));
              static const int to[] = { 1, 4, 3, 0, 2 };
              CHECK(P(17) | P(13), w.which() == to[alt[j]], "conversion to values gives alternative " << w.which() << " for " << alt[j]);
              if (isref(j)) { CHECK(P(17) | P(13), tk::st().n_copy > c0, "the referent was not copied"); int x = alt[j] == 0 ? boost::get<T1>(w).value() : alt[j] == 1 ? boost::get<T2>(w).value() : boost::get<T3>(w).value(); CHECK(P(17) | P(13), x == value(j), "conversion to values gives " << x);
                  const void* wa = alt[j] == 0 ? (const void*)boost::get<T1>(&w) : alt[j] == 1 ? (const void*)boost::get<T2>(&w) : (const void*)boost::get<T3>(&w); CHECK(P(17), wa != want(j), "the value variant aliases the referent"); }
              if (s.flip()) { Val z(Val(1.5)); z = const_cast<const V&>(v(j)); CHECK(P(17) | P(13), z.which() == w.which() && z == w, "assigning a reference variant to a variant of values"); }
            }
            (void)m0; break; }
        case 7: {      // from a narrower reference variant
            int r = s.below(R); TRACE("  from a narrower variant"); Counts ct = now();
            { Narrow n0(a[r]->ref()), n1(b[r]->ref()); V x(n0), y(const_cast<const Narrow&>(n1)); CHECK(P(17) | P(13), boost::get<T1>(&x) == &a[r]->ref() && (const void*)boost::get<const T2>(&y) == (const void*)std::addressof(b[r]->ref()), "conversion between reference variants lost the referent"); }
            untouched(ct, "converting between reference variants"); break; }
        case 8: {      // containers, base references, both constnesses, arrays
            int r = s.below(R); Counts ct = now(); TRACE("  container and base references");
            { std::vector<V> q; for (int z = 0; z < 5; ++z) q.push_back(v(j)); for (int z = 0; z < 5; ++z) if (isref(j)) { Probe pr; boost::apply_visitor(pr, q[z]); CHECK(P(17), pr.addr == want(j), "a variant in a std::vector lost its referent"); } }
            untouched(ct, "growing a std::vector of variants");
            D d(r); const D cd(r + 1); boost::variant<int, B&> x(d); CHECK(P(17), boost::get<B>(&x) == static_cast<B*>(&d), "a base reference does not refer to the base of its operand");
            boost::variant<const B&, int> y(cd), y2(d); CHECK(P(17), boost::get<const B>(&y) == static_cast<const B*>(&cd) && boost::get<const B>(&y2) == static_cast<const B*>(&d), "a const base reference does not refer to the base of its operand");
            boost::variant<D&> dr(d); boost::variant<int, B&> z(dr); CHECK(P(17), boost::get<B>(&z) == static_cast<B*>(&d), "conversion to a base reference");
            boost::get<B>(x).x = 91; CHECK(P(17), d.x == 91 && boost::get<B>(z).x == 91, "a write through a base reference was lost");
            int m = r; const int k = r; boost::variant<int&, const int&> u(m), w(k); CHECK(P(17), u.which() == 0 && w.which() == 1 && boost::get<int>(&u) == &m, "int& / const int&");
            boost::variant<const int&, int&> u2(m), w2(k); CHECK(P(17), u2.which() == 1 && w2.which() == 0, "const int& / int&");
            int arr[3] = { 1, 2, 3 }; boost::variant<std::string, int(&)[3]> e(arr); CHECK(P(17), e.which() == 1, "array reference");
            break; }
        default: { int z = s.below(K); if (z != j) { TRACE("  destroy v" << z); kill(z); } }
        }
    }
    void run() {
        construct(0); construct(1);
        while (s.more() && n < 40) { ++n; step(); for (int i = 0; i < K; ++i) if (alive[i]) observe(i); referents(); }
        for (int i = 0; i < K; ++i) kill(i);
        CHECK(P(17) | P(4), tk::st().n == 3 * R, "referents were created or destroyed: " << tk::st().n);
        if (aliased) pbt::nontrivial();
    }
};
static void refs_run(Source& s) { tk::reset(); Mach m(s); m.run(); }
}
using rf::refs_run; PBT_CASE("refs.alias", refs_run, 10, pbt::P(17));
