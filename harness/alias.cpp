// C23: assigning a variant something that lives inside its own content.
#include "values.hpp"
#include <memory>
namespace al {
using pbt::P; using pbt::Source;
template <class A> struct Box {
    A a; int i; std::string str; double pad[3];
    Box(int v) : a(tk::Raw(), v), i(v), str(VT<std::string>::str(v)) { pad[0] = pad[1] = pad[2] = v; }
};
template <class A, class... Extra> struct Mach {
    typedef Box<A> Bx; typedef std::vector<A> VA; typedef std::vector<int> VI;
    typedef boost::variant<A, VA, Bx, int, std::string, boost::recursive_wrapper<VI>, Extra...> V;
    Source& s; void* p; int alt, val, n, aliased, failed; bool known;
    explicit Mach(Source& src) : s(src), p(std::malloc(sizeof(V))), n(0), aliased(0), failed(0), known(true) { std::memset(p, 0xCB, sizeof(V)); }
    ~Mach() { std::free(p); }
    V& v() { return *static_cast<V*>(p); }
    static VA va(int x) { VA r; r.reserve(3); for (int k = 0; k < 3; ++k) r.emplace_back(tk::Raw(), x + k); return r; }
    static VI vi(int x) { VI r; for (int k = 0; k < 3; ++k) r.push_back(x + k); return r; }
    void fresh(bool construct) {
        int k = s.below(6), x = s.below(20); TRACE("  " << (construct ? "construct" : "assign") << " alternative " << k << " value " << x);
        switch (k) {
        case 0: { Hold<A> h(x); put(construct, h.ref()); break; } case 1: put(construct, va(x)); break; case 2: put(construct, Bx(x)); break;
        case 3: put(construct, int(x)); break; case 4: put(construct, VT<std::string>::str(x)); break; default: put(construct, vi(x)); }
        alt = k; val = x; known = true;
    }
    template <class T> void put(bool construct, const T& t) { if (construct) new (p) V(t); else v() = t; }
    void check(const char* what) {
        CHECK(P(23) | P(1), v().which() == alt, what << ": the variant holds alternative " << v().which() << ", expected " << alt);
        if (!known) return;
        const V& c = v(); bool ok;
        switch (alt) {
        case 0: ok = boost::get<A>(c).value() == val; break;
        case 1: { const VA& q = boost::get<VA>(c); ok = q.size() == 3 && q[0].value() == val && q[1].value() == val + 1 && q[2].value() == val + 2; break; }
        case 2: { const Bx& q = boost::get<Bx>(c); ok = q.a.value() == val && q.i == val && q.str == VT<std::string>::str(val) && q.pad[2] == val; break; }
        case 3: ok = boost::get<int>(c) == val; break;
        case 4: ok = boost::get<std::string>(c) == VT<std::string>::str(val); break;
        case 5: ok = boost::get<VI>(c) == vi(val); break;
        default: ok = true; }
        CHECK(P(23) | P(2), ok, what << ": the variant does not hold the value the right-hand side had (alternative " << alt << ", value " << val << ")");
    }
    // f: the assignment; on success the variant holds (k, x)
    template <class F> void act(const char* what, int k, int x, F f, bool consuming = false) {
        TRACE("  " << what << " (holds alternative " << alt << " value " << val << ")");
        bool inj = s.below(4) == 3; int tok = tk::st().token; bool threw = false;
        if (inj) tk::arm(1 + s.below(5), s.flip() ? tk::K_ANY : tk::K_COPY | tk::K_ALLOC, false);
        try { f(); } catch (const tk::Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
        tk::disarm(); CHECK(P(23) | P(3), threw == (tk::st().token != tok), "an exception was swallowed");
        ++aliased;
        if (!threw) { alt = k; val = x; known = true; check(what); return; }
        ++failed; TRACE("    -> failed");
        CHECK(P(23) | P(3), v().which() == alt || v().which() == 1 || v().which() == 3 || v().which() == 4 || v().which() == 6, "a failed assignment left alternative " << v().which());
        if ((alt == 2 || alt == 0) && v().which() == alt && !consuming) check("after a failed assignment");
        known = false; alt = v().which(); fresh(false);      // back to a known value, from whatever state that was
        check("after recovery");
    }
    void step() {
        V& x = v(); int how = s.below(5); bool rv = s.below(3) == 2; const int a0 = alt; (void)a0;
        switch (alt) {
        case 0: { A& c = boost::get<A>(x); if (how < 3) act("v = its own content", 0, val, [&] { x = const_cast<const A&>(c); }); else act("v = v", 0, val, [&] { x = const_cast<const V&>(x); }); break; }
        case 1: { VA& c = boost::get<VA>(x); int k = s.below(3);
            if (how == 0) act("v = its own content", 1, val, [&] { x = const_cast<const VA&>(c); });
            else if (how == 1) act("v = v", 1, val, [&] { x = const_cast<const V&>(x); });
            else if (rv) act("v = move(element of its own content)", 0, val + k, [&] { x = std::move(c[k]); }, true);
            else act("v = element of its own content", 0, val + k, [&] { x = const_cast<const A&>(c[k]); });
            break; }
        case 2: { Bx& c = boost::get<Bx>(x);
            if (how == 0) { if (rv) act("v = move(member A of its own content)", 0, val, [&] { x = std::move(c.a); }, true); else act("v = member A of its own content", 0, val, [&] { x = const_cast<const A&>(c.a); }); }
            else if (how == 1) act("v = member int of its own content", 3, val, [&] { x = const_cast<const int&>(c.i); });
            else if (how == 2) { if (rv) act("v = move(member string of its own content)", 4, val, [&] { x = std::move(c.str); }, true); else act("v = member string of its own content", 4, val, [&] { x = const_cast<const std::string&>(c.str); }); }
            else if (how == 3) act("v = characters of a member of its own content", 4, val, [&] { x = c.str.c_str(); });
            else act("v = its own content", 2, val, [&] { x = const_cast<const Bx&>(c); });
            break; }
        case 4: { std::string& c = boost::get<std::string>(x);
            if (how < 2) act("v = its own content", 4, val, [&] { x = const_cast<const std::string&>(c); });
            else if (how < 4) act("v = characters of its own content", 4, val, [&] { x = c.c_str(); });
            else { std::string t = VT<std::string>::str(val); act("v = v", 4, val, [&] { x = x; }); }
            break; }
        case 5: { VI& c = boost::get<VI>(x); int k = s.below(3);
            if (how < 2) act("v = element of its own wrapped content", 3, val + k, [&] { x = const_cast<const int&>(c[k]); });
            else if (how == 2) act("v = its own wrapped content", 5, val, [&] { x = const_cast<const VI&>(c); });
            else if (how == 3) act("v = V(v)", 5, val, [&] { x = V(const_cast<const V&>(x)); });
            else act("v = V(element)", 3, val + k, [&] { x = V(c[k]); });
            break; }
        default: act("v = V(v)", alt, val, [&] { x = V(const_cast<const V&>(x)); });
        }
    }
    void run() {
        tk::reset(); fresh(true); check("construction");
        while (s.more() && n < 40) { ++n; if (s.below(3) == 0) fresh(false); else step(); check("afterwards"); }
        v().~V();
        CHECK(P(23) | P(4), tk::st().n == 0, tk::st().n << " objects never destroyed");
        if (aliased) pbt::nontrivial(); if (failed) pbt::label("failed aliased assignment");
    }
};
// a recursive variant: content objects (not variants) inside it assigned to it
typedef boost::make_recursive_variant<int, std::string, std::vector<boost::recursive_variant_>, tk::CM<4> >::type R;
typedef std::vector<R> RV;
static bool eq(const R& a, const R& b) {
    if (a.which() != b.which()) return false;
    switch (a.which()) { case 0: return boost::get<int>(a) == boost::get<int>(b); case 1: return boost::get<std::string>(a) == boost::get<std::string>(b); case 3: return boost::get<tk::CM<4> >(a).value() == boost::get<tk::CM<4> >(b).value(); default: break; }
    const RV& x = boost::get<RV>(a); const RV& y = boost::get<RV>(b); if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) if (!eq(x[i], y[i])) return false; return true;
}
static R gen(Source& s, int d) {
    int k = s.below(4); if (d <= 0 && k == 2) k = 1;
    if (k == 0) return R(int(s.below(50))); if (k == 1) return R(VT<std::string>::str(s.below(20))); if (k == 3) { Hold<tk::CM<4> > h(s.below(20)); return R(h.ref()); }
    RV r; int c = 1 + s.below(3); for (int i = 0; i < c; ++i) r.push_back(gen(s, d - 1)); return R(r);
}
void rec(Source& s) {
    tk::reset();
    { R t(gen(s, 4)); int n = 0; bool did = false;
      while (s.more() && n++ < 20) {
        R* node = &t; int depth = 0; while (node->which() == 2 && !boost::get<RV>(*node).empty() && s.chance(4, 5)) { RV& c = boost::get<RV>(*node); node = &c[s.below((uint32_t)c.size())]; ++depth; }
        R want(*node); int how = s.below(4);
        if (node->which() == 2 && how == 3) { TRACE("  a node appended to itself"); RV& c = boost::get<RV>(*node); if (c.size() < 6) { size_t z = c.size(); R before(*node); if (s.flip()) c.reserve(c.size() + 1); c.push_back(*node); CHECK(P(23), c.size() == z + 1 && eq(c[z], before), "a node appended to itself differs from what it was"); c.pop_back(); CHECK(P(23), eq(*node, before), "appending a node to itself changed its other children"); did = true; } continue; }
        switch (node->which()) {
        case 0: TRACE("  t = int at depth " << depth); t = boost::get<int>(*node); break;
        case 1: TRACE("  t = string at depth " << depth); if (how == 0) t = boost::get<std::string>(*node).c_str(); else if (how == 1) t = std::move(boost::get<std::string>(*node)); else t = const_cast<const std::string&>(boost::get<std::string>(*node)); break;
        case 3: TRACE("  t = object at depth " << depth); if (how == 0) t = std::move(boost::get<tk::CM<4> >(*node)); else t = const_cast<const tk::CM<4>&>(boost::get<tk::CM<4> >(*node)); if (how == 0 && node == &t) want = t; break;
        default: if (node == &t) { TRACE("  t = t"); t = const_cast<const R&>(t); } else { TRACE("  t = copy of a subtree at depth " << depth); t = R(const_cast<const R&>(*node)); } }
        if (!(how == 1 && want.which() == 1 && node == &t)) CHECK(P(23), eq(t, want), "the tree does not hold what the part of itself it was assigned held");
        if (depth) did = true;
        if (t.which() != 2) t = gen(s, 4);
      }
      if (did) pbt::nontrivial(); }
    CHECK(P(23) | P(4), tk::st().n == 0, tk::st().n << " objects never destroyed");
}
}
#define AL(tag, ...) static void tag(pbt::Source& s) { al::Mach<__VA_ARGS__> m(s); m.run(); } PBT_CASE("alias." #tag, tag, 10, pbt::P(23))
AL(cm, tk::CM<1>); AL(co, tk::CO<2>); AL(ntm, tk::CM<3, tk::NTMOVE>); AL(blank, tk::CM<1>, boost::blank); AL(ntc, tk::CM<5, tk::NTCOPY | tk::NTMOVE>);
using al::rec; PBT_CASE("alias.rec", rec, 10, pbt::P(23));
