// C06: binary and N-ary visitation.
#ifndef VERIF_MVISIT_HPP
#define VERIF_MVISIT_HPP
#include "visit.hpp"
#include <boost/variant/multivisitors.hpp>

namespace mv {
using pbt::P; using pbt::Source; using vis::LV; using vis::CLV; using vis::RV; using vis::CatOf; using vis::Res; using vis::Tok; using vis::call; using vis::expected;
using namespace tk;
// types have distinct ids; an alternative is identified by its type
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTMOVE> A3; typedef CO<4, NTCOPY> A4; typedef boost::recursive_wrapper<A3> W3;
template <class T> struct Id; template <> struct Id<A1> { enum { v = 1 }; }; template <> struct Id<A2> { enum { v = 2 }; }; template <> struct Id<A3> { enum { v = 3 }; };
template <> struct Id<A4> { enum { v = 4 }; }; template <> struct Id<int> { enum { v = 5 }; }; template <> struct Id<std::string> { enum { v = 6 }; };
typedef boost::variant<A1, int, A2> VA; typedef Builder<VA, A1, int, A2> BA; typedef Var<VA, BA> XA;
typedef boost::variant<int, std::string, W3, A1> VB; typedef Builder<VB, int, std::string, W3, A1> BB; typedef Var<VB, BB> XB;
typedef boost::variant<A2, A1> VC; typedef Builder<VC, A2, A1> BC; typedef Var<VC, BC> XC;
inline int ida(int k) { static const int t[] = { 1, 5, 2 }; return t[k]; }
inline int idb(int k) { static const int t[] = { 5, 6, 3, 1 }; return t[k]; }
inline int idc(int k) { static const int t[] = { 2, 1 }; return t[k]; }

struct Arg { int id, val, cat; const void* addr; };
struct Rec { int calls, n; Arg a[6]; bool vis_const; const void* self; };
struct Base {
    Rec* rec; int salt, tok; Base(Rec* r, int s, int t) : rec(r), salt(s), tok(t) {}
    template <class U> void put(U& u, int cat) const { typedef typename std::remove_const<U>::type Q; Arg& a = rec->a[rec->n++]; a.id = Id<Q>::v; a.val = VT<Q>::read(u); a.cat = cat; a.addr = std::addressof(u); }
    int done(bool vc) const { ++rec->calls; rec->vis_const = vc; rec->self = this; if (tok) { Tok t = { tok }; throw t; } unsigned h = salt; for (int i = 0; i < rec->n; ++i) h = h * 31 + rec->a[i].id * 977 + (unsigned)rec->a[i].val; return int(h & 0xfffffff); }
};
template <class R> struct Fwd : boost::static_visitor<R>, Base {
    Fwd(Rec* r, int s, int t) : Base(r, s, t) {}
    template <class... U> R operator()(U&&... u) { int x[] = { (put(u, CatOf<U>::value), 0)... }; (void)x; return Res<R>::make(done(false)); }
    template <class... U> R operator()(U&&... u) const { int x[] = { (put(u, CatOf<U>::value), 0)... }; (void)x; return Res<R>::make(done(true)); }
};
template <class R> struct Plain : Base {
    typedef R result_type;
    Plain(Rec* r, int s, int t) : Base(r, s, t) {}
    template <class... U> R operator()(const U&... u) const { int x[] = { (put(u, CLV), 0)... }; (void)x; return Res<R>::make(done(true)); }
};
struct Want { int n; Arg a[6]; };
inline int expect_hash(const Want& w, int salt) { unsigned h = salt; for (int i = 0; i < w.n; ++i) h = h * 31 + w.a[i].id * 977 + (unsigned)w.a[i].val; return int(h & 0xfffffff); }

inline void verify(const Rec& rec, const Want& w, bool cats, bool threw, int tok, const char* what) {
    CHECK(P(6), threw == (tok != 0), what << ": the visitor's exception did not reach the caller");
    CHECK(P(6), rec.calls == 1, what << ": visitor called " << rec.calls << " times");
    CHECK(P(6), rec.n == w.n, what << ": visitor got " << rec.n << " operands");
    for (int i = 0; i < w.n; ++i) {
        CHECK(P(6), rec.a[i].id == w.a[i].id && rec.a[i].val == w.a[i].val, what << ": operand " << i << " is type " << rec.a[i].id << " value " << rec.a[i].val << ", expected type " << w.a[i].id << " value " << w.a[i].val);
        if (w.a[i].addr) CHECK(P(6), rec.a[i].addr == w.a[i].addr, what << ": operand " << i << " is not the held object");
        if (cats) CHECK(P(6), rec.a[i].cat == w.a[i].cat, what << ": operand " << i << " arrived with value category " << rec.a[i].cat << ", expected " << w.a[i].cat);
    }
}
template <class X> Arg arg(X& x, int id, int cat, bool addr) { Arg a = { id, x.val, cat, addr ? x.addr() : 0 }; return a; }

// calls f with x as lvalue, const lvalue or rvalue
template <class V, class F> auto with(V& x, int cat, F f) -> decltype(f(x)) { if (cat == LV) return f(x); if (cat == CLV) return f(const_cast<const V&>(x)); return f(std::move(x)); }

template <class R, class Vis> struct Bin {
    Rec rec; int salt, tok; Vis v; Bin(int s, int t) : salt(s), tok(t), v(&rec, s, t) { std::memset(&rec, 0, sizeof rec); }
    template <class A, class B> int go(int vf, A&& a, B&& b) {
        switch (vf) { case 0: return call<R>([&]() -> R { return boost::apply_visitor(v, std::forward<A>(a), std::forward<B>(b)); });
            case 1: return call<R>([&]() -> R { return boost::apply_visitor(const_cast<const Vis&>(v), std::forward<A>(a), std::forward<B>(b)); });
            default: return call<R>([&]() -> R { return boost::apply_visitor(Vis(&rec, salt, tok), std::forward<A>(a), std::forward<B>(b)); }); }
    }
    template <class A, class B> int delayed(A& a, B& b) { return call<R>([&]() -> R { return boost::apply_visitor(v)(a, b); }); }
};
template <class R, class Vis> void binary(Source& s, XA& a, XB& b, bool cats) {
    int ca = s.below(3), cb = s.below(3), vf = s.below(4), crv = s.below(6); int salt = s.below(100), tok = s.chance(1, 7) ? 5 : 0;
    if (vf == 3 && ca == RV) ca = LV; if (vf == 3 && cb == RV) cb = CLV;
    if (vf == 3 || crv > 3) crv = -1; else { ca = crv == 1 ? LV : vis::CRV; cb = crv == 0 ? LV : crv == 3 ? RV : vis::CRV; }    // constant rvalues
    TRACE("  binary visit (" << a.k << " cat " << ca << ", " << b.k << " cat " << cb << ") visitor form " << vf << (tok ? " throwing" : ""));
    Want w; w.n = 2; w.a[0] = arg(a, ida(a.k), ca, true); w.a[1] = arg(b, idb(b.k), cb, true);
    Bin<R, Vis> k(salt, tok); bool threw = false; int r = 0; VA& x = a.v(); VB& y = b.v(); const VA& cx = x; const VB& cy = y;
    try {
        if (vf == 3) r = ca == LV ? (cb == LV ? k.delayed(x, y) : k.delayed(x, cy)) : (cb == LV ? k.delayed(cx, y) : k.delayed(cx, cy));
        else if (crv >= 0) r = crv == 0 ? k.go(vf, std::move(cx), y) : crv == 1 ? k.go(vf, x, std::move(cy)) : crv == 2 ? k.go(vf, std::move(cx), std::move(cy)) : k.go(vf, std::move(cx), std::move(y));
        else switch (ca * 3 + cb) {
        case 0: r = k.go(vf, x, y); break; case 1: r = k.go(vf, x, cy); break; case 2: r = k.go(vf, x, std::move(y)); break;
        case 3: r = k.go(vf, cx, y); break; case 4: r = k.go(vf, cx, cy); break; case 5: r = k.go(vf, cx, std::move(y)); break;
        case 6: r = k.go(vf, std::move(x), y); break; case 7: r = k.go(vf, std::move(x), cy); break; default: r = k.go(vf, std::move(x), std::move(y)); }
    } catch (const Tok& t) { threw = true; CHECK(P(6), t.n == tok, "wrong exception"); }
    verify(k.rec, w, cats, threw, tok, "binary visitation");
    if (!threw) CHECK(P(6), r == expected<R>(expect_hash(w, salt)), "binary visitation returned " << r);
    if (vf != 2) CHECK(P(6), k.rec.self == static_cast<const Base*>(&k.v), "binary visitation called a copy of the visitor");
    if (cats && vf < 3) CHECK(P(6), k.rec.vis_const == (vf != 0), "wrong constness of the visitor's call operator");
    CHECK(P(6), a.intact() && b.intact(), "binary visitation changed an operand");
    if (a.k && b.k) pbt::nontrivial();
}
template <class R, class Vis> void ternary(Source& s, XA& a, XB& b, XC& c, bool cats) {
    int sel = s.below(7), vf = s.below(3), salt = s.below(100), tok = s.chance(1, 7) ? 5 : 0; Rec rec; std::memset(&rec, 0, sizeof rec);
    Vis v(&rec, salt, tok); const Vis& cvis = v; VA& x = a.v(); VB& y = b.v(); VC& z = c.v(); const VA& cx = x; const VB& cy = y; const VC& cz = z;
    TRACE("  ternary visit " << sel << " (" << a.k << "," << b.k << "," << c.k << ") visitor form " << vf << (tok ? " throwing" : ""));
    Want w; w.n = 3; bool threw = false; int r = 0;
    try { switch (sel) {
    case 0: w.a[0] = arg(a, ida(a.k), LV, true); w.a[1] = arg(b, idb(b.k), LV, true); w.a[2] = arg(c, idc(c.k), LV, true);
        r = vf == 0 ? call<R>([&]() -> R { return boost::apply_visitor(v, x, y, z); }) : vf == 1 ? call<R>([&]() -> R { return boost::apply_visitor(cvis, x, y, z); }) : call<R>([&]() -> R { return boost::apply_visitor(v)(x, y, z); }); break;
    case 1: w.a[0] = arg(a, ida(a.k), CLV, true); w.a[1] = arg(b, idb(b.k), CLV, true); w.a[2] = arg(c, idc(c.k), CLV, true);
        r = vf == 0 ? call<R>([&]() -> R { return boost::apply_visitor(v, cx, cy, cz); }) : vf == 1 ? call<R>([&]() -> R { return boost::apply_visitor(cvis, cx, cy, cz); }) : call<R>([&]() -> R { return boost::apply_visitor(v)(cx, cy, cz); }); break;
    case 2: w.a[0] = arg(c, idc(c.k), CLV, true); w.a[1] = arg(a, ida(a.k), LV, true); w.a[2] = arg(b, idb(b.k), CLV, true);
        r = vf == 0 ? call<R>([&]() -> R { return boost::apply_visitor(v, cz, x, cy); }) : call<R>([&]() -> R { return boost::apply_visitor(cvis, cz, x, cy); }); break;
    case 3: { w.a[0] = arg(a, ida(a.k), LV, true); w.a[1] = arg(b, idb(b.k), RV, true); w.a[2] = arg(c, idc(c.k), LV, true);
        r = call<R>([&]() -> R { return boost::apply_visitor(v, x, std::move(y), z); }); break; }
    case 4: { w.a[0] = arg(a, ida(a.k), RV, true); w.a[1] = arg(b, idb(b.k), CLV, true); w.a[2] = arg(b, idb(b.k), LV, true);
        r = call<R>([&]() -> R { return boost::apply_visitor(v, std::move(x), cy, y); }); break; }
    case 5: w.a[0] = arg(a, ida(a.k), vis::CRV, true); w.a[1] = arg(b, idb(b.k), RV, true); w.a[2] = arg(c, idc(c.k), RV, true);
        r = call<R>([&]() -> R { return boost::apply_visitor(cvis, std::move(cx), std::move(y), std::move(z)); }); break;
    default: w.a[0] = arg(b, idb(b.k), LV, true); w.a[1] = arg(b, idb(b.k), LV, true); w.a[2] = arg(a, ida(a.k), RV, false);
        r = call<R>([&]() -> R { return boost::apply_visitor(cvis, y, y, VA(x)); }); break;
    } } catch (const Tok& t) { threw = true; CHECK(P(6), t.n == tok, "wrong exception"); }
    verify(rec, w, cats, threw, tok, "ternary visitation");
    CHECK(P(6), rec.self == static_cast<const Base*>(&v), "ternary visitation called a copy of the visitor");
    if (!threw) CHECK(P(6), r == expected<R>(expect_hash(w, salt)), "ternary visitation returned " << r);
    CHECK(P(6), a.intact() && b.intact() && c.intact(), "ternary visitation changed an operand");
    if (a.k && b.k) pbt::nontrivial();
}
template <class R, class Vis> void quaternary(Source& s, XC& a, XC& b, XC& c, XC& d, XC& e, bool cats) {
    int sel = s.below(5), salt = s.below(100); Rec rec; std::memset(&rec, 0, sizeof rec); Vis v(&rec, salt, 0); const Vis& cvis = v;
    TRACE("  " << (sel < 4 ? 4 : 5) << "-ary visit " << sel << " (" << a.k << b.k << c.k << d.k << e.k << ")");
    Want w; w.n = 4; XC* x[5] = { &a, &b, &c, &d, &e }; int r; const VC& cb = b.v(); const VC& cd = d.v();
    for (int i = 0; i < 5; ++i) w.a[i] = arg(*x[i], idc(x[i]->k), LV, true);
    if (sel == 0) r = call<R>([&]() -> R { return boost::apply_visitor(v, a.v(), b.v(), c.v(), d.v()); });
    else if (sel == 1) { w.a[1].cat = w.a[3].cat = CLV; r = call<R>([&]() -> R { return boost::apply_visitor(cvis, a.v(), cb, c.v(), cd); }); }
    else if (sel == 2) r = call<R>([&]() -> R { return boost::apply_visitor(v)(a.v(), b.v(), c.v(), d.v()); });
    else if (sel == 3) { w.a[0].cat = w.a[2].cat = w.a[3].cat = RV; r = call<R>([&]() -> R { return boost::apply_visitor(v, std::move(a.v()), b.v(), std::move(c.v()), std::move(d.v())); }); }
    else { w.n = 5; w.a[1].cat = CLV; r = call<R>([&]() -> R { return boost::apply_visitor(v, a.v(), cb, c.v(), d.v(), e.v()); }); }
    verify(rec, w, cats, false, 0, "N-ary visitation");
    CHECK(P(6), rec.self == static_cast<const Base*>(&v), "N-ary visitation called a copy of the visitor");
    CHECK(P(6), r == expected<R>(expect_hash(w, salt)), "N-ary visitation returned " << r);
    CHECK(P(6), a.intact() && b.intact() && c.intact() && d.intact() && e.intact(), "N-ary visitation changed an operand");
    pbt::nontrivial();
}
#if __cplusplus >= 201402L
// neither result_type nor const call operator, state of its own
struct Free : Base { int n; Free(Rec* r, int s, int t) : Base(r, s, t), n(0) {} Free(const Free&) = delete; template <class... U> int operator()(U&&... u) { ++n; int x[] = { (put(u, CatOf<U>::value), 0)... }; (void)x; return done(false); } };
inline void lambdas(Source& s, XA& a, XB& b, XC& c) {
    Rec rec; std::memset(&rec, 0, sizeof rec); int salt = s.below(50), form = s.below(26), tok = s.chance(1, 7) ? 5 : 0; Base bs(&rec, salt, tok);
    auto l = [&](auto&&... u) { int x[] = { (bs.put(u, CatOf<decltype(u)>::value), 0)... }; (void)x; return bs.done(true); };
    auto lr = [&](auto&&... u) -> int& { int x[] = { (bs.put(u, CatOf<decltype(u)>::value), 0)... }; (void)x; return Res<int&>::make(bs.done(true)); };
    auto lu = [&](auto&&... u) { int x[] = { (bs.put(u, CatOf<decltype(u)>::value), 0)... }; (void)x; return std::unique_ptr<int>(new int(bs.done(true))); };
    auto lv = [&](auto&&... u) -> void { int x[] = { (bs.put(u, CatOf<decltype(u)>::value), 0)... }; (void)x; bs.done(true); }; bool isvoid = false;
    const auto cl = l; const auto clr = lr; auto dlr = boost::apply_visitor(lr); auto dlu = boost::apply_visitor(lu);
    VA& x = a.v(); VB& y = b.v(); VC& z = c.v(); const VA& cx = x; const VB& cy = y; const VC& cz = z; int r = 0; bool threw = false, cats = true; Want w;
    TRACE("  generic lambda form " << form << " (" << a.k << "," << b.k << "," << c.k << ")" << (tok ? " throwing" : ""));
    w.n = 2; w.a[0] = arg(a, ida(a.k), LV, true); w.a[1] = arg(b, idb(b.k), LV, true); w.a[2] = arg(c, idc(c.k), LV, true);
    try { switch (form) {
    case 0: r = boost::apply_visitor(l, x, y); break;
    case 1: w.a[0].cat = CLV; r = boost::apply_visitor(cl, cx, y); break;
    case 2: w.a[1].cat = CLV; r = Res<int&>::get(boost::apply_visitor(lr, x, cy)); break;
    case 3: w.a[0].cat = w.a[1].cat = RV; r = boost::apply_visitor(l, std::move(x), std::move(y)); break;
    case 4: w.a[1].cat = RV; r = boost::apply_visitor(l, x, std::move(y)); break;
    case 5: w.n = 3; r = boost::apply_visitor(l, x, y, z); break;
    case 6: w.n = 3; w.a[0].cat = w.a[2].cat = CLV; r = boost::apply_visitor(cl, cx, y, cz); break;
    case 7: w.n = 4; w.a[3] = arg(a, ida(a.k), CLV, true); r = boost::apply_visitor(l, x, y, z, cx); break;
    case 8: w.a[0].cat = RV; r = boost::apply_visitor(cl, std::move(x), y); break;
    case 14: w.n = 3; w.a[2].cat = RV; r = boost::apply_visitor(l, x, y, std::move(z)); break;
    case 15: w.n = 3; w.a[0].cat = w.a[1].cat = RV; r = boost::apply_visitor(l, std::move(x), std::move(y), z); break;
    case 16: w.n = 4; w.a[0].cat = w.a[1].cat = CLV; w.a[2].cat = RV; w.a[3] = arg(a, ida(a.k), RV, true); r = boost::apply_visitor(cl, cx, cy, std::move(z), std::move(x)); break;
    case 17: w.a[0].cat = CLV; r = Res<int&>::get(boost::apply_visitor(clr, cx, y)); break;
    case 18: w.n = 3; w.a[1].cat = CLV; r = Res<int&>::get(boost::apply_visitor(lr, x, cy, z)); break;
    case 19: w.n = 3; w.a[2].cat = RV; r = Res<int&>::get(boost::apply_visitor(clr, x, y, std::move(z))); break;
    case 20: w.n = 4; w.a[3] = arg(a, ida(a.k), CLV, true); r = Res<int&>::get(boost::apply_visitor(lr, x, y, z, cx)); break;
    case 21: w.a[1].cat = CLV; r = Res<int&>::get(dlr(x, cy)); break;
    case 22: w.n = 3; r = Res<int&>::get(dlr(x, y, z)); break;
    case 23: { std::unique_ptr<int> q = s.below(2) ? boost::apply_visitor(lu, x, y) : dlu(x, y); r = *q; break; }
    case 24: { w.n = 3; std::unique_ptr<int> q = s.below(2) ? boost::apply_visitor(lu, x, y, z) : dlu(x, y, z); r = *q; break; }
    case 25: isvoid = true; if (s.below(2)) boost::apply_visitor(lv, x, y); else { w.n = 3; boost::apply_visitor(lv, x, y, z); } break;
    default: {
        Free f(&rec, salt, tok); auto d = boost::apply_visitor(f); bool t2 = false;
        try { switch (form) {
        case 9: w.a[1].cat = CLV; r = d(x, cy); break;
        case 10: w.n = 3; r = d(x, y, z); break;
        case 11: r = boost::apply_visitor(f, x, y); break;
        case 12: w.n = 3; w.a[1].cat = CLV; r = boost::apply_visitor(f, x, cy, z); break;
        default: w.n = 4; w.a[3] = arg(c, idc(c.k), CLV, true); r = d(x, y, z, cz); break;
        } } catch (const Tok&) { t2 = true; }
        CHECK(P(6), f.n == 1 && rec.self == static_cast<Base*>(&f), "visitation did not call the given visitor");
        if (t2) throw Tok{ tok };
        } break;
    } } catch (const Tok& t) { threw = true; CHECK(P(6), t.n == tok, "wrong exception"); }
    verify(rec, w, cats, threw, tok, "generic lambda visitation");
    if (!threw && !isvoid) CHECK(P(6), r == expect_hash(w, salt), "generic lambda visitation returned " << r);
    CHECK(P(6), a.intact() && b.intact() && c.intact(), "visitation changed an operand");
    pbt::nontrivial();
}
#endif
template <class R, class Vis> void run_bin(Source& s, bool cats) { XA a(s, s.below(3), some_val(s)); XB b(s, s.below(4), some_val(s)); binary<R, Vis>(s, a, b, cats); }
template <class R, class Vis> void run_ter(Source& s, bool cats) { XA a(s, s.below(3), some_val(s)); XB b(s, s.below(4), some_val(s)); XC c(s, s.below(2), some_val(s)); ternary<R, Vis>(s, a, b, c, cats); }
template <class R, class Vis> void run_nary(Source& s, bool cats) { XC c(s, s.below(2), some_val(s)), d(s, s.below(2), some_val(s)), e(s, s.below(2), some_val(s)), f(s, s.below(2), some_val(s)), g(s, s.below(2), some_val(s)); quaternary<R, Vis>(s, c, d, e, f, g, cats); }
#if __cplusplus >= 201402L
inline void run_lam(Source& s) { XA a(s, s.below(3), some_val(s)); XB b(s, s.below(4), some_val(s)); XC c(s, s.below(2), some_val(s)); lambdas(s, a, b, c); }
#endif
}
#define MV_CASE(tag, ...) \
    static void tag##_run(pbt::Source& s) { tk::reset(); int n = 0; do { __VA_ARGS__; } while (s.more() && ++n < 10); CHECK(pbt::P(4), tk::st().n == 0, "objects leaked"); } \
    PBT_CASE(#tag, tag##_run, 10, pbt::P(6))
#endif
