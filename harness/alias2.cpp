// no alternative can be default-constructed without throwing
#include "values.hpp"
namespace al2 {
using pbt::P; using pbt::Source;
typedef tk::CM<1> A; typedef tk::CO<2> C; typedef tk::CM<3, tk::NTCOPY> Q;
struct Bx { A a; C c; Q q; explicit Bx(int v) : a(tk::Raw(), v), c(tk::Raw(), v), q(tk::Raw(), v) {} };
typedef boost::variant<A, Bx, C, Q> V;
void nofb(Source& s) {
    tk::reset();
    { Bx b0(s.below(9)); V v(b0); int n = 0, did = 0; int val = b0.a.value();
      while (s.more() && n++ < 30) {
        int alt = v.which(), how = s.below(4); bool inj = s.below(3) == 2, threw = false; int tok = tk::st().token, k = alt;
        if (alt != 1 && how == 3) { val = s.below(9); Bx b(val); v = b; TRACE("  v = Box " << val); continue; }
        TRACE("  alternative " << alt << " value " << val << ", form " << how << (inj ? " with a failure" : ""));
        if (inj) tk::arm(1 + s.below(4), s.flip() ? tk::K_ANY : tk::K_COPY, false);
        try { switch (alt) {
            case 0: v = const_cast<const A&>(boost::get<A>(v)); break;
            case 1: { Bx& b = boost::get<Bx>(v); if (how == 0) { k = 0; v = const_cast<const A&>(b.a); } else if (how == 1) { k = 2; v = const_cast<const C&>(b.c); } else if (how == 2) { k = 3; v = const_cast<const Q&>(b.q); } else v = const_cast<const Bx&>(b); break; }
            case 2: v = const_cast<const C&>(boost::get<C>(v)); break;
            default: v = const_cast<const Q&>(boost::get<Q>(v)); }
        } catch (const tk::Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
        tk::disarm(); ++did; CHECK(P(23) | P(3), threw == (tk::st().token != tok), "an exception was swallowed");
        CHECK(P(23) | P(3), v.which() == (threw ? alt : k), "alternative " << v.which() << " after assigning a part of the content, expected " << (threw ? alt : k));
        const V& c = v; int got = v.which() == 0 ? boost::get<A>(c).value() : v.which() == 1 ? boost::get<Bx>(c).a.value() : v.which() == 2 ? boost::get<C>(c).value() : boost::get<Q>(c).value();
        CHECK(P(23) | P(3), got == val, "value " << got << " after assigning a part of the content, expected " << val);
      }
      if (did) pbt::nontrivial(); }
    CHECK(P(23) | P(4), tk::st().n == 0, tk::st().n << " objects never destroyed");
}
}
using al2::nofb; PBT_CASE("alias2.nofb", nofb, 10, pbt::P(23));
