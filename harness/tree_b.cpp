#include "tree.hpp"
// recursive_wrapper of a class declared later, and a keyed container
typedef tk::CM<1> A1; typedef tk::CM<3, tk::NTDEF | tk::NTMOVE> A3;
struct Bin;
typedef boost::variant<A1, int, boost::recursive_wrapper<Bin>, A3> R3;
struct Bin { R3 l; tk::CM<5, tk::NTMOVE> tag; R3 r;
    Bin(const R3& a, const R3& b, int v) : l(a), tag(tk::Raw(), v), r(b) {} };
inline bool operator==(const Bin& x, const Bin& y) { return x.tag == y.tag && x.l == y.l && x.r == y.r; }
inline bool operator<(const Bin& x, const Bin& y) { if (!(x.tag == y.tag)) return x.tag < y.tag; if (!(x.l == y.l)) return x.l < y.l; return x.r < y.r; }
inline std::size_t hash_value(const Bin& x) { std::size_t h = 5; boost::hash_combine(h, x.tag.value()); boost::hash_combine(h, x.l); boost::hash_combine(h, x.r); return h; }
inline std::ostream& operator<<(std::ostream& o, const Bin& x) { return o << '<' << x.tag.value() << ' ' << x.l << ' ' << x.r << '>'; }
typedef boost::make_recursive_variant<int, tr::Dict<boost::recursive_variant_>, A1, tr::Seq<boost::recursive_variant_> >::type R4;
namespace tr {
template <> struct Part<R3, Bin> {
    enum { leaf = 0, arity = 2 };
    static void build(std::vector<Node> const& k, int v, void* p) { new (p) Bin(make<R3>(k[0]), make<R3>(k[1]), v); }
    static void read(const Bin& t, Node& n) { n.val = t.tag.value(); n.kids.push_back(model(t.l)); n.kids.push_back(model(t.r)); }
    static void kids(Bin& t, std::vector<R3*>& o) { o.push_back(&t.l); o.push_back(&t.r); }
    static int canon(int v) { return v; }
    static bool lt(const Node& a, const Node& b) { if (a.val != b.val) return a.val < b.val; return less_seq<R3>(a.kids, b.kids); }
    static bool ntdef() { return false; }
};
template <> struct Ops<R3> : TreeOps<R3, A1, int, Bin, A3> {
    TREE_TEXT_BEGIN case 0: o << "o1:" << n.val; break; case 1: o << n.val; break; case 2: o << '<' << n.val << ' ' << in.substr(0, in.size() - 1) << '>'; break; default: o << "o3:" << n.val; TREE_TEXT_END
};
template <> struct Ops<R4> : TreeOps<R4, int, Dict<R4>, A1, Seq<R4> > {
    TREE_TEXT_BEGIN case 0: o << n.val; break; case 1: o << '{' << in << '}'; break; case 2: o << "o1:" << n.val; break; default: o << '[' << in << ']'; TREE_TEXT_END
};
}
TREE_CASE(tree3, R3);
TREE_CASE(tree4, R4);
