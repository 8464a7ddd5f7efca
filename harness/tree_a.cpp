#include "tree.hpp"
// make_recursive_variant with and without a nothrow-default-constructible alternative
typedef tk::CM<1> A1; typedef tk::CO<2> A2;
typedef boost::make_recursive_variant<A1, std::string, tr::Seq<boost::recursive_variant_>, tr::Pair2<boost::recursive_variant_> >::type R1;
typedef boost::make_recursive_variant<A2, tr::Seq<boost::recursive_variant_>, A1>::type R2;
namespace tr {
template <> struct Ops<R1> : TreeOps<R1, A1, std::string, Seq<R1>, Pair2<R1> > {
    TREE_TEXT_BEGIN case 0: o << "o1:" << n.val; break; case 1: if (n.val != -1) o << VT<std::string>::str(n.val); break; case 2: o << '[' << in << ']'; break; default: o << '<' << n.val << ' ' << in.substr(0, in.size() - 1) << '>'; TREE_TEXT_END
};
template <> struct Ops<R2> : TreeOps<R2, A2, Seq<R2>, A1> {
    TREE_TEXT_BEGIN case 0: o << "o2:" << n.val; break; case 1: o << '[' << in << ']'; break; default: o << "o1:" << n.val; TREE_TEXT_END
};
}
TREE_CASE(tree1, R1);
TREE_CASE(tree2, R2);
