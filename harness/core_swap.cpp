#include "core.hpp"
using namespace tk;
// contents with a swap of their own; the moves and copies of most of them may throw
typedef SW<1> A1; typedef SW<2, NTCOPY> A2; typedef SW<3, NTMOVE> A3; typedef boost::recursive_wrapper<SW<4> > W4; typedef SW<5, NTDEF> A5;
CORE_CASES(ownswap, boost::variant<A1, W4, A2, A3, CM<6> >, A1, W4, A2, A3, CM<6>);
CORE_CASES(ownswapfb, boost::variant<A1, A5, W4>, A1, A5, W4);
