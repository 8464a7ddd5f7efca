#include "core.hpp"
using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTMOVE | NTDEF> A3; typedef CM<4, NTALL> A4;
typedef boost::recursive_wrapper<A1> W1; typedef boost::recursive_wrapper<A3> W3;
CORE_CASES(wrap, boost::variant<W1, A2, W3, CM<5, NTMOVE> >, W1, A2, W3, CM<5, NTMOVE>);
CORE_CASES(wrapfb, boost::variant<A2, W1, A4>, A2, W1, A4);
typedef boost::recursive_wrapper<int> Wi; typedef boost::recursive_wrapper<double> Wd;
CORE_CASES(wrapint, boost::variant<Wi, A2, Wd>, Wi, A2, Wd);
