#include "visit.hpp"
using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTMOVE> A3;
VISIT_CASES(visit_wrap, boost::variant<boost::recursive_wrapper<A1>, A2, boost::recursive_wrapper<A3> >, boost::recursive_wrapper<A1>, A2, boost::recursive_wrapper<A3>);
