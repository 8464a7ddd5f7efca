#include "core.hpp"
using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTALL> A3;
CORE_CASES(one, boost::variant<A1>, A1);
CORE_CASES(two, boost::variant<A2, A1>, A2, A1);
CORE_CASES(nothrow1, boost::variant<A3>, A3);
