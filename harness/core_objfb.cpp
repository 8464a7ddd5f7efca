#include "core.hpp"
using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTDEF | NTMOVE> A3;
// the only fallback is a class type in last position
CORE_CASES(objfb, boost::variant<A1, A2, A3>, A1, A2, A3);
