#include "core.hpp"
using namespace tk;
typedef CM<1> A1; typedef CM<2, NTDEF> A2; typedef CO<3> A3; typedef CM<4, NTCOPY | NTMOVE> A4; typedef CM<5, NTMOVE> A5;
// boost::blank late in the list, after another nothrow-default-constructible type
CORE_CASES(blank, boost::variant<A1, A2, A3, boost::blank, A4, A5>, A1, A2, A3, boost::blank, A4, A5);
