#include "core.hpp"
using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTMOVE> A3; typedef CO<4, NTCOPY> A4; typedef CM<5, NTCOPY> A5;
// no nothrow-default-constructible alternative: failed assignments go through a backup
CORE_CASES(backup, boost::variant<A1, A2, A3, A4, A5>, A1, A2, A3, A4, A5);
