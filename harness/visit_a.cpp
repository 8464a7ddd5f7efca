#include "visit.hpp"
using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTMOVE> A3; typedef CO<4, NTCOPY> A4;
VISIT_CASES(visit_backup, boost::variant<A1, A2, A3, A4>, A1, A2, A3, A4);
