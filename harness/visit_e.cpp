#include "visit.hpp"
using namespace tk;
// many alternatives
#define WIDE CM<1>, CO<2>, CM<3, NTMOVE>, CO<4, NTCOPY>, CM<5>, boost::recursive_wrapper<CM<6> >, int, CO<8>, std::string, CM<10>, CO<11>, CM<12>, CM<13>, CO<14>, CM<15>, CM<16>, CM<17>, CM<18>
VISIT_CASES(visit_wide, boost::variant<WIDE>, WIDE);
