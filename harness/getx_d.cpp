#include "getx.hpp"
using namespace gx; using namespace tk;
// many alternatives
#define WIDE CM<1>, CO<2>, CM<3, NTMOVE>, CO<4, NTCOPY>, CM<5>, boost::recursive_wrapper<CM<6> >, int, CO<8>, std::string, CM<10>, CO<11>, CM<12>, CM<13>, CO<14>, CM<15>, CM<16>, CM<17>, CM<18>
typedef boost::variant<WIDE> V;
typedef Req<CM<1>, CO<2>, CM<3, NTMOVE>, CM<6>, int, CO<8>, CM<16>, CM<17>, CM<18>, CM<19>, CO<3>, long> R;
GET_CASES(get_wide, R, V, WIDE);
