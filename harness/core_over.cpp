#include "core.hpp"
using namespace tk;
#include <boost/mpl/vector/vector30.hpp>
// 24 alternatives: beyond the visitation unrolling limit
#define OVER_TYPES CM<1, NTMOVE>, CO<2, NTCOPY>, CM<3, 0>, CO<4, NTMOVE | NTMA>, CM<5, 0>, CO<6, NTMOVE>, CM<7, NTCOPY>, CO<8, 0>, CM<9, NTMOVE | NTMA>, CO<10, 0>, CM<11, NTMOVE>, CO<12, NTCOPY>, CM<13, 0>, CO<14, NTMOVE | NTMA>, CM<15, 0>, CO<16, NTMOVE>, CM<17, NTCOPY>, CO<18, 0>, CM<19, NTMOVE | NTMA>, CO<20, 0>, CM<21, NTMOVE>, CO<22, NTCOPY>, CM<23, 0>, CO<24, NTMOVE | NTMA>
typedef boost::make_variant_over<boost::mpl::vector24<OVER_TYPES>::type>::type OV;
CORE_CASES(over24, OV, OVER_TYPES);
