#include "cmp.hpp"
// many alternatives
CMP_CASES(cmp_wide, 4, L<1>, L<2>, L<3, tk::NTMOVE>, L<4>, L<5>, boost::recursive_wrapper<L<6> >, L<7>, L<8>, L<9>, L<10>, L<11>, L<12>, L<13>, L<14>, L<15>, L<16>, L<17>, L<18>);
