#include "cmp.hpp"
typedef L<1> La; typedef L<2, tk::NTALL> Lb; typedef L<3> Lc; typedef L<4> Ld;
CMP_CASES(cmp_log, 4, La, Lb, boost::recursive_wrapper<Lc>);
CMP_CASES(cmp_backup, 4, La, Lc, Ld);
