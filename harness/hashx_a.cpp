#include "hashx.hpp"
typedef L<1> La; typedef L<2, tk::NTALL> Lb; typedef L<3> Lc; typedef L<4> Ld;
HASH_CASES(hash_log, La, Lb, boost::recursive_wrapper<Lc>);
HASH_CASES(hash_backup, La, Lc, Ld);
