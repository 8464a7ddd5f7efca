#include "mvisit.hpp"
MV_CASE(mvisit_bin_ref, (mv::run_bin<int&, mv::Plain<int&> >(s, false)));
