#include "mvisit.hpp"
MV_CASE(mvisit_bin_int, (mv::run_bin<int, mv::Fwd<int> >(s, true)));
