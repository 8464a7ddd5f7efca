#include "mvisit.hpp"
MV_CASE(mvisit_bin_void, (mv::run_bin<void, mv::Fwd<void> >(s, true)));
