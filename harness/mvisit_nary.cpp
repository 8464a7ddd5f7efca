#include "mvisit.hpp"
MV_CASE(mvisit_nary_int, (mv::run_nary<int, mv::Fwd<int> >(s, true)));
