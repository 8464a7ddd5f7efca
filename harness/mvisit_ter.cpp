#include "mvisit.hpp"
MV_CASE(mvisit_ter_int, (mv::run_ter<std::unique_ptr<int>, mv::Fwd<std::unique_ptr<int> > >(s, true)));
