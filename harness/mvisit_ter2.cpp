#include "mvisit.hpp"
MV_CASE(mvisit_ter_void, (mv::run_ter<int&, mv::Plain<int&> >(s, false)));
