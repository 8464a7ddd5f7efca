#include "mvisit.hpp"
#if __cplusplus >= 201402L
MV_CASE(mvisit_lambda, mv::run_lam(s));
#endif
