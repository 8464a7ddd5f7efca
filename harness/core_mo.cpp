#include "core.hpp"
using namespace tk;
typedef MO<1, NTMOVE> A1; typedef MO<2> A2; typedef MO<3, NTMOVE | NTMA> A3; typedef CM<4> A4;
CORE_CASES(moveonly, boost::variant<A2, A1, boost::blank, A3, A4>, A2, A1, boost::blank, A3, A4);
// no fallback: only nothrow-movable types
CORE_CASES(moveonly2, boost::variant<A1, A3>, A1, A3);
