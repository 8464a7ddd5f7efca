#include "core.hpp"
using namespace tk;
// one-byte alternatives: the backup pointer and the discriminator are the largest parts
typedef CM<1, 0, 0, 1> A1; typedef CO<2, 0, 0, 1> A2; typedef CM<3, NTMOVE, 0, 1> A3; typedef CO<4, NTCOPY, 0, 1> A4; typedef CO<5, NTDEF, 0, 1> A5;
CORE_CASES(tiny, boost::variant<A1, A2, A3, A4>, A1, A2, A3, A4);
CORE_CASES(tinyone, boost::variant<A2>, A2);
CORE_CASES(tinyfb, boost::variant<A1, A2, A5>, A1, A2, A5);
CORE_CASES(tinychar, boost::variant<A1, char, A4>, A1, char, A4);
