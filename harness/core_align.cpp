#include "core.hpp"
using namespace tk;
typedef CM<1, 0, 1, 8> A1; typedef CM<2, NTMOVE, 37, 64> A2; typedef CO<3, 0, 200, 16> A3; typedef CM<4, NTMOVE, 3, 32> A4;
CORE_CASES(align, boost::variant<char, A1, A2, A3, A4>, char, A1, A2, A3, A4);
