#include "core.hpp"
using namespace tk;
// move assignment cannot throw although move construction can, and the reverse
typedef CM<1, NTMA> A1; typedef CM<2, NTMA | NTMOVE> A2; typedef CO<3, NTCA> A3; typedef CM<4, NTMOVE> A4; typedef CM<5, NTMA | NTDEF> A5; typedef MO<6, NTMA> A6;
CORE_CASES(ntma, boost::variant<A1, A2>, A1, A2);
CORE_CASES(ntmafb, boost::variant<A2, A1, A5>, A2, A1, A5);
CORE_CASES(ntmv, boost::variant<A2, A4>, A2, A4);
CORE_CASES(ntca, boost::variant<int, A3, A1, A2>, int, A3, A1, A2);
CORE_CASES(ntmo, boost::variant<A2, boost::blank, A6>, A2, boost::blank, A6);
