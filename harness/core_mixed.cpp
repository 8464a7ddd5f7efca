#include "core.hpp"
using namespace tk;
typedef CO<1> A1; typedef CM<2> A2; typedef CM<3, NTMOVE> A3;
CORE_CASES(mixed, boost::variant<A1, std::string, int, A2, std::vector<int>, A3, double>, A1, std::string, int, A2, std::vector<int>, A3, double);
