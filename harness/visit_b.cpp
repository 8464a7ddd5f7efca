#include "visit.hpp"
using namespace tk;
typedef CM<1> A1; typedef CO<2> A2; typedef CM<3, NTMOVE> A3;
VISIT_CASES(visit_mixed, boost::variant<A1, std::string, int, double, std::vector<int>, boost::recursive_wrapper<A3>, boost::blank>, A1, std::string, int, double, std::vector<int>, boost::recursive_wrapper<A3>, boost::blank);
