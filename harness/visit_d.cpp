#include "visit.hpp"
using namespace tk;
VISIT_CASES(visit_one, boost::variant<CM<1> >, CM<1>);
