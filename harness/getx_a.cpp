#include "getx.hpp"
using namespace gx;
typedef boost::variant<Base, Derived, int, Conv, boost::recursive_wrapper<FromAny>, Derived2> V;
typedef Req<Base, Derived, int, Conv, FromAny, Derived2, long, unsigned, Agg, double, const char*> R;
GET_CASES(get_related, R, V, Base, Derived, int, Conv, boost::recursive_wrapper<FromAny>, Derived2);
