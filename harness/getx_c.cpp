#include "getx.hpp"
using namespace gx; using namespace tk;
typedef boost::variant<CM<1>, const char*, Same<1>, CO<2>, char*, Same<2>, std::string> V;
typedef Req<CM<1>, const char*, Same<1>, CO<2>, char*, Same<2>, std::string, Same<3>, void*, CM<2>, CO<1>, int> R;
GET_CASES(get_ptr, R, V, CM<1>, const char*, Same<1>, CO<2>, char*, Same<2>, std::string);
typedef CM<7> T1; typedef CO<8> T2;
typedef Req<T1, T2, int, CM<1> > R2; typedef boost::variant<T1, T2> V2;
GET_CASES(get_backup, R2, V2, T1, T2);
