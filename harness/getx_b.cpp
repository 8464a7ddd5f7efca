#include "getx.hpp"
using namespace gx;
typedef boost::variant<char, signed char, unsigned char, short, int, unsigned, long> V;
typedef Req<char, signed char, unsigned char, short, int, unsigned, long, bool, unsigned short, unsigned long, long long, float, double, wchar_t, Color> R;
GET_CASES(get_arith, R, V, char, signed char, unsigned char, short, int, unsigned, long);
