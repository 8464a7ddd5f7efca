#include "cmp.hpp"
CMP_CASES(cmp_std, 4, boost::blank, std::string, int, std::vector<int>);
CMP_CASES(cmp_nest, 4, Inner, char, boost::recursive_wrapper<std::string>, double);
typedef L<5> Le;
static void nan_p(pbt::Source& s) { cm::Runner<boost::variant<int, Nan, Le>, int, Nan, Le>::pairs(s); }
PBT_CASE("cmp_nan.pairs", nan_p, 10, pbt::P(9));
