#include "hashx.hpp"
HASH_CASES(hash_std, std::string, int, std::vector<int>, char);
HASH_CASES(hash_nest, Inner, int, boost::recursive_wrapper<std::string>, double);
