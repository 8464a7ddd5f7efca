#include "stream.hpp"
#include <boost/blank.hpp>
STREAM_CASES(stream_n, char, int, double, std::string, char, bool, const char*, void*);
STREAM_CASES(stream_ins, char, Ins<0>, Ins<1>, boost::recursive_wrapper<Ins<2> >, Ins<3>, Ins<4>, Ins<5>);
STREAM_CASES(stream_nest, char, boost::blank, Inner, boost::recursive_wrapper<std::string>, Ins<3>);
