#include "stream.hpp"
STREAM_CASES(stream_w, wchar_t, int, double, wchar_t, char, bool, const char*, void*);
STREAM_CASES(stream_wins, wchar_t, Ins<0>, Ins<1>, boost::recursive_wrapper<Ins<2> >, Ins<3>, Ins<4>, Ins<5>);
STREAM_CASES(stream_wblank, wchar_t, boost::blank, Ins<5>, double);
