#define POLY_PART2
#include "poly.cpp"
