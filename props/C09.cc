// pbt-build: extra=C09_20.cc:-std=c++20
// pbt-build: lib=no
// C09 as compiled by C++17 (the library's own standard).
#define DIM 3
#define UNARY unary
#define UNARY_NESTED unary_nested
#define BINARY binary
#define BINARY_NESTED binary_nested
#define TERNARY ternary
#define SPECIAL special_values
#define POW_SPECIAL pow_special
#define EIGEN eigen
#include "C09_impl.h"
PBT_MAIN("C09", "at least one tangent component is non-zero (unary) or the operands are general dual numbers")
