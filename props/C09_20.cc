// C09 as compiled by C++20 users (lerp, midpoint, fmax/fmin through midpoint).
#define DIM 2
#define UNARY unary20
#define UNARY_NESTED unary_nested20
#define BINARY binary20
#define BINARY_NESTED binary_nested20
#define TERNARY ternary20
#define SPECIAL special_values20
#define POW_SPECIAL pow_special20
#define EIGEN eigen20
#include "C09_impl.h"
