#define REAL double
#define SUF "_f64"
#define PART 2
#include "xf_plans_impl.inc"
