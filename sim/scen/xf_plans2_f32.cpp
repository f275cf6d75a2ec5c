#define REAL float
#define SUF "_f32"
#define PART 2
#include "xf_plans_impl.inc"
