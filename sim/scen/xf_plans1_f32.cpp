#define REAL float
#define SUF "_f32"
#define PART 1
#include "xf_plans_impl.inc"
