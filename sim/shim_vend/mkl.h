#pragma once
#include "mkl_dfti.h"
typedef int MKL_INT;
#define NEO_SIM_BLAS_INT MKL_INT
#include "neo_sim_cblas.h"
