#pragma once
extern "C" {
void cblas_sscal(NEO_SIM_BLAS_INT n, float alpha, float* x, NEO_SIM_BLAS_INT inc);
void cblas_dscal(NEO_SIM_BLAS_INT n, double alpha, double* x, NEO_SIM_BLAS_INT inc);
void cblas_cscal(NEO_SIM_BLAS_INT n, void const* alpha, void* x, NEO_SIM_BLAS_INT inc);
void cblas_zscal(NEO_SIM_BLAS_INT n, void const* alpha, void* x, NEO_SIM_BLAS_INT inc);
void cblas_csscal(NEO_SIM_BLAS_INT n, float alpha, void* x, NEO_SIM_BLAS_INT inc);
void cblas_zdscal(NEO_SIM_BLAS_INT n, double alpha, void* x, NEO_SIM_BLAS_INT inc);
}
