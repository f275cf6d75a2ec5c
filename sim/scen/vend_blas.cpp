// cblas scaling as the vendor libraries provide it.
#if defined(NEO_HAS_APPLE_ACCELERATE)
    #include <Accelerate/Accelerate.h>
#else
    #include <mkl.h>
#endif
#include <complex>

namespace {
template<typename A, typename T>
void scal(NEO_SIM_BLAS_INT n, A alpha, T* x, NEO_SIM_BLAS_INT inc)
{
    if (n <= 0 or inc <= 0) {
        return;
    }
    for (NEO_SIM_BLAS_INT i = 0; i < n; ++i) {
        x[i * inc] = x[i * inc] * alpha;
    }
}
using cf = std::complex<float>;
using cd = std::complex<double>;
}  // namespace
extern "C" {
void cblas_sscal(NEO_SIM_BLAS_INT n, float a, float* x, NEO_SIM_BLAS_INT inc) { scal(n, a, x, inc); }
void cblas_dscal(NEO_SIM_BLAS_INT n, double a, double* x, NEO_SIM_BLAS_INT inc) { scal(n, a, x, inc); }
void cblas_cscal(NEO_SIM_BLAS_INT n, void const* a, void* x, NEO_SIM_BLAS_INT inc) { scal(n, *static_cast<cf const*>(a), static_cast<cf*>(x), inc); }
void cblas_zscal(NEO_SIM_BLAS_INT n, void const* a, void* x, NEO_SIM_BLAS_INT inc) { scal(n, *static_cast<cd const*>(a), static_cast<cd*>(x), inc); }
void cblas_csscal(NEO_SIM_BLAS_INT n, float a, void* x, NEO_SIM_BLAS_INT inc) { scal(n, a, static_cast<cf*>(x), inc); }
void cblas_zdscal(NEO_SIM_BLAS_INT n, double a, void* x, NEO_SIM_BLAS_INT inc) { scal(n, a, static_cast<cd*>(x), inc); }
}
