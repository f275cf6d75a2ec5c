// Stand-in for Apple's Accelerate: vDSP transforms on split-complex data, complex multiply-add, cblas scaling.
#pragma once
#define NEO_SIM_BLAS_INT long
#include "../neo_sim_cblas.h"
extern "C" {
typedef unsigned long vDSP_Length;
typedef long vDSP_Stride;
typedef int FFTDirection;
typedef int FFTRadix;
typedef struct DSPSplitComplex { float* realp; float* imagp; } DSPSplitComplex;
typedef struct DSPDoubleSplitComplex { double* realp; double* imagp; } DSPDoubleSplitComplex;
typedef struct OpaqueFFTSetup* FFTSetup;
typedef struct OpaqueFFTSetupD* FFTSetupD;
enum { kFFTDirection_Forward = +1, kFFTDirection_Inverse = -1 };
enum { FFT_FORWARD = kFFTDirection_Forward, FFT_INVERSE = kFFTDirection_Inverse };
enum { kFFTRadix2 = 0, kFFTRadix3 = 1, kFFTRadix5 = 2 };
FFTSetup vDSP_create_fftsetup(vDSP_Length log2n, FFTRadix radix);
FFTSetupD vDSP_create_fftsetupD(vDSP_Length log2n, FFTRadix radix);
void vDSP_destroy_fftsetup(FFTSetup);
void vDSP_destroy_fftsetupD(FFTSetupD);
#define NEO_SIM_V(D, SPLIT, SETUP) \
    void vDSP_fft_zop##D(SETUP, SPLIT const* in, vDSP_Stride is, SPLIT const* out, vDSP_Stride os, vDSP_Length log2n, FFTDirection dir); \
    void vDSP_fft_zip##D(SETUP, SPLIT const* io, vDSP_Stride s, vDSP_Length log2n, FFTDirection dir); \
    void vDSP_zvma##D(SPLIT const* a, vDSP_Stride ia, SPLIT const* b, vDSP_Stride ib, SPLIT const* c, vDSP_Stride ic, SPLIT const* d, vDSP_Stride id, vDSP_Length n)
NEO_SIM_V(, DSPSplitComplex, FFTSetup);
NEO_SIM_V(D, DSPDoubleSplitComplex, FFTSetupD);
#undef NEO_SIM_V
}
