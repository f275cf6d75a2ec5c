// Stand-in for Intel IPP (signal processing): the part of its documented interface the library uses and its neighbours.
#pragma once
extern "C" {
typedef unsigned char Ipp8u;
typedef float Ipp32f;
typedef double Ipp64f;
typedef int IppStatus;
typedef struct { Ipp32f re, im; } Ipp32fc;
typedef struct { Ipp64f re, im; } Ipp64fc;
typedef enum { ippAlgHintNone, ippAlgHintFast, ippAlgHintAccurate } IppHintAlgorithm;

#define IPP_FFT_DIV_FWD_BY_N 1
#define IPP_FFT_DIV_INV_BY_N 2
#define IPP_FFT_DIV_BY_SQRTN 4
#define IPP_FFT_NODIV_BY_ANY 8

#define ippStsNoErr 0
#define ippStsErr -2
#define ippStsBadArgErr -5
#define ippStsSizeErr -6
#define ippStsNullPtrErr -8
#define ippStsMemAllocErr -9
#define ippStsFftOrderErr -15
#define ippStsFftFlagErr -16
#define ippStsContextMatchErr -17

Ipp8u* ippsMalloc_8u(int len);
Ipp32f* ippsMalloc_32f(int len);
Ipp64f* ippsMalloc_64f(int len);
void ippsFree(void* ptr);
void ippFree(void* ptr);
char const* ippGetStatusString(IppStatus s);
IppStatus ippInit(void);

#define NEO_SIM_FFT(KIND, SUF) \
    struct FFTSpec_##KIND##_##SUF; \
    typedef struct FFTSpec_##KIND##_##SUF IppsFFTSpec_##KIND##_##SUF; \
    IppStatus ippsFFTGetSize_##KIND##_##SUF(int order, int flag, IppHintAlgorithm hint, int* spec, int* init, int* work); \
    IppStatus ippsFFTInit_##KIND##_##SUF(IppsFFTSpec_##KIND##_##SUF** pp, int order, int flag, IppHintAlgorithm hint, Ipp8u* spec, Ipp8u* init)
NEO_SIM_FFT(C, 32fc);
NEO_SIM_FFT(C, 64fc);
NEO_SIM_FFT(C, 32f);
NEO_SIM_FFT(C, 64f);
NEO_SIM_FFT(R, 32f);
NEO_SIM_FFT(R, 64f);
#undef NEO_SIM_FFT

#define NEO_SIM_CC(DIR, SUF) \
    IppStatus ippsFFT##DIR##_CToC_##SUF(Ipp##SUF const* src, Ipp##SUF* dst, IppsFFTSpec_C_##SUF const* spec, Ipp8u* work); \
    IppStatus ippsFFT##DIR##_CToC_##SUF##_I(Ipp##SUF* x, IppsFFTSpec_C_##SUF const* spec, Ipp8u* work)
NEO_SIM_CC(Fwd, 32fc);
NEO_SIM_CC(Inv, 32fc);
NEO_SIM_CC(Fwd, 64fc);
NEO_SIM_CC(Inv, 64fc);
#undef NEO_SIM_CC
#define NEO_SIM_CS(DIR, SUF) \
    IppStatus ippsFFT##DIR##_CToC_##SUF(Ipp##SUF const* re, Ipp##SUF const* im, Ipp##SUF* ore, Ipp##SUF* oim, IppsFFTSpec_C_##SUF const* spec, Ipp8u* work); \
    IppStatus ippsFFT##DIR##_CToC_##SUF##_I(Ipp##SUF* re, Ipp##SUF* im, IppsFFTSpec_C_##SUF const* spec, Ipp8u* work)
NEO_SIM_CS(Fwd, 32f);
NEO_SIM_CS(Inv, 32f);
NEO_SIM_CS(Fwd, 64f);
NEO_SIM_CS(Inv, 64f);
#undef NEO_SIM_CS
#define NEO_SIM_R(SUF) \
    IppStatus ippsFFTFwd_RToCCS_##SUF(Ipp##SUF const* src, Ipp##SUF* dst, IppsFFTSpec_R_##SUF const* spec, Ipp8u* work); \
    IppStatus ippsFFTFwd_RToCCS_##SUF##_I(Ipp##SUF* x, IppsFFTSpec_R_##SUF const* spec, Ipp8u* work); \
    IppStatus ippsFFTInv_CCSToR_##SUF(Ipp##SUF const* src, Ipp##SUF* dst, IppsFFTSpec_R_##SUF const* spec, Ipp8u* work); \
    IppStatus ippsFFTInv_CCSToR_##SUF##_I(Ipp##SUF* x, IppsFFTSpec_R_##SUF const* spec, Ipp8u* work)
NEO_SIM_R(32f);
NEO_SIM_R(64f);
#undef NEO_SIM_R
#define NEO_SIM_D(SUF) \
    struct DFTSpec_C_##SUF; \
    typedef struct DFTSpec_C_##SUF IppsDFTSpec_C_##SUF; \
    IppStatus ippsDFTGetSize_C_##SUF(int len, int flag, IppHintAlgorithm hint, int* spec, int* init, int* work); \
    IppStatus ippsDFTInit_C_##SUF(int len, int flag, IppHintAlgorithm hint, IppsDFTSpec_C_##SUF* spec, Ipp8u* init); \
    IppStatus ippsDFTFwd_CToC_##SUF(Ipp##SUF const* src, Ipp##SUF* dst, IppsDFTSpec_C_##SUF const* spec, Ipp8u* work); \
    IppStatus ippsDFTInv_CToC_##SUF(Ipp##SUF const* src, Ipp##SUF* dst, IppsDFTSpec_C_##SUF const* spec, Ipp8u* work)
NEO_SIM_D(32fc);
NEO_SIM_D(64fc);
#undef NEO_SIM_D
#define NEO_SIM_DCT(DIR, SUF) \
    struct DCT##DIR##Spec_##SUF; \
    typedef struct DCT##DIR##Spec_##SUF IppsDCT##DIR##Spec_##SUF; \
    IppStatus ippsDCT##DIR##GetSize_##SUF(int len, IppHintAlgorithm hint, int* spec, int* init, int* work); \
    IppStatus ippsDCT##DIR##Init_##SUF(IppsDCT##DIR##Spec_##SUF** pp, int len, IppHintAlgorithm hint, Ipp8u* spec, Ipp8u* init); \
    IppStatus ippsDCT##DIR##_##SUF(Ipp##SUF const* src, Ipp##SUF* dst, IppsDCT##DIR##Spec_##SUF const* spec, Ipp8u* work); \
    IppStatus ippsDCT##DIR##_##SUF##_I(Ipp##SUF* x, IppsDCT##DIR##Spec_##SUF const* spec, Ipp8u* work)
NEO_SIM_DCT(Fwd, 32f);
NEO_SIM_DCT(Fwd, 64f);
NEO_SIM_DCT(Inv, 32f);
NEO_SIM_DCT(Inv, 64f);
#undef NEO_SIM_DCT
}
