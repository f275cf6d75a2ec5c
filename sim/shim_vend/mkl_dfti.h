// Stand-in for the DFTI interface of Intel MKL.
#pragma once
extern "C" {
typedef long MKL_LONG;
struct DFTI_DESCRIPTOR;
typedef struct DFTI_DESCRIPTOR* DFTI_DESCRIPTOR_HANDLE;
enum DFTI_CONFIG_PARAM { DFTI_FORWARD_DOMAIN = 0, DFTI_DIMENSION = 1, DFTI_LENGTHS = 2, DFTI_PRECISION = 3, DFTI_FORWARD_SCALE = 4, DFTI_BACKWARD_SCALE = 5,
    DFTI_NUMBER_OF_TRANSFORMS = 7, DFTI_COMPLEX_STORAGE = 8, DFTI_REAL_STORAGE = 9, DFTI_PLACEMENT = 11, DFTI_INPUT_STRIDES = 12, DFTI_OUTPUT_STRIDES = 13,
    DFTI_THREAD_LIMIT = 27, DFTI_COMMIT_STATUS = 22 };
enum DFTI_CONFIG_VALUE { DFTI_COMMITTED = 30, DFTI_UNCOMMITTED = 31, DFTI_COMPLEX = 32, DFTI_REAL = 33, DFTI_SINGLE = 35, DFTI_DOUBLE = 36,
    DFTI_COMPLEX_COMPLEX = 39, DFTI_REAL_REAL = 42, DFTI_INPLACE = 43, DFTI_NOT_INPLACE = 44 };
#define DFTI_NO_ERROR 0
#define DFTI_MEMORY_ERROR 1
#define DFTI_INVALID_CONFIGURATION 2
#define DFTI_BAD_DESCRIPTOR 4
#define DFTI_UNIMPLEMENTED 6
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE*, enum DFTI_CONFIG_VALUE, enum DFTI_CONFIG_VALUE, MKL_LONG, ...);
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE, enum DFTI_CONFIG_PARAM, ...);
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE);
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE, void*, ...);
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE, void*, ...);
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE*);
MKL_LONG DftiErrorClass(MKL_LONG, MKL_LONG);
char* DftiErrorMessage(MKL_LONG);
}
