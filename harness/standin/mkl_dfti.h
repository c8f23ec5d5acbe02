// Stand-in for the part of Intel MKL's DFTI interface that fftMPI uses (the library itself is not available here).
#ifndef VF_MKL_DFTI_H
#define VF_MKL_DFTI_H
#include <complex.h>
typedef long MKL_LONG;
enum DFTI_CONFIG_PARAM { DFTI_FORWARD_DOMAIN = 0, DFTI_DIMENSION = 1, DFTI_LENGTHS = 2, DFTI_PRECISION = 3, DFTI_FORWARD_SCALE = 4, DFTI_BACKWARD_SCALE = 5,
  DFTI_NUMBER_OF_TRANSFORMS = 7, DFTI_PLACEMENT = 11, DFTI_INPUT_STRIDES = 12, DFTI_OUTPUT_STRIDES = 13, DFTI_INPUT_DISTANCE = 14, DFTI_OUTPUT_DISTANCE = 15 };
enum DFTI_CONFIG_VALUE { DFTI_COMPLEX = 32, DFTI_REAL = 33, DFTI_SINGLE = 35, DFTI_DOUBLE = 36, DFTI_INPLACE = 43, DFTI_NOT_INPLACE = 44 };
struct DFTI_DESCRIPTOR;
typedef struct DFTI_DESCRIPTOR *DFTI_DESCRIPTOR_HANDLE;
#ifdef __cplusplus
extern "C" {
#endif
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *, enum DFTI_CONFIG_VALUE, enum DFTI_CONFIG_VALUE, MKL_LONG, ...);
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE, enum DFTI_CONFIG_PARAM, ...);
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE);
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *);
#ifdef __cplusplus
}
#endif
#endif
