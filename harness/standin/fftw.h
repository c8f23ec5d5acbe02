// Stand-in for the part of the FFTW 2 interface that fftMPI uses (the library itself is not available here).
#ifndef VF_FFTW_H
#define VF_FFTW_H
#ifdef FFT_SINGLE
typedef float fftw_real;
#else
typedef double fftw_real;
#endif
typedef struct { fftw_real re, im; } fftw_complex;
typedef fftw_complex FFTW_COMPLEX;
typedef enum { FFTW_FORWARD = -1, FFTW_BACKWARD = 1 } fftw_direction;
struct vf_fftw_plan;
typedef struct vf_fftw_plan *fftw_plan;
#define FFTW_ESTIMATE 0
#define FFTW_MEASURE 1
#define FFTW_OUT_OF_PLACE 0
#define FFTW_IN_PLACE 8
#define FFTW_USE_WISDOM 16
#ifdef __cplusplus
extern "C" {
#endif
fftw_plan fftw_create_plan(int, fftw_direction, int);
void fftw_destroy_plan(fftw_plan);
void fftw(fftw_plan, int, fftw_complex *, int, int, fftw_complex *, int, int);
#ifdef __cplusplus
}
#endif
#endif
