// Uniform call table over the three programming interfaces of one build of the library.
#ifndef VF_API_H
#define VF_API_H
#include <stdint.h>
#include <mpi.h>
enum { KIND_FFT3D = 0, KIND_FFT2D = 1, KIND_REMAP3D = 2, KIND_REMAP2D = 3 };
enum { API_CPP = 0, API_C = 1, API_F = 2 };
#ifdef __cplusplus
extern "C" {
#endif
struct vf_alloc_stats { long live, bytes, plans, copies; };
struct vf_api {
  int scalar_size; int has_fortran;
  void *(*create)(int kind, MPI_Comm comm, int prec);
  void (*destroy)(int kind, void *p);
  void (*set)(int kind, void *p, const char *key, int val);
  // dims[3]; in/out = lo,hi per dimension (6 ints, 4 used in 2d); sizes = fftsize,sendsize,recvsize
  void (*setup)(int kind, void *p, const int *dims, const int *in, const int *out, int nqty, int permute, int memflag, int *sizes);
  void (*tune)(int kind, void *p, const int *dims, const int *in, const int *out, int permute, int *sizes, int flag, int niter, double tmax, int tflag);
  void (*setup_memory)(int kind, void *p, void *s, void *r);
  void (*compute)(int kind, void *p, void *in, void *out, int flag);
  void (*only_1d)(int kind, void *p, void *in, int flag);
  void (*only_remaps)(int kind, void *p, void *in, void *out, int flag);
  void (*only_one)(int kind, void *p, void *in, void *out, int flag, int which);
  void (*remap)(int kind, void *p, void *in, void *out, void *s, void *r);
  int (*get_int)(int kind, void *p, const char *key);
  double (*get_double)(int kind, void *p, const char *key);
  int64_t (*get_int64)(int kind, void *p, const char *key);
  const char *(*get_string)(int kind, void *p, const char *key, int *len);
  int *(*get_int_vector)(int kind, void *p, const char *key, int *len);
  double *(*get_double_vector)(int kind, void *p, const char *key, int *len);
};
const struct vf_api *vf_get_api(int api);
void vf_alloc(struct vf_alloc_stats *);
#ifdef __cplusplus
}
#endif
#endif
