/* The C interface, called from C through its own headers. */
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "fft3d_wrap.h"
#include "fft2d_wrap.h"
#include "remap3d_wrap.h"
#include "remap2d_wrap.h"

static void *c_create(int k, MPI_Comm c, int prec)
{
  void *p = NULL;
  switch (k) {
    case 0: fft3d_create(c, prec, &p); break;
    case 1: fft2d_create(c, prec, &p); break;
    case 2: remap3d_create(c, &p); break;
    default: remap2d_create(c, &p);
  }
  return p;
}
static void c_destroy(int k, void *p)
{
  switch (k) { case 0: fft3d_destroy(p); break; case 1: fft2d_destroy(p); break; case 2: remap3d_destroy(p); break; default: remap2d_destroy(p); }
}
static void c_set(int k, void *p, const char *key, int v)
{
  char b[64]; strncpy(b, key, 63); b[63] = 0;
  switch (k) { case 0: fft3d_set(p, b, v); break; case 1: fft2d_set(p, b, v); break; case 2: remap3d_set(p, b, v); break; default: remap2d_set(p, b, v); }
}
static void c_setup(int k, void *p, const int *d, const int *i, const int *o, int nqty, int perm, int mem, int *s)
{
  switch (k) {
    case 0: fft3d_setup(p, d[0], d[1], d[2], i[0], i[1], i[2], i[3], i[4], i[5], o[0], o[1], o[2], o[3], o[4], o[5], perm, &s[0], &s[1], &s[2]); break;
    case 1: fft2d_setup(p, d[0], d[1], i[0], i[1], i[2], i[3], o[0], o[1], o[2], o[3], perm, &s[0], &s[1], &s[2]); break;
    case 2: remap3d_setup(p, i[0], i[1], i[2], i[3], i[4], i[5], o[0], o[1], o[2], o[3], o[4], o[5], nqty, perm, mem, &s[1], &s[2]); break;
    default: remap2d_setup(p, i[0], i[1], i[2], i[3], o[0], o[1], o[2], o[3], nqty, perm, mem, &s[1], &s[2]);
  }
}
static void c_tune(int k, void *p, const int *d, const int *i, const int *o, int perm, int *s, int flag, int niter, double tmax, int tflag)
{
  if (k == 0) fft3d_tune(p, d[0], d[1], d[2], i[0], i[1], i[2], i[3], i[4], i[5], o[0], o[1], o[2], o[3], o[4], o[5], perm, &s[0], &s[1], &s[2], flag, niter, tmax, tflag);
  else fft2d_tune(p, d[0], d[1], i[0], i[1], i[2], i[3], o[0], o[1], o[2], o[3], perm, &s[0], &s[1], &s[2], flag, niter, tmax, tflag);
}
static void c_setup_memory(int k, void *p, void *s, void *r) { if (k == 0) fft3d_setup_memory(p, s, r); else fft2d_setup_memory(p, s, r); }
static void c_compute(int k, void *p, void *i, void *o, int f) { if (k == 0) fft3d_compute(p, i, o, f); else fft2d_compute(p, i, o, f); }
static void c_only_1d(int k, void *p, void *i, int f) { if (k == 0) fft3d_only_1d_ffts(p, i, f); else fft2d_only_1d_ffts(p, i, f); }
static void c_only_remaps(int k, void *p, void *i, void *o, int f) { if (k == 0) fft3d_only_remaps(p, i, o, f); else fft2d_only_remaps(p, i, o, f); }
static void c_only_one(int k, void *p, void *i, void *o, int f, int w) { if (k == 0) fft3d_only_one_remap(p, i, o, f, w); else fft2d_only_one_remap(p, i, o, f, w); }
static void c_remap(int k, void *p, void *i, void *o, void *s, void *r) { if (k == 2) remap3d_remap(p, i, o, s, r); else remap2d_remap(p, i, o, s, r); }
static int c_get_int(int k, void *p, const char *key) { return k == 0 ? fft3d_get_int(p, key) : fft2d_get_int(p, key); }
static double c_get_double(int k, void *p, const char *key) { return k == 0 ? fft3d_get_double(p, key) : fft2d_get_double(p, key); }
static int64_t c_get_int64(int k, void *p, const char *key) { return k == 0 ? fft3d_get_int64(p, key) : fft2d_get_int64(p, key); }
static const char *c_get_string(int k, void *p, const char *key, int *len) { return k == 0 ? fft3d_get_string(p, key, len) : fft2d_get_string(p, key, len); }
static int *c_get_int_vector(int k, void *p, const char *key, int *len) { return k == 0 ? fft3d_get_int_vector(p, key, len) : fft2d_get_int_vector(p, key, len); }
static double *c_get_double_vector(int k, void *p, const char *key, int *len) { return k == 0 ? fft3d_get_double_vector(p, key, len) : fft2d_get_double_vector(p, key, len); }
const struct vf_api vf_api_c = { sizeof(FFT_SCALAR), 0, c_create, c_destroy, c_set, c_setup, c_tune, c_setup_memory, c_compute, c_only_1d, c_only_remaps, c_only_one,
  c_remap, c_get_int, c_get_double, c_get_int64, c_get_string, c_get_int_vector, c_get_double_vector };
