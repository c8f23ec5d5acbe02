// Plain implementations behind the stand-in MKL and FFTW 2 headers: mixed-radix transforms in long double.
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
// y = transform of x[0], x[stride], ...; tab holds the N-th roots of unity, N a multiple of n
static void rec(const long double *tab, int N, int sign, const long double *x, int n, int stride, long double *y)
{
  if (n == 1) { y[0] = x[0]; y[1] = x[1]; return; }
  int p = 2; while (n % p) p++;
  int m = n / p; long double *t = (long double *) __builtin_alloca(2 * p * sizeof(long double));
  for (int r = 0; r < p; r++) rec(tab, N, sign, x + 2L * r * stride, m, stride * p, y + 2L * r * m);
  for (int k = 0; k < m; k++) {
    for (int r = 0; r < p; r++) { t[2 * r] = y[2L * (r * m + k)]; t[2 * r + 1] = y[2L * (r * m + k) + 1]; }
    for (int q = 0; q < p; q++) {
      long double a = 0, b = 0;
      for (int r = 0; r < p; r++) {
        long u = (long) r * (k + (long) q * m) % n * (N / n); long double c = tab[2 * u], s = sign * tab[2 * u + 1];
        a += t[2 * r] * c - t[2 * r + 1] * s; b += t[2 * r] * s + t[2 * r + 1] * c;
      }
      y[2L * (k + q * m)] = a; y[2L * (k + q * m) + 1] = b;
    }
  }
}
static void dft(const long double *tab, int n, int sign, const long double *x, long double *y) { rec(tab, n, sign, x, n, 1, y); }
// length, transforms, element stride, distance between transforms; in place
template <class T> static void many(const long double *tab, long double *w, int n, int sign, long howmany, long stride, long dist, T *d)
{
  for (long h = 0; h < howmany; h++) {
    T *p = d + 2 * h * dist;
    for (int i = 0; i < n; i++) { w[2 * i] = p[2 * i * stride]; w[2 * i + 1] = p[2 * i * stride + 1]; }
    dft(tab, n, sign, w, w + 2 * n);
    for (int i = 0; i < n; i++) { p[2 * i * stride] = (T) w[2 * n + 2 * i]; p[2 * i * stride + 1] = (T) w[2 * n + 2 * i + 1]; }
  }
}
static void fill(long double *tab, int n) { for (int i = 0; i < n; i++) { long double a = 2 * 3.14159265358979323846264338327950288L * i / n; tab[2 * i] = cosl(a); tab[2 * i + 1] = sinl(a); } }
// tables of very long plans (only ever set up, not used, by the checks) are made at first use
static long double *table(long n) { long double *t = (long double *) malloc(6 * n * sizeof(long double)); if (t) fill(t, (int) n); return t; }
static const long EAGER = 1 << 20;
extern "C" void vf_tick1d(long);       // in the simulator: counts 1d transforms
static void bad(const char *s) { fprintf(stderr, "worker: 1d FFT library misused: %s\n", s); abort(); }

#ifdef FFT_MKL
#include "mkl_dfti.h"
struct DFTI_DESCRIPTOR { int magic, prec, committed; long n, howmany, idist, odist; int inplace; long double *tab; };
static DFTI_DESCRIPTOR *chk(DFTI_DESCRIPTOR *d) { if (!d) return NULL; if (d->magic != 7351) bad("DFTI handle"); return d; }
extern "C" {
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *h, enum DFTI_CONFIG_VALUE prec, enum DFTI_CONFIG_VALUE dom, MKL_LONG dim, ...)
{
  va_list ap; va_start(ap, dim); MKL_LONG n = va_arg(ap, MKL_LONG); va_end(ap);
  if (dom != DFTI_COMPLEX || dim != 1 || n < 1) { *h = NULL; return 3; }
  *h = (DFTI_DESCRIPTOR *) malloc(sizeof(DFTI_DESCRIPTOR)); if (!*h) return 1;
  **h = {7351, prec == DFTI_SINGLE ? 4 : 8, 0, n, 1, 0, 0, 1, NULL}; if (n <= EAGER) (*h)->tab = table(n); return 0;
}
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE d, enum DFTI_CONFIG_PARAM p, ...)
{
  if (!chk(d)) return 3; va_list ap; va_start(ap, p); d->committed = 0; MKL_LONG rc = 0;
  switch (p) {
    case DFTI_NUMBER_OF_TRANSFORMS: d->howmany = va_arg(ap, MKL_LONG); break;
    case DFTI_PLACEMENT: d->inplace = va_arg(ap, int) == DFTI_INPLACE; break;
    case DFTI_INPUT_DISTANCE: d->idist = va_arg(ap, MKL_LONG); break;
    case DFTI_OUTPUT_DISTANCE: d->odist = va_arg(ap, MKL_LONG); break;
    default: rc = 6;
  }
  va_end(ap); return rc;
}
// as with MKL, a descriptor for no transforms, or for several without a distance, cannot be committed
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE d) { if (!chk(d)) return 3; if (d->howmany < 1 || (d->howmany > 1 && (!d->idist || (!d->inplace && !d->odist)))) return 3; d->committed = 1; return 0; }
static MKL_LONG run(DFTI_DESCRIPTOR *d, int sign, void *x)
{
  if (!chk(d) || !d->committed || !d->inplace) return 3;
  if (!d->tab) d->tab = table(d->n);
  vf_tick1d(d->howmany);
  if (d->prec == 4) many(d->tab, d->tab + 2 * d->n, (int) d->n, sign, d->howmany, 1, d->idist, (float *) x);
  else many(d->tab, d->tab + 2 * d->n, (int) d->n, sign, d->howmany, 1, d->idist, (double *) x);
  return 0;
}
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE d, void *x, ...) { return run(d, -1, x); }
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE d, void *x, ...) { return run(d, 1, x); }
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *h) { if (!h || !chk(*h)) return 3; (*h)->magic = 0; free((*h)->tab); free(*h); *h = NULL; return 0; }
}
#endif

#ifdef FFT_FFTW2
#include "fftw.h"
struct vf_fftw_plan { int magic, n, dir, flags; long double *tab; };
extern "C" {
fftw_plan fftw_create_plan(int n, fftw_direction dir, int flags)
{
  if (n < 1) return NULL;
  fftw_plan p = (fftw_plan) malloc(sizeof(vf_fftw_plan)); *p = {5297, n, (int) dir, flags, n <= EAGER ? table(n) : NULL}; return p;
}
void fftw_destroy_plan(fftw_plan p) { if (!p || p->magic != 5297) bad("fftw_destroy_plan"); p->magic = 0; free(p->tab); free(p); }
void fftw(fftw_plan p, int howmany, fftw_complex *in, int istride, int idist, fftw_complex *out, int ostride, int odist)
{
  if (!p || p->magic != 5297) bad("fftw: plan");
  fftw_real *d = (fftw_real *) in;
  if (!(p->flags & FFTW_IN_PLACE)) bad("fftw: out-of-place plan used in place");
  if (!p->tab) p->tab = table(p->n);
  vf_tick1d(howmany);
  many(p->tab, p->tab + 2 * p->n, p->n, p->dir, howmany, istride, idist, d);
}
}
#endif
