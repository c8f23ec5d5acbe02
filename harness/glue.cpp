// C++ classes behind the call table, and accounting of everything the library allocates.
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>
#include "api.h"
#include "fft3d.h"
#include "fft2d.h"
#include "remap3d.h"
#include "remap2d.h"
using namespace FFTMPI_NS;
typedef FFT_SCALAR S;

static void *x_create(int k, MPI_Comm c, int prec)
{
  switch (k) { case 0: return new FFT3d(c, prec); case 1: return new FFT2d(c, prec); case 2: return new Remap3d(c); default: return new Remap2d(c); }
}
static void x_destroy(int k, void *p)
{
  switch (k) { case 0: delete (FFT3d *) p; break; case 1: delete (FFT2d *) p; break; case 2: delete (Remap3d *) p; break; default: delete (Remap2d *) p; }
}
template <class T> static void setf(T *f, const char *key, int v)
{
  if (!strcmp(key, "collective")) f->collective = v;
  else if (!strcmp(key, "exchange")) f->exchange = v;
  else if (!strcmp(key, "pack")) f->packflag = v;
  else if (!strcmp(key, "memory")) f->memoryflag = v;
  else if (!strcmp(key, "scale")) f->scaled = v;
  else if (!strcmp(key, "remaponly")) f->remaponly = v;
}
template <class T> static void setr(T *f, const char *key, int v)
{
  if (!strcmp(key, "collective")) f->collective = v; else if (!strcmp(key, "pack")) f->packflag = v;
}
static void x_set(int k, void *p, const char *key, int v)
{
  switch (k) { case 0: setf((FFT3d *) p, key, v); break; case 1: setf((FFT2d *) p, key, v); break; case 2: setr((Remap3d *) p, key, v); break; default: setr((Remap2d *) p, key, v); }
}
static void x_setup(int k, void *p, const int *d, const int *i, const int *o, int nqty, int perm, int mem, int *s)
{
  switch (k) {
    case 0: ((FFT3d *) p)->setup(d[0], d[1], d[2], i[0], i[1], i[2], i[3], i[4], i[5], o[0], o[1], o[2], o[3], o[4], o[5], perm, s[0], s[1], s[2]); break;
    case 1: ((FFT2d *) p)->setup(d[0], d[1], i[0], i[1], i[2], i[3], o[0], o[1], o[2], o[3], perm, s[0], s[1], s[2]); break;
    case 2: ((Remap3d *) p)->setup(i[0], i[1], i[2], i[3], i[4], i[5], o[0], o[1], o[2], o[3], o[4], o[5], nqty, perm, mem, s[1], s[2]); break;
    default: ((Remap2d *) p)->setup(i[0], i[1], i[2], i[3], o[0], o[1], o[2], o[3], nqty, perm, mem, s[1], s[2]);
  }
}
static void x_tune(int k, void *p, const int *d, const int *i, const int *o, int perm, int *s, int flag, int niter, double tmax, int tflag)
{
  if (k == 0) ((FFT3d *) p)->tune(d[0], d[1], d[2], i[0], i[1], i[2], i[3], i[4], i[5], o[0], o[1], o[2], o[3], o[4], o[5], perm, s[0], s[1], s[2], flag, niter, tmax, tflag);
  else ((FFT2d *) p)->tune(d[0], d[1], i[0], i[1], i[2], i[3], o[0], o[1], o[2], o[3], perm, s[0], s[1], s[2], flag, niter, tmax, tflag);
}
#define F(expr) do { if (k == 0) { FFT3d *f = (FFT3d *) p; expr; } else { FFT2d *f = (FFT2d *) p; expr; } } while (0)
static void x_setup_memory(int k, void *p, void *s, void *r) { F(f->setup_memory((S *) s, (S *) r)); }
static void x_compute(int k, void *p, void *i, void *o, int flag) { F(f->compute((S *) i, (S *) o, flag)); }
static void x_only_1d(int k, void *p, void *i, int flag) { F(f->only_1d_ffts((S *) i, flag)); }
static void x_only_remaps(int k, void *p, void *i, void *o, int flag) { F(f->only_remaps((S *) i, (S *) o, flag)); }
static void x_only_one(int k, void *p, void *i, void *o, int flag, int w) { F(f->only_one_remap((S *) i, (S *) o, flag, w)); }
static void x_remap(int k, void *p, void *i, void *o, void *s, void *r)
{
  if (k == 2) ((Remap3d *) p)->remap((S *) i, (S *) o, (S *) s, (S *) r); else ((Remap2d *) p)->remap((S *) i, (S *) o, (S *) s, (S *) r);
}
#define GI(name, field) if (!strcmp(key, name)) return f->field
template <class T> static int geti(T *f, const char *key)
{
  GI("collective", collective); GI("exchange", exchange); GI("pack", packflag); GI("npfast1", npfast1); GI("npfast2", npfast2);
  GI("npslow1", npslow1); GI("npslow2", npslow2); GI("npbrick1", npbrick1); GI("npbrick2", npbrick2); GI("ntrial", ntrial); GI("npertrial", npertrial);
  GI("cbest", cbest); GI("ebest", ebest); GI("pbest", pbest);
  return -1;
}
static int geti3(FFT3d *f, const char *key) { GI("npfast3", npfast3); GI("npmid1", npmid1); GI("npmid2", npmid2); GI("npmid3", npmid3); GI("npslow3", npslow3); GI("npbrick3", npbrick3); return geti(f, key); }
static int x_get_int(int k, void *p, const char *key)
{
  if (!strcmp(key, "memory")) { F(return f->memoryflag); }
  if (!strcmp(key, "scale")) { F(return f->scaled); }
  if (!strcmp(key, "remaponly")) { F(return f->remaponly); }
  return k == 0 ? geti3((FFT3d *) p, key) : geti((FFT2d *) p, key);
}
static double x_get_double(int k, void *p, const char *key) { if (!strcmp(key, "besttime")) { F(return f->besttime); } if (strcmp(key, "setuptime")) return -1.0; return k == 0 ? ((FFT3d *) p)->setuptime : ((FFT2d *) p)->setuptime; }
static int64_t x_get_int64(int k, void *p, const char *key)
{
  if (strcmp(key, "memusage")) return -1;
  switch (k) { case 0: return ((FFT3d *) p)->memusage; case 1: return ((FFT2d *) p)->memusage; case 2: return ((Remap3d *) p)->memusage; default: return ((Remap2d *) p)->memusage; }
}
static const char *x_get_string(int k, void *p, const char *key, int *len)
{
  const char *r = NULL;
  if (!strcmp(key, "fft1d")) r = k == 0 ? ((FFT3d *) p)->fft1d : ((FFT2d *) p)->fft1d;
  else if (!strcmp(key, "precision")) r = k == 0 ? ((FFT3d *) p)->precision : ((FFT2d *) p)->precision;
  if (r) *len = (int) strlen(r);
  return r;
}
template <class T> static int *getiv(T *f, const char *key) { GI("cflags", cflags); GI("eflags", eflags); GI("pflags", pflags); return NULL; }
static int *x_get_int_vector(int k, void *p, const char *key, int *len)
{
  *len = x_get_int(k, p, "ntrial"); return k == 0 ? getiv((FFT3d *) p, key) : getiv((FFT2d *) p, key);
}
template <class T> static double *getdv(T *f, const char *key) { GI("tfft", tfft); GI("t1d", t1d); GI("tremap", tremap); GI("tremap1", tremap1); GI("tremap2", tremap2); GI("tremap3", tremap3); return NULL; }
static double *x_get_double_vector(int k, void *p, const char *key, int *len)
{
  *len = x_get_int(k, p, "ntrial"); if (k == 0 && !strcmp(key, "tremap4")) return ((FFT3d *) p)->tremap4;
  return k == 0 ? getdv((FFT3d *) p, key) : getdv((FFT2d *) p, key);
}
static const vf_api api_cpp = { sizeof(S), 0, x_create, x_destroy, x_set, x_setup, x_tune, x_setup_memory, x_compute, x_only_1d, x_only_remaps, x_only_one,
  x_remap, x_get_int, x_get_double, x_get_int64, x_get_string, x_get_int_vector, x_get_double_vector };

extern "C" const struct vf_api vf_api_c;

#ifdef VF_FORTRAN
extern "C" {
void fs_create(int, int, int, void **); void fs_destroy(int, void *); void fs_set(int, void *, const char *, int);
void fs_setup(int, void *, const int *, const int *, const int *, int, int, int, int *);
void fs_tune(int, void *, const int *, const int *, const int *, int, int *, int, int, double, int);
void fs_setup_memory(int, void *, void *, void *); void fs_compute(int, void *, void *, void *, int); void fs_only_1d(int, void *, void *, int);
void fs_only_remaps(int, void *, void *, void *, int); void fs_only_one(int, void *, void *, void *, int, int); void fs_remap(int, void *, void *, void *, void *, void *);
int fs_get_int(int, void *, const char *); double fs_get_double(int, void *, const char *); int64_t fs_get_int64(int, void *, const char *);
void fs_get_string(int, void *, const char *, int *, void **); void fs_get_int_vector(int, void *, const char *, int *, void **); void fs_get_double_vector(int, void *, const char *, int *, void **);
}
static void *f_create(int k, MPI_Comm c, int prec) { void *p = NULL; fs_create(k, MPI_Comm_c2f(c), prec, &p); return p; }
static const char *f_get_string(int k, void *p, const char *key, int *len) { void *r = NULL; fs_get_string(k, p, key, len, &r); return (const char *) r; }
static int *f_get_int_vector(int k, void *p, const char *key, int *len) { void *r = NULL; fs_get_int_vector(k, p, key, len, &r); return (int *) r; }
static double *f_get_double_vector(int k, void *p, const char *key, int *len) { void *r = NULL; fs_get_double_vector(k, p, key, len, &r); return (double *) r; }
static const vf_api api_f = { sizeof(S), 1, f_create, fs_destroy, fs_set, fs_setup, fs_tune, fs_setup_memory, fs_compute, fs_only_1d, fs_only_remaps, fs_only_one,
  fs_remap, fs_get_int, fs_get_double, fs_get_int64, f_get_string, f_get_int_vector, f_get_double_vector };
#endif

extern "C" const struct vf_api *vf_get_api(int api)
{
  if (api == API_CPP) return &api_cpp;
  if (api == API_C) return &vf_api_c;
#ifdef VF_FORTRAN
  return &api_f;
#else
  return NULL;
#endif
}

// ---------------------------------------------------------------- accounting (symbols wrapped at link time)
static const int TB = 1 << 16;
static struct { void *p; size_t n; char used; } tab[TB];
static long live, bytes, plans, copies;
static void add(void *p, size_t n)
{
  if (!p) return;
  unsigned h = (unsigned) (((uintptr_t) p >> 4) * 2654435761u) % TB;
  for (int i = 0; i < TB; i++, h = (h + 1) % TB) if (tab[h].used != 1) { tab[h].p = p; tab[h].n = n; tab[h].used = 1; live++; bytes += (long) n; return; }
}
static void del(void *p)
{
  if (!p) return;
  unsigned h = (unsigned) (((uintptr_t) p >> 4) * 2654435761u) % TB;
  for (int i = 0; i < TB; i++, h = (h + 1) % TB) {
    if (!tab[h].used) return;
    if (tab[h].used == 1 && tab[h].p == p) { tab[h].used = 2; live--; bytes -= (long) tab[h].n; return; }
  }
}
// injected allocation failure: request number fail_at from now on gets nothing, or (sticky & 2) the first of at least fail_at bytes; sticky & 4: counting only requests that enlarge or move an array; sticky & 1: and so do all later ones
static long fail_at = -1, fail_hit = 0; static int fail_sticky = 0;
static bool oom(size_t n, bool moved = false) { if (fail_at < 0 || n == 0 || ((fail_sticky & 4) && !moved)) return false; if (fail_sticky & 2) { if ((long) n < fail_at) return false; } else if (fail_at > 0) { fail_at--; return false; } fail_hit++; if (!(fail_sticky & 1)) fail_at = -1; return true; }
// arrays of 16 MB and more, in requests that are set up but never executed: address space only, outside the sanitizer, which would touch an eighth of them
static const size_t HUGE_N = (size_t) 1 << 24;
static struct { void *p; size_t n; } far[256];
static int nfar;
static void *far_get(size_t n)
{
  if (n < HUGE_N || nfar == 256) return NULL;
  void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return NULL;
  far[nfar].p = p; far[nfar++].n = n; return p;
}
static int far_find(void *p) { for (int i = 0; i < nfar; i++) if (far[i].p == p) return i; return -1; }
extern "C" {
long vf_failalloc(long k, int sticky) { long h = fail_hit; fail_at = k; fail_sticky = sticky; fail_hit = 0; return h; }
void vf_alloc(struct vf_alloc_stats *s) { s->live = live; s->bytes = bytes; s->plans = plans; s->copies = copies; }
void vf_tick1d(long);                 // in the simulator: counts 1d transforms
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { copies++; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { copies++; return __real_memmove(d, s, n); }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t);
void *__real__Znwm(size_t); void *__real__Znam(size_t); void __real__ZdlPv(void *); void __real__ZdaPv(void *); void __real__ZdlPvm(void *, size_t); void __real__ZdaPvm(void *, size_t);
char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { if (oom(n)) return NULL; void *p = far_get(n); if (!p) p = __real_malloc(n); add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (oom(a * b)) return NULL; void *p = __real_calloc(a, b); add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) 
{
  if (oom(n, q != NULL)) return NULL;
  void *p; int i = q ? far_find(q) : -1;
  if (i >= 0) { p = n ? mremap(q, far[i].n, n, MREMAP_MAYMOVE) : NULL; if (n && p == MAP_FAILED) return NULL; if (!n) munmap(q, far[i].n); del(q); if (n) { far[i].p = p; far[i].n = n; } else far[i] = far[--nfar]; add(p, n); return p; }
  if (!q && (p = far_get(n))) { add(p, n); return p; }
  del(q); p = __real_realloc(q, n); add(p, n); return p;
}
void __wrap_free(void *p) { del(p); int i = nfar && p ? far_find(p) : -1; if (i >= 0) { munmap(p, far[i].n); far[i] = far[--nfar]; return; } __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (oom(n)) return 12; void *f = a <= 4096 ? far_get(n) : NULL; int r = 0; if (f) *p = f; else r = __real_posix_memalign(p, a, n); if (!r) add(*p, n); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (oom(n)) return NULL; void *p = __real_aligned_alloc(a, n); add(p, n); return p; }
void *__wrap_memalign(size_t a, size_t n) { if (oom(n)) return NULL; void *p = __real_memalign(a, n); add(p, n); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); add(p, strlen(s) + 1); return p; }
void *__wrap__Znwm(size_t n) { void *p = __real__Znwm(n); add(p, n); return p; }
void *__wrap__Znam(size_t n) { void *p = __real__Znam(n); add(p, n); return p; }
void __wrap__ZdlPv(void *p) { del(p); __real__ZdlPv(p); }
void __wrap__ZdaPv(void *p) { del(p); __real__ZdaPv(p); }
void __wrap__ZdlPvm(void *p, size_t n) { del(p); __real__ZdlPvm(p, n); }
void __wrap__ZdaPvm(void *p, size_t n) { del(p); __real__ZdaPvm(p, n); }
#ifdef FFT_FFTW3
#include <fftw3.h>
static struct { void *p; long h; } ptab[4096]; static int nptab;
static void padd(void *p, long h) { if (p && nptab < 4096) { ptab[nptab].p = p; ptab[nptab++].h = h; } }
static void pdel(void *p) { for (int i = 0; i < nptab; i++) if (ptab[i].p == p) { ptab[i] = ptab[--nptab]; return; } }
static long pget(void *p) { for (int i = 0; i < nptab; i++) if (ptab[i].p == p) return ptab[i].h; return 1; }
#define W(api) \
void __real_##api##_execute_dft(const api##_plan, api##_complex *, api##_complex *); \
void __wrap_##api##_execute_dft(const api##_plan p, api##_complex *a, api##_complex *b) { vf_tick1d(pget(p)); __real_##api##_execute_dft(p, a, b); } \
void __real_##api##_execute(const api##_plan); \
void __wrap_##api##_execute(const api##_plan p) { vf_tick1d(pget(p)); __real_##api##_execute(p); } \
api##_plan __real_##api##_plan_many_dft(int, const int *, int, api##_complex *, const int *, int, int, api##_complex *, const int *, int, int, int, unsigned); \
api##_plan __wrap_##api##_plan_many_dft(int r, const int *n, int h, api##_complex *a, const int *b, int c, int d, api##_complex *e, const int *f, int g, int i, int j, unsigned k) \
{ if (oom(h)) return NULL; api##_plan p = __real_##api##_plan_many_dft(r, n, h, a, b, c, d, e, f, g, i, j, k); if (p) { plans++; padd(p, h); } return p; } \
api##_plan __real_##api##_plan_dft_1d(int, api##_complex *, api##_complex *, int, unsigned); \
api##_plan __wrap_##api##_plan_dft_1d(int n, api##_complex *a, api##_complex *b, int s, unsigned f) { if (oom(n)) return NULL; api##_plan p = __real_##api##_plan_dft_1d(n, a, b, s, f); if (p) { plans++; padd(p, 1); } return p; } \
void __real_##api##_destroy_plan(api##_plan); \
void __wrap_##api##_destroy_plan(api##_plan p) { if (p) { plans--; pdel(p); } __real_##api##_destroy_plan(p); }
#ifdef FFT_SINGLE
W(fftwf)
#else
W(fftw)
#endif
#endif
}

#ifdef VF_COV
extern "C" void __gcov_dump(void);
extern "C" void vf_cov() { __gcov_dump(); }
#endif
