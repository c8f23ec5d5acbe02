/* recording stand-ins for the C interface; VP_3D selects the 3d or the 2d library, VP_COMM_PTR the kind of MPI_Comm */
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#ifdef VP_COMM_PTR
typedef struct vp_comm *MPI_Comm;
#else
typedef unsigned MPI_Comm;
#endif
#ifdef FFT_SINGLE
typedef float FFT_SCALAR;
#else
typedef double FFT_SCALAR;
#endif
#ifdef VP_3D
#define F(x) fft3d_##x
#define R(x) remap3d_##x
#define GRID int n1, int n2, int n3,
#define GF " %d %d %d"
#define GA n1, n2, n3,
#define TILE int a1, int a2, int a3, int a4, int a5, int a6, int b1, int b2, int b3, int b4, int b5, int b6,
#define TF " %d %d %d %d %d %d %d %d %d %d %d %d"
#define TA a1, a2, a3, a4, a5, a6, b1, b2, b3, b4, b5, b6,
#define N "3d_"
#else
#define F(x) fft2d_##x
#define R(x) remap2d_##x
#define GRID int n1, int n2,
#define GF " %d %d"
#define GA n1, n2,
#define TILE int a1, int a2, int a3, int a4, int b1, int b2, int b3, int b4,
#define TF " %d %d %d %d %d %d %d %d"
#define TA a1, a2, a3, a4, b1, b2, b3, b4,
#define N "2d_"
#endif
void vp_log(const char *, ...); unsigned vp_rand(void); void *vp_handle(void); extern int vp_len;
static int out(int *p) { return *p = (int) (vp_rand() % 100000) - 10; }
void F(create)(MPI_Comm c, int precision, void **p) { *p = vp_handle(); vp_log("fft" N "create %lx %d -> %p", (unsigned long) c, precision, *p); }
void F(destroy)(void *p) { vp_log("fft" N "destroy %p", p); }
void F(set)(void *p, const char *k, int v) { vp_log("fft" N "set %p %s %d", p, k, v); }
int F(get_int)(void *p, const char *k) { int v; out(&v); vp_log("fft" N "get_int %p %s -> %d", p, k, v); return v; }
double F(get_double)(void *p, const char *k) { double v = (int) (vp_rand() % 100000) / 7.0 - 3; vp_log("fft" N "get_double %p %s -> %.17g", p, k, v); return v; }
int64_t F(get_int64)(void *p, const char *k) { int64_t v = ((int64_t) vp_rand() << 21) - 77; vp_log("fft" N "get_int64 %p %s -> %lld", p, k, (long long) v); return v; }
char *F(get_string)(void *p, const char *k, int *n) { static char s[32]; int m = (int) (vp_rand() % 9); if (m == 8) { *n = -1; vp_log("fft" N "get_string %p %s -> NULL", p, k); return NULL; } for (int i = 0; i < m; i++) s[i] = (char) ('a' + (vp_rand() % 26)); s[m] = 0; *n = m; vp_log("fft" N "get_string %p %s -> '%s'", p, k, s); return s; }
int *F(get_int_vector)(void *p, const char *k, int *n) { static int v[32]; char t[512] = ""; int m = (int) (vp_rand() % 12); if (m == 11) { *n = -1; vp_log("fft" N "get_int_vector %p %s -> NULL", p, k); return NULL; } *n = m; for (int i = 0; i < 32; i++) { out(v + i); if (i < m) sprintf(t + strlen(t), " %d", v[i]); } vp_log("fft" N "get_int_vector %p %s ->%s", p, k, t); return v; }
double *F(get_double_vector)(void *p, const char *k, int *n) { static double v[32]; char t[1024] = ""; int m = (int) (vp_rand() % 12); if (m == 11) { *n = -1; vp_log("fft" N "get_double_vector %p %s -> NULL", p, k); return NULL; } *n = m; for (int i = 0; i < 32; i++) { v[i] = (int) (vp_rand() % 100000) / 3.0; if (i < m) sprintf(t + strlen(t), " %.17g", v[i]); } vp_log("fft" N "get_double_vector %p %s ->%s", p, k, t); return v; }
void F(setup)(void *p, GRID TILE int permute, int *fs, int *ss, int *rs) { int x = out(fs), y = out(ss), z = out(rs); vp_log("fft" N "setup %p" GF TF " %d -> %d %d %d", p, GA TA permute, x, y, z); }
void F(setup_memory)(void *p, FFT_SCALAR *s, FFT_SCALAR *r) { vp_log("fft" N "setup_memory %p %lx %lx", p, (unsigned long) s, (unsigned long) r); s[0] = 21; r[0] = 22; }
static unsigned long hash(FFT_SCALAR *x) { unsigned long h = 5381; for (int i = 0; i < vp_len; i++) h = h * 33 + (unsigned long) (long) x[i]; return h; }
static void work(FFT_SCALAR *x, FFT_SCALAR *y, int a) { for (int i = 0; i < vp_len; i++) y[i] = x[i] + a; }
void F(compute)(void *p, FFT_SCALAR *x, FFT_SCALAR *y, int flag) { vp_log("fft" N "compute %p %lx %d", p, hash(x), flag); work(x, y, 10 * flag + 3); }
void F(only_1d_ffts)(void *p, FFT_SCALAR *x, int flag) { vp_log("fft" N "only_1d_ffts %p %lx %d", p, hash(x), flag); work(x, x, 10 * flag + 3); }
void F(only_remaps)(void *p, FFT_SCALAR *x, FFT_SCALAR *y, int flag) { vp_log("fft" N "only_remaps %p %lx %d", p, hash(x), flag); work(x, y, 10 * flag + 3); }
void F(only_one_remap)(void *p, FFT_SCALAR *x, FFT_SCALAR *y, int flag, int which) { vp_log("fft" N "only_one_remap %p %lx %d %d", p, hash(x), flag, which); work(x, y, 10 * flag + 3); }
void F(tune)(void *p, GRID TILE int permute, int *fs, int *ss, int *rs, int flag, int niter, double tmax, int tflag) { int x = out(fs), y = out(ss), z = out(rs); vp_log("fft" N "tune %p" GF TF " %d %d %d %.17g %d -> %d %d %d", p, GA TA permute, flag, niter, tmax, tflag, x, y, z); }
void R(create)(MPI_Comm c, void **p) { *p = vp_handle(); vp_log("remap" N "create %lx -> %p", (unsigned long) c, *p); }
void R(destroy)(void *p) { vp_log("remap" N "destroy %p", p); }
void R(set)(void *p, char *k, int v) { vp_log("remap" N "set %p %s %d", p, k, v); }
void R(setup)(void *p, TILE int nqty, int permute, int mem, int *ss, int *rs) { int y = out(ss), z = out(rs); vp_log("remap" N "setup %p" TF " %d %d %d -> %d %d", p, TA nqty, permute, mem, y, z); }
void R(remap)(void *p, FFT_SCALAR *x, FFT_SCALAR *y, FFT_SCALAR *s, FFT_SCALAR *r) { vp_log("remap" N "remap %p %lx", p, hash(x)); work(x, y, 4); s[0] = 31; r[0] = 32; }
