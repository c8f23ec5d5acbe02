// Runs generated cases: one forked child per case executes all ranks in the MPI simulator,
// checks every result against an independent oracle and reports.
//   worker LIBPREFIX NLIBS < cases        (LIBPREFIX0.so ... one copy of the library per rank)
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <array>
#include <functional>
#include <complex>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <algorithm>
#include "../sim/sim.h"
#include "api.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(a, n) __asan_poison_memory_region((a), (n))
#define UNPOISON(a, n) __asan_unpoison_memory_region((a), (n))
#else
#define POISON(a, n) ((void) 0)
#define UNPOISON(a, n) ((void) 0)
#endif
using std::string; using std::vector;
typedef std::complex<long double> cld;

struct Lib { const vf_api *api[3]; void (*alloc)(vf_alloc_stats *); void *h; long (*failalloc)(long, int); };
static vector<Lib> libs;
static int SS;                        // scalar size of this build
static FILE *outf;

struct Obj { int kind, comm, api; int d[3]; int nqty, permute, memflag; vector<std::array<int, 6>> in, out; };
struct Op { string name; int o; vector<string> a; };
struct Case {
  string id; int np = 1; vf::Config sc; vector<vector<int>> comms; vector<Obj> objs; vector<Op> ops; int expect = -1;
};
static Case K;

static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static double u01(uint64_t h) { return (double) (h >> 11) / 9007199254740992.0; }

// ---------------------------------------------------------------- buffers with guarded edges
static const size_t EDGE = 64; static const unsigned char CANARY = 0xC5;
struct Buf { char *base = 0, *p = 0; size_t n = 0, pre = EDGE; size_t tot() const { return pre + n + EDGE; } };
// half of the arrays start on a 64-byte boundary, the others 1 to 3 scalars behind one (decided by the key)
static Buf balloc(size_t bytes, uint64_t key)
{
  Buf b; b.n = bytes; uint64_t h = mix(mix(key) + 12345); b.pre = EDGE + (h & 1 ? (1 + (h >> 1) % 3) * SS : 0);
  if (posix_memalign((void **) &b.base, 64, b.tot())) { fprintf(stderr, "worker: out of memory\n"); _exit(9); }
  memset(b.base, CANARY, b.tot()); b.p = b.base + b.pre;
  memset(b.p, 0xFF, bytes);           // NaNs: reading what was never written shows up in the results
  POISON(b.base, b.pre); POISON(b.p + bytes, EDGE);
  return b;
}
static bool bcheck(const Buf &b)
{
  if (!b.base) return true;
  UNPOISON(b.base, b.tot());
  bool ok = true;
  for (size_t i = 0; i < b.pre; i++) if ((unsigned char) b.base[i] != CANARY) ok = false;
  for (size_t i = 0; i < EDGE; i++) if ((unsigned char) b.p[b.n + i] != CANARY) ok = false;
  POISON(b.base, b.pre); POISON(b.p + b.n, EDGE);
  return ok;
}
static void bfree(Buf &b) { if (b.base) { UNPOISON(b.base, b.tot()); free(b.base); } b = Buf(); }

static void fail_line(const char *kind, int op, int rank, const string &msg) { string m = msg; for (auto &c : m) if (c == '\n') c = ' '; fprintf(outf, "F %s %d %d %s\n", kind, op, rank, m.c_str()); fflush(outf); }
static string sf(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ---------------------------------------------------------------- layouts
static int dimn(const Obj &o) { return (o.kind == KIND_FFT3D || o.kind == KIND_REMAP3D) ? 3 : 2; }
static bool isfft(const Obj &o) { return o.kind <= 1; }
static long boxsize(const Obj &o, const std::array<int, 6> &b)
{
  long n = 1; for (int d = 0; d < dimn(o); d++) n *= (long) (b[2 * d + 1] - b[2 * d] + 1); return n;
}
// index of global (i,j,k) in the tile b stored with permutation perm
static long tileidx(const Obj &o, const std::array<int, 6> &b, int perm, int i, int j, int k)
{
  long ni = b[1] - b[0] + 1, nj = b[3] - b[2] + 1, nk = dimn(o) == 3 ? b[5] - b[4] + 1 : 1; long li = i - b[0], lj = j - b[2], lk = dimn(o) == 3 ? k - b[4] : 0;
  if (dimn(o) == 2) return perm == 0 ? lj * ni + li : li * nj + lj;
  if (perm == 0) return (lk * nj + lj) * ni + li;
  if (perm == 1) return (li * nk + lk) * nj + lj;
  return (lj * ni + li) * nk + lk;
}
template <class Fn> static void foreach_tile(const Obj &o, const std::array<int, 6> &b, Fn fn)
{
  int k0 = 0, k1 = 0; if (dimn(o) == 3) { k0 = b[4]; k1 = b[5]; }
  for (int k = k0; k <= k1; k++) for (int j = b[2]; j <= b[3]; j++) for (int i = b[0]; i <= b[1]; i++) fn(i, j, k);
}

// ---------------------------------------------------------------- reference transform
static const vector<cld> &twid(long n)
{
  static std::map<long, vector<cld>> m; auto &w = m[n];
  if (w.empty()) { w.resize(n); for (long k = 0; k < n; k++) { long double a = 2.0L * M_PIl * (long double) k / (long double) n; w[k] = cld(cosl(a), -sinl(a)); } }
  return w;
}
static void dft_rec(cld *x, long n, long stride, cld *out, const vector<cld> &w, long wn, bool inv)
{
  // mixed radix decimation in time, written independently of the library
  if (n == 1) { out[0] = x[0]; return; }
  long p = 2; while (n % p) p++;
  if (p == n && true) {
    for (long k = 0; k < n; k++) { cld s = 0; for (long j = 0; j < n; j++) { cld t = w[(size_t) ((j * k % n) * (wn / n))]; s += x[j * stride] * (inv ? std::conj(t) : t); } out[k] = s; }
    return;
  }
  long m = n / p; vector<cld> sub((size_t) n);
  for (long r = 0; r < p; r++) dft_rec(x + r * stride, m, stride * p, sub.data() + r * m, w, wn, inv);
  for (long k = 0; k < n; k++) { cld s = 0; for (long r = 0; r < p; r++) { cld t = w[(size_t) ((r * k % n) * (wn / n))]; s += sub[r * m + k % m] * (inv ? std::conj(t) : t); } out[k] = s; }
}
static void dft1(cld *x, long n, long stride, bool inv)
{
  const vector<cld> &w = twid(n); vector<cld> in(n), out(n); for (long i = 0; i < n; i++) in[i] = x[i * stride];
  dft_rec(in.data(), n, 1, out.data(), w, n, inv);
  // cross-check two outputs against the defining sum
  for (int q = 0; q < 2; q++) {
    long k = q ? n - 1 : n / 2; cld s = 0; long double mag = 0; for (long j = 0; j < n; j++) { cld t = w[(size_t) ((long long) j * k % n)]; s += in[j] * (inv ? std::conj(t) : t); mag += std::abs(in[j]); }
    if (std::abs(s - out[k]) > 1e-15L * mag + 1e-300L) { fprintf(stderr, "worker: reference transform self-check failed\n"); _exit(9); }
  }
  for (long i = 0; i < n; i++) x[i * stride] = out[i];
}
static void dft_nd(vector<cld> &g, const int *d, int nd, bool inv)
{
  long n0 = d[0], n1 = d[1], n2 = nd == 3 ? d[2] : 1;
  for (long k = 0; k < n2; k++) for (long j = 0; j < n1; j++) dft1(&g[(k * n1 + j) * n0], n0, 1, inv);
  for (long k = 0; k < n2; k++) for (long i = 0; i < n0; i++) dft1(&g[k * n1 * n0 + i], n1, n0, inv);
  if (nd == 3) for (long j = 0; j < n1; j++) for (long i = 0; i < n0; i++) dft1(&g[j * n0 + i], n2, n0 * n1, inv);
}

// ---------------------------------------------------------------- run-time state
struct RObj { void *h = NULL; int sz[3] = {0, 0, 0}; Buf sb, rb; Buf last; bool haslast = false; int tuned = 0; };
struct Rec {                         // one data operation on one rank
  bool done = false; vector<char> in, out; vector<char> incopy; bool inmod = false, edge = false; long mpicalls = 0, copies = 0, ticks = 0, tr[10] = {0}; int fftsize = 0; int np[12]; long sub[5] = {0, 0, 0, 0, 0};
  bool remaponly = false, scaled = true;
};
static vector<vector<RObj>> ro;      // [rank][obj]
static vector<vector<Rec>> rec;      // [op][rank]
static vector<vector<int>> opdone;   // [op][rank] 0 not reached, 1 started, 2 finished, 3 not a member
struct OState { bool scaled = true, remaponly = false; };
static vector<vector<OState>> ost;
static vector<vector<vf_alloc_stats>> marks; static vector<vector<std::array<int, 3>>> markm;
static vector<string> glines;

static double dataval(int kind, uint64_t seed, const Obj &o, int i, int j, int k, int c)
{
  uint64_t h = mix(mix(seed * 1315423911u + (uint64_t) i) * 31 + mix((uint64_t) j * 7919 + 1) * 17 + mix((uint64_t) k * 104729 + 3) + (uint64_t) c * 977);
  switch (kind) {
    case 0: return 2.0 * u01(h) - 1.0;
    case 1: return (double) (int) (h % 19) - 9.0;
    case 2: {                                                         // impulse
      uint64_t s = mix(seed ^ 0xABCDEF); int a = (int) (s % (uint64_t) o.d[0]), b = (int) ((s >> 16) % (uint64_t) o.d[1]), e = (int) ((s >> 32) % (uint64_t) o.d[2]);
      return (i == a && j == b && k == e) ? (c ? -0.75 : 1.25) : 0.0; }
    case 3: return c ? -0.5 : 1.5;
    case 4: return c ? 0.0 : 2.0 * u01(h) - 1.0;
    case 5: return (2.0 * u01(h) - 1.0) * exp(30.0 * (2.0 * u01(mix(h)) - 1.0));
    case 6: {                                                         // plane wave
      uint64_t s = mix(seed ^ 0x13579); double ph = 2 * M_PI * ((double) ((long) (s % (uint64_t) o.d[0]) * i % o.d[0]) / o.d[0] + (double) ((long) ((s >> 16) % (uint64_t) o.d[1]) * j % o.d[1]) / o.d[1] + (double) ((long) ((s >> 32) % (uint64_t) o.d[2]) * k % o.d[2]) / o.d[2]);
      return c ? sin(ph) : cos(ph); }
    case 7: return (double) (1 + i) + 1e-3 * j * (c + 1) + 1e-6 * k;
    case 8: return (2.0 * u01(h) - 1.0) * 1e-18;
    default: return (2.0 * u01(h) - 1.0) * 1e15;
  }
}
static uint64_t rawval(uint64_t seed, long g, int q) { return mix(mix(seed) ^ ((uint64_t) g * 64 + (uint64_t) q + 0x5bd1e995)); }
static void putraw(char *p, uint64_t v)
{
  // arbitrary finite bit patterns (signed zeros and denormals included), all distinct in practice
  if (SS == 8) { if (((v >> 52) & 0x7ff) == 0x7ff) v &= ~(1ull << 62); if (v % 97 == 0) v &= 0x800fffffffffffffull; memcpy(p, &v, 8); }
  else { uint32_t w = (uint32_t) (v ^ (v >> 32)); if (((w >> 23) & 0xff) == 0xff) w &= ~(1u << 30); if (v % 97 == 0) w &= 0x807fffffu; memcpy(p, &w, 4); }
}
static void put(char *p, double v) { if (SS == 8) memcpy(p, &v, 8); else { float f = (float) v; memcpy(p, &f, 4); } }
static double getv(const char *p) { if (SS == 8) { double v; memcpy(&v, p, 8); return v; } float f; memcpy(&f, p, 4); return f; }

static int commrank(const Obj &o, int w) { const vector<int> &m = K.comms[o.comm]; for (size_t i = 0; i < m.size(); i++) if (m[i] == w) return (int) i; return -1; }

static void record_get(int op, int r, const Obj &o, const vf_api *A, void *h, bool early)
{
  // early: before setup only the options, names, trial counts and memory usage have values
  string s = sf("G %d %d", op, r); RObj &x = ro[r][K.ops[op].o];
  s += sf(" fftsize=%d sendsize=%d recvsize=%d memusage=%lld", x.sz[0], x.sz[1], x.sz[2], isfft(o) || o.api == API_CPP ? (long long) A->get_int64(o.kind, h, "memusage") : -9LL);
  if (isfft(o)) {
    static const char *ik[] = {"collective", "exchange", "pack", "npfast1", "npfast2", "npfast3", "npmid1", "npmid2", "npmid3", "npslow1", "npslow2", "npslow3", "npbrick1", "npbrick2", "npbrick3", "ntrial", "npertrial"};
    for (auto k : ik) { if (early && k[0] == 'n' && k[1] == 'p' && strcmp(k, "npertrial")) continue; if (o.kind == 1 && (strstr(k, "npmid") || k[strlen(k) - 1] == '3')) continue; s += sf(" %s=%d", k, A->get_int(o.kind, h, k)); }
    if (x.tuned) s += sf(" setuptime=%.17g", A->get_double(o.kind, h, "setuptime"));
    if (x.tuned && o.api == API_CPP) s += sf(" x_cbest=%d x_ebest=%d x_pbest=%d x_besttime=%.17g", A->get_int(o.kind, h, "cbest"), A->get_int(o.kind, h, "ebest"), A->get_int(o.kind, h, "pbest"), A->get_double(o.kind, h, "besttime"));
    static const char *sk[] = {"fft1d", "precision"};
    for (auto k : sk) { int len = -7; const char *v = A->get_string(o.kind, h, k, &len); s += sf(" %s=%d:%.*s", k, len, len >= 0 && len < 50 ? len : 0, v ? v : "NULL"); }
    static const char *vk[] = {"cflags", "eflags", "pflags"};
    for (auto k : vk) { int len = -7; int *v = A->get_int_vector(o.kind, h, k, &len); s += sf(" %s=%d:", k, len); if (!v) s += "NULL"; else if (x.tuned) for (int i = 0; i < len && i < 10; i++) s += sf("%d,", v[i]); }
    static const char *dk[] = {"tfft", "t1d", "tremap", "tremap1", "tremap2", "tremap3", "tremap4"};
    for (auto k : dk) { if (o.kind == 1 && !strcmp(k, "tremap4")) continue; int len = -7; double *v = A->get_double_vector(o.kind, h, k, &len); s += sf(" %s=%d:", k, len); if (!v) s += "NULL"; else if (x.tuned) for (int i = 0; i < len && i < 10; i++) s += sf("%.17g,", v[i]); }
  }
  glines.push_back(s);
}

static void do_data(int opi, int r, const Op &op, const Obj &o, const vf_api *A, RObj &x)
{
  // arguments: dir place data seed
  int dir = atoi(op.a[0].c_str()), place = atoi(op.a[1].c_str()), data = atoi(op.a[2].c_str()); uint64_t seed = strtoull(op.a[3].c_str(), 0, 10);
  int cr = commrank(o, r); Rec &R = rec[opi][r]; OState &os = ost[r][op.o]; R.scaled = os.scaled; R.remaponly = os.remaponly;
  bool fft = isfft(o); int q = fft ? 2 : o.nqty;
  bool fwd = dir == 1; const auto &ib = fwd ? o.in[cr] : o.out[cr]; const auto &ob = fwd ? o.out[cr] : o.in[cr];
  long nin = boxsize(o, ib) * q, nout = boxsize(o, ob) * q; int iperm = fwd ? 0 : o.permute;
  long cap = fft ? 2L * x.sz[0] : std::max(nin, nout); if (cap < std::max(nin, nout) && K.expect == opi) cap = std::max(nin, nout);
  R.fftsize = x.sz[0];
  Buf bi, bo;
  bool only1d = op.name == "only1d";
  if (data < 0 && x.haslast) { bi = x.last; x.haslast = false; x.last = Buf(); }
  else {
    if (x.haslast) { bfree(x.last); x.haslast = false; }
    long have = place ? nin : cap; if (only1d) have = cap;
    bi = balloc((size_t) (have * SS), seed * 8 + 1 + (uint64_t) cr * 1000003);
    if (only1d) for (long t = 0; t < cap; t++) put(bi.p + t * SS, 2.0 * u01(mix(seed * 77 + (uint64_t) t * 3 + (uint64_t) r * 1000003)) - 1.0);
    else if (data < 0 || data == 99 || !fft) {
      foreach_tile(o, ib, [&](int i, int j, int k) { long g = ((long) k * o.d[1] + j) * o.d[0] + i, t = tileidx(o, ib, iperm, i, j, k);
        for (int c = 0; c < q; c++) if (t * q + c < have) putraw(bi.p + (t * q + c) * SS, rawval(seed, g, c)); });
    } else foreach_tile(o, ib, [&](int i, int j, int k) { long t = tileidx(o, ib, iperm, i, j, k); for (int c = 0; c < 2; c++) if (t * 2 + c < have) put(bi.p + (t * 2 + c) * SS, dataval(data, seed, o, i, j, k, c)); });
  }
  size_t inb = (size_t) ((only1d ? cap : nin) * SS); if (inb > bi.n) { bfree(bi); vf::fail(vf::F_USER, sf("announced size is smaller than the tile: %zu bytes for a tile of %zu bytes", bi.n, inb)); }
  R.in.assign(bi.p, bi.p + inb);
  if (place && !only1d) { bo = balloc((size_t) (cap * SS), seed * 8 + 2 + (uint64_t) cr * 1000003); R.incopy.assign(bi.p, bi.p + bi.n); } else bo = bi;
  // buffers are the caller's between calls: other contents, and for remaps sometimes other buffers
  if (!fft && !o.memflag && (seed & 1)) { Buf s = balloc(x.sb.n, seed * 8 + 6), t = balloc(x.rb.n, seed * 8 + 7); if (!bcheck(x.sb) || !bcheck(x.rb)) R.edge = true; bfree(x.sb); bfree(x.rb); x.sb = s; x.rb = t; }
  if (x.sb.p) memset(x.sb.p, 0xFF, x.sb.n);
  if (x.rb.p) memset(x.rb.p, 0xFF, x.rb.n);
  long pb = vf::p2p_bytes[r], cb = vf::coll_bytes[r];
  long mc = vf::mpi_calls[r], tk = vf::ticks1d[r]; vf_alloc_stats as; libs[r].alloc(&as); long cp = as.copies;
  if (op.name == "compute") A->compute(o.kind, x.h, bi.p, bo.p, dir);
  else if (op.name == "remaps") A->only_remaps(o.kind, x.h, bi.p, bo.p, dir);
  else if (op.name == "only1d") A->only_1d(o.kind, x.h, bi.p, dir);
  else if (op.name == "remap") {
    char *none = seed & 2 ? (char *) 16 : NULL;      // with internal memory these arguments are not used
    A->remap(o.kind, x.h, bi.p, bo.p, o.memflag ? none : x.sb.p, o.memflag ? none : x.rb.p);
  }
  else if (op.name == "steps") {
    // place 2: every remap that always exists moves between different arrays
    int last = dimn(o) == 3 ? 4 : 3; Buf b2; if (place == 2) b2 = balloc((size_t) (cap * SS), seed * 8 + 3 + (uint64_t) cr * 1000003);
    for (int s = 1; s <= last; s++) {
      int w = fwd ? s : last + 1 - s; long m0 = vf::mpi_calls[r], p0 = vf::p2p_bytes[r], c0 = vf::coll_bytes[r];
      if (place == 2 && s > 1 && s < last) {
        vector<char> keep(bo.p, bo.p + bo.n); A->only_one(o.kind, x.h, bo.p, b2.p, dir, w);
        if (bo.n && memcmp(bo.p, keep.data(), bo.n)) R.inmod = true;
        if (!bcheck(bo) || !bcheck(b2)) R.edge = true;
        std::swap(bo, b2);
      } else A->only_one(o.kind, x.h, s == 1 ? bi.p : bo.p, bo.p, dir, w);
      R.sub[w] = vf::mpi_calls[r] - m0; R.tr[2 * w] = vf::p2p_bytes[r] - p0; R.tr[2 * w + 1] = vf::coll_bytes[r] - c0;
    }
    bfree(b2);
  }
  R.tr[0] = vf::p2p_bytes[r] - pb; R.tr[1] = vf::coll_bytes[r] - cb;
  R.mpicalls = vf::mpi_calls[r] - mc; R.ticks = vf::ticks1d[r] - tk; libs[r].alloc(&as); R.copies = as.copies - cp;
  size_t outb = (size_t) ((only1d ? cap : nout) * SS);
  if (outb <= bo.n) R.out.assign(bo.p, bo.p + outb);
  R.edge = R.edge || !bcheck(bi) || !bcheck(bo) || !bcheck(x.sb) || !bcheck(x.rb);
  if (place && !only1d) { R.inmod = R.inmod || bi.n && memcmp(bi.p, R.incopy.data(), bi.n) != 0; vector<char>().swap(R.incopy); bfree(bi); }
  if (only1d) for (int t = 0; t < 12; t++) R.np[t] = 0;
  if (only1d) {
    static const char *k3[] = {"npfast1", "npfast2", "npfast3", "npmid1", "npmid2", "npmid3", "npslow1", "npslow2", "npslow3"}; static const char *k2[] = {"npfast1", "npfast2", "npslow1", "npslow2"};
    const vf_api *X = libs[r].api[o.api]; for (int t = 0; t < (dimn(o) == 3 ? 9 : 4); t++) R.np[t] = X->get_int(o.kind, x.h, dimn(o) == 3 ? k3[t] : k2[t]);
  }
  x.last = bo; x.haslast = true; R.done = true;
}

static long injected = 0;   // allocation failures injected so far
static void rank_main(int r)
{
  for (size_t i = 0; i < K.ops.size(); i++) {
    const Op &op = K.ops[i];
    if (op.name == "mark") { vf_alloc_stats s; libs[r].alloc(&s); marks[i][r] = s; markm[i][r] = {vf::live_comms(r), vf::live_groups(r), vf::live_requests(r)}; opdone[i][r] = 2; continue; }
    const Obj &o = K.objs[op.o]; int cr = commrank(o, r); if (cr < 0) { opdone[i][r] = 3; continue; }
    RObj &x = ro[r][op.o]; const vf_api *A = libs[r].api[o.api]; OState &os = ost[r][op.o];
    vf::op_note[r] = op.name; opdone[i][r] = 1;
    if (op.name == "failalloc") { if (atoi(op.a[0].c_str()) < 0 || cr == atoi(op.a[0].c_str()) % (int) K.comms[o.comm].size()) libs[r].failalloc(atol(op.a[1].c_str()), atoi(op.a[2].c_str())); opdone[i][r] = 2; continue; }
    if (op.name == "create") { x = RObj(); os = OState(); int prec = atoi(op.a[0].c_str()); x.h = A->create(o.kind, vf::comm_handle(o.comm), prec ? prec : (SS == 8 ? 2 : 1)); }
    else if (op.name == "set") { int v = atoi(op.a[1].c_str()); A->set(o.kind, x.h, op.a[0].c_str(), v); if (op.a[0] == "scale") os.scaled = v; if (op.a[0] == "remaponly") os.remaponly = v; }
    else if (op.name == "setup" || op.name == "setuplike") {
      if (op.name == "setuplike") {
        int src = atoi(op.a[0].c_str()); const vf_api *B = libs[r].api[K.objs[src].api]; void *hs = ro[r][src].h;
        for (auto k : {"collective", "exchange", "pack"}) A->set(o.kind, x.h, k, B->get_int(K.objs[src].kind, hs, k));
        os.scaled = ost[r][src].scaled; os.remaponly = ost[r][src].remaponly;   // what the caller last asked for, not what tune() may have left
        A->set(o.kind, x.h, "scale", os.scaled); A->set(o.kind, x.h, "remaponly", os.remaponly);
      }
      x.sz[0] = x.sz[1] = x.sz[2] = 0; A->setup(o.kind, x.h, o.d, o.in[cr].data(), o.out[cr].data(), o.nqty, o.permute, o.memflag, x.sz);
      if (!isfft(o) && !o.memflag) { bfree(x.sb); bfree(x.rb); x.sb = balloc((size_t) x.sz[1] * SS, (uint64_t) x.sz[1] * 8 + 4 + r); x.rb = balloc((size_t) x.sz[2] * SS, (uint64_t) x.sz[2] * 8 + 5 + r); }
    }
    else if (op.name == "tune") {
      vf::reset_clock(strtoull(op.a[4].c_str(), 0, 10)); x.sz[0] = x.sz[1] = x.sz[2] = 0; long w0 = vf::wtime_calls[r];
      A->tune(o.kind, x.h, o.d, o.in[cr].data(), o.out[cr].data(), o.permute, x.sz, atoi(op.a[0].c_str()), atoi(op.a[1].c_str()), atof(op.a[2].c_str()), atoi(op.a[3].c_str())); x.tuned = 1;
      glines.push_back(sf("W %d %d %ld", (int) i, r, vf::wtime_calls[r] - w0));
    }
    else if (op.name == "setupmem") { bfree(x.sb); bfree(x.rb); x.sb = balloc((size_t) x.sz[1] * SS, (uint64_t) x.sz[1] * 8 + 4 + r); x.rb = balloc((size_t) x.sz[2] * SS, (uint64_t) x.sz[2] * 8 + 5 + r); A->setup_memory(o.kind, x.h, x.sb.p, x.rb.p); }
    else if (op.name == "get" || op.name == "get0") record_get((int) i, r, o, A, x.h, op.name == "get0");
    else if (op.name == "unk") {
      string s = sf("U %d %d", (int) i, r); const string &n = op.a[0]; int len = -7;
      s += sf(" %d %.17g %lld %d %d %d", A->get_int(o.kind, x.h, n.c_str()), A->get_double(o.kind, x.h, n.c_str()), (long long) A->get_int64(o.kind, x.h, n.c_str()), A->get_string(o.kind, x.h, n.c_str(), &len) == NULL, A->get_int_vector(o.kind, x.h, n.c_str(), &len) == NULL, A->get_double_vector(o.kind, x.h, n.c_str(), &len) == NULL);
      glines.push_back(s);
    }
    else if (op.name == "destroy") {
      A->destroy(o.kind, x.h); x.h = NULL;
      if (!bcheck(x.sb) || !bcheck(x.rb)) vf::fail(vf::F_USER, "edge of a caller-supplied buffer overwritten");
      // caller-supplied buffers must still be the caller's
      if (x.sb.p) memset(x.sb.p, 1, x.sb.n); if (x.rb.p) memset(x.rb.p, 1, x.rb.n);
      bfree(x.sb); bfree(x.rb); if (x.haslast) bfree(x.last); x = RObj();
    }
    else do_data((int) i, r, op, o, A, x);
    injected += libs[r].failalloc(-1, 0);
    opdone[i][r] = 2; vf::op_note[r] = "";
    vf::yield_point();
  }
}

// ---------------------------------------------------------------- verification
static double maxratio = 0;
static void check_move(int opi, const Op &op, const Obj &o)
{
  int dir = atoi(op.a[0].c_str()); bool fwd = dir == 1; int q = isfft(o) ? 2 : o.nqty; const vector<int> &m = K.comms[o.comm];
  std::map<long, std::pair<int, long>> where;   // global -> (comm rank, tile offset) of the source
  int iperm = fwd ? 0 : o.permute, operm = fwd ? o.permute : 0;
  for (size_t c = 0; c < m.size(); c++) { const auto &b = fwd ? o.in[c] : o.out[c]; foreach_tile(o, b, [&](int i, int j, int k) { where[((long) k << 40) | ((long) j << 20) | i] = {(int) c, tileidx(o, b, iperm, i, j, k)}; }); }
  for (size_t c = 0; c < m.size(); c++) {
    const auto &b = fwd ? o.out[c] : o.in[c]; Rec &R = rec[opi][m[c]]; bool bad = false;
    foreach_tile(o, b, [&](int i, int j, int k) {
      if (bad) return; auto it = where.find(((long) k << 40) | ((long) j << 20) | i); long t = tileidx(o, b, operm, i, j, k);
      if (it == where.end()) { fail_line("badcase", opi, (int) c, "output tile not covered"); bad = true; return; }
      Rec &I = rec[opi][m[it->second.first]];
      for (int s = 0; s < q && !bad; s++) {
        size_t a = (size_t) ((it->second.second * q + s) * SS), z = (size_t) ((t * q + s) * SS);
        if (a + SS > I.in.size() || z + SS > R.out.size() || memcmp(&I.in[a], &R.out[z], SS)) {
          bad = true; fail_line("move", opi, (int) c, sf("%s: element (%d,%d,%d) datum %d on comm rank %d is %.17g, expected %.17g (bit for bit)", op.name.c_str(), i, j, k, s, (int) c, z + SS <= R.out.size() ? getv(&R.out[z]) : NAN, a + SS <= I.in.size() ? getv(&I.in[a]) : NAN)); }
      }
    });
    if (bad) return;
  }
}
static double tolerance(double n) { double eps = SS == 8 ? 1.1102230246251565e-16 : 5.9604644775390625e-8; return eps * (3.0 + 1.2 * log2(n < 2 ? 2 : n)); }
static void check_fft(int opi, const Op &op, const Obj &o)
{
  int dir = atoi(op.a[0].c_str()); bool fwd = dir == 1; const vector<int> &m = K.comms[o.comm]; int nd = dimn(o); long N = (long) o.d[0] * o.d[1] * (nd == 3 ? o.d[2] : 1);
  vector<cld> g((size_t) N); int iperm = fwd ? 0 : o.permute, operm = fwd ? o.permute : 0; bool finite = true;
  for (size_t c = 0; c < m.size(); c++) {
    const auto &b = fwd ? o.in[c] : o.out[c]; Rec &R = rec[opi][m[c]];
    foreach_tile(o, b, [&](int i, int j, int k) { long t = tileidx(o, b, iperm, i, j, k); double re = getv(&R.in[t * 2 * SS]), im = getv(&R.in[(t * 2 + 1) * SS]); if (!(fabs(re) < 1e300) || !(fabs(im) < 1e300)) finite = false; g[((long) k * o.d[1] + j) * o.d[0] + i] = cld(re, im); });
  }
  if (!finite) return;                    // an earlier operation already went wrong and is reported there
  dft_nd(g, o.d, nd, !fwd);
  bool sc = !fwd && rec[opi][m[0]].scaled; if (sc) for (auto &v : g) v /= (long double) N;
  long double num = 0, den = 0, worst = -1; string at; int wr = -1;
  for (size_t c = 0; c < m.size(); c++) {
    const auto &b = fwd ? o.out[c] : o.in[c]; Rec &R = rec[opi][m[c]];
    foreach_tile(o, b, [&](int i, int j, int k) {
      long t = tileidx(o, b, operm, i, j, k); cld ref = g[((long) k * o.d[1] + j) * o.d[0] + i], v(getv(&R.out[t * 2 * SS]), getv(&R.out[(t * 2 + 1) * SS]));
      long double e = std::norm(v - ref); if (!(e >= 0) || std::isinf(e)) e = 1e4000L; num += e; den += std::norm(ref);
      if (e > worst) { worst = e; wr = (int) c; at = sf("element (%d,%d,%d) on comm rank %d is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", i, j, k, (int) c, (double) v.real(), (double) v.imag(), ref.real(), ref.imag()); }
    });
  }
  double tol = tolerance((double) N); double rel = den > 0 ? (double) sqrtl(num / den) : (num > 0 ? INFINITY : 0);
  double ratio = rel / tol; if (ratio > maxratio) maxratio = ratio;
  if (!(rel <= tol)) fail_line("fft", opi, wr, sf("%s %s%s: relative error %.3g exceeds %.3g; %s", op.name.c_str(), fwd ? "forward" : "backward", sc ? " scaled" : "", rel, tol, at.c_str()));
}
static void check_only1d(int opi, const Op &op, const Obj &o)
{
  int dir = atoi(op.a[0].c_str()); bool inv = dir != 1; const vector<int> &m = K.comms[o.comm]; int nd = dimn(o);
  bool fullfast = true, fullslow = o.permute == nd - 1;
  for (size_t c = 0; c < m.size(); c++) { if (o.in[c][0] != 0 || o.in[c][1] != o.d[0] - 1) fullfast = false; if (o.out[c][2 * nd - 2] != 0 || o.out[c][2 * nd - 1] != o.d[nd - 1] - 1) fullslow = false; }
  for (size_t c = 0; c < m.size(); c++) {
    Rec &R = rec[opi][m[c]]; if (R.mpicalls) fail_line("only1d-comm", opi, (int) c, sf("1d-FFT-only call made %ld communication calls", R.mpicalls));
    long cap = R.fftsize; vector<cld> x((size_t) cap); for (long t = 0; t < cap; t++) x[t] = cld(getv(&R.in[t * 2 * SS]), getv(&R.in[(t * 2 + 1) * SS]));
    auto rng = [](long n, long p) { std::set<long> s; if (p < 1) p = 1; s.insert(n / p); s.insert((n + p - 1) / p); return s; };
    auto prod = [](const std::set<long> &a, const std::set<long> &b) { std::set<long> s; for (long u : a) for (long v : b) s.insert(u * v); return s; };
    vector<std::set<long>> cand; vector<long> len;
    const auto &ib = o.in[c]; const auto &ob = o.out[c];
    if (nd == 3) {
      cand.push_back(fullfast ? std::set<long>{(long) (ib[3] - ib[2] + 1) * (ib[5] - ib[4] + 1)} : prod(rng(o.d[1], R.np[1]), rng(o.d[2], R.np[2]))); len.push_back(o.d[0]);
      cand.push_back(prod(rng(o.d[0], R.np[3]), rng(o.d[2], R.np[5]))); len.push_back(o.d[1]);
      cand.push_back(fullslow ? std::set<long>{(long) (ob[1] - ob[0] + 1) * (ob[3] - ob[2] + 1)} : prod(rng(o.d[0], R.np[6]), rng(o.d[1], R.np[7]))); len.push_back(o.d[2]);
    } else {
      cand.push_back(fullfast ? std::set<long>{(long) (ib[3] - ib[2] + 1)} : rng(o.d[1], R.np[1])); len.push_back(o.d[0]);
      cand.push_back(fullslow ? std::set<long>{(long) (ob[1] - ob[0] + 1)} : rng(o.d[0], R.np[2])); len.push_back(o.d[1]);
    }
    double best = INFINITY;
    std::function<void(size_t, vector<cld>)> go = [&](size_t s, vector<cld> y) {
      if (s == cand.size()) {
        long double num = 0, den = 0; for (long t = 0; t < cap; t++) { cld v(getv(&R.out[t * 2 * SS]), getv(&R.out[(t * 2 + 1) * SS])); long double e = std::norm(v - y[t]); if (!(e >= 0)) e = 1e4000L; num += e; den += std::norm(y[t]); }
        best = std::min(best, den > 0 ? (double) sqrtl(num / den) : (num > 0 ? INFINITY : 0.0)); return;
      }
      for (long n : cand[s]) { if (n * len[s] > cap) continue; vector<cld> z = y; for (long l = 0; l < n; l++) dft1(&z[l * len[s]], len[s], 1, inv); go(s + 1, z); }
    };
    go(0, x);
    double tol = tolerance((double) o.d[0] * o.d[1] * (nd == 3 ? o.d[2] : 1));
    if (!(best <= tol)) fail_line("only1d", opi, (int) c, sf("1d-FFT-only result on comm rank %d is not the 1d transforms of its data (best relative error %.3g, allowed %.3g)", (int) c, best, tol));
  }
}

static void run_case(int errfd)
{
  K.sc.np = K.np; vf::begin(K.sc);
  for (size_t i = 1; i < K.comms.size(); i++) vf::add_comm(K.comms[i]);
  ro.assign(K.np, vector<RObj>(K.objs.size())); ost.assign(K.np, vector<OState>(K.objs.size()));
  rec.assign(K.ops.size(), vector<Rec>(K.np)); opdone.assign(K.ops.size(), vector<int>(K.np, 0));
  marks.assign(K.ops.size(), vector<vf_alloc_stats>(K.np)); markm.assign(K.ops.size(), vector<std::array<int, 3>>(K.np));
  vf::Result res = vf::run(rank_main);
  fflush(stdout);
  long outlen = lseek(errfd, 0, SEEK_END); string msg; if (outlen > 0) { char b[301]; ssize_t n = pread(errfd, b, 300, 0); if (n > 0) msg.assign(b, n); }
  for (auto &s : glines) fprintf(outf, "%s\n", s.c_str());
  fprintf(outf, "S steps=%ld choices=%ld msgs=%ld colls=%ld syncblocks=%ld reorder=%ld\n", res.steps, res.choices, res.msgs, res.colls, res.syncblocks, res.reorder);
  int nexit = 0; for (auto &q : res.ranks) if (q.kind == 1) nexit++;
  // ---- memory ran out: an orderly end is fine, and so is coping with it
  bool inj = false; for (auto &op : K.ops) inj = inj || op.name == "failalloc";
  if (inj) {
    for (int r = 0; r < K.np; r++) injected += libs[r].failalloc(-1, 0);
    fprintf(outf, "S injected=%ld aborted=%d\n", injected, res.fail == vf::F_ABORT || nexit);
    if (injected && (res.fail == vf::F_ABORT || nexit == K.np)) {
      if (msg.find_first_not_of(" \n") == string::npos) fail_line("nomsg", -1, res.failrank, "ended without an error message after memory ran out");
      if (res.fail == vf::F_ABORT ? res.msg == "MPI_Abort(0)" : [&] { for (auto &q : res.ranks) if (q.code == 0) return true; return false; }()) fail_line("badexit", -1, res.failrank, "ended with status 0 after memory ran out");
      return;
    }
  }
  // ---- expected refusal
  if (K.expect >= 0) {
    const Op &op = K.ops[K.expect]; const Obj &o = K.objs[op.o]; const vector<int> &m = K.comms[o.comm];
    if (res.fail == vf::F_ABORT) { if (msg.empty()) fail_line("nomsg", K.expect, -1, "refused without an error message"); return; }
    if (res.fail) { static const char *n[] = {"none", "deadlock", "mpi", "abort", "steps", "user"}; fail_line(n[res.fail], K.expect, res.failrank, "instead of a clean refusal on all processes: " + res.msg); return; }
    for (int r : m) {
      if (opdone[K.expect][r] == 0) { fail_line("early", K.expect, r, sf("rank %d ended before the invalid request: %s", r, msg.c_str())); return; }
      if (opdone[K.expect][r] == 2) { fail_line("accepted", K.expect, r, sf("invalid request '%s' was accepted on rank %d", op.name.c_str(), r)); return; }
      if (res.ranks[r].kind != 1 || res.ranks[r].code == 0) { fail_line("badexit", K.expect, r, sf("rank %d ended with status 0 after an invalid request", r)); return; }
    }
    if (msg.empty()) fail_line("nomsg", K.expect, -1, "refused without an error message");
    return;
  }
  if (res.fail) {
    static const char *n[] = {"none", "deadlock", "mpi", "abort", "steps", "user"}; int opi = -1;
    for (size_t i = 0; i < K.ops.size(); i++) for (int r = 0; r < K.np; r++) if (opdone[i][r] == 1 && opi < 0) opi = (int) i;
    if (res.fail == vf::F_DEADLOCK && nexit) fail_line("refused", opi, -1, "valid request refused: " + msg + " / " + res.msg);
    else fail_line(n[res.fail], opi, res.failrank, res.msg + (msg.empty() ? "" : " / output: " + msg));
    return;
  }
  if (nexit) { int opi = -1; for (size_t i = 0; i < K.ops.size(); i++) for (int r = 0; r < K.np; r++) if (opdone[i][r] == 1 && opi < 0) opi = (int) i; fail_line("refused", opi, -1, "valid request refused: " + msg); return; }
  if (res.pending_msgs) fail_line("pending", -1, -1, sf("%d messages sent but never received", res.pending_msgs));
  if (res.pending_recvs) fail_line("pending", -1, -1, sf("%d receives posted but never matched", res.pending_recvs));
  if (res.pending_sends) fail_line("pending", -1, -1, sf("%d sends never completed", res.pending_sends));
  long moved = 0, nops = 0;
  for (size_t i = 0; i < K.ops.size(); i++) {
    const Op &op = K.ops[i]; if (op.name == "mark") { for (int r = 0; r < K.np; r++) fprintf(outf, "M %d %d %ld %ld %ld %d %d %d\n", (int) i, r, marks[i][r].live, marks[i][r].bytes, marks[i][r].plans, markm[i][r][0], markm[i][r][1], markm[i][r][2]); continue; }
    const Obj &o = K.objs[op.o]; const vector<int> &m = K.comms[o.comm];
    bool dataop = op.name == "compute" || op.name == "remaps" || op.name == "steps" || op.name == "remap" || op.name == "only1d";
    if (!dataop) continue;
    nops++;
    for (size_t c = 0; c < m.size(); c++) {
      Rec &R = rec[i][m[c]]; if (R.inmod) fail_line("inmod", (int) i, (int) c, sf("input array of an out-of-place %s was modified on comm rank %d", op.name.c_str(), (int) c));
      if (R.edge) fail_line("edge", (int) i, (int) c, sf("memory next to an array of the announced size was overwritten by %s on comm rank %d", op.name.c_str(), (int) c));
      moved += (long) R.in.size();
    }
    if (op.name == "only1d") check_only1d((int) i, op, o);
    else if (op.name == "compute" && !rec[i][m[0]].remaponly) check_fft((int) i, op, o);
    else check_move((int) i, op, o);
  }
  for (size_t i = 0; i < K.ops.size(); i++) for (int r = 0; r < K.np; r++) if (rec[i][r].done) { Rec &R = rec[i][r]; fprintf(outf, "C %d %d %ld %ld %ld %ld %ld %ld %ld\n", (int) i, r, R.mpicalls, R.sub[1], R.sub[2], R.sub[3], R.sub[4], R.copies, R.ticks); fprintf(outf, "T %d %d", (int) i, r); for (int t = 0; t < 10; t++) fprintf(outf, " %ld", R.tr[t]); fprintf(outf, "\n"); }
  // outputs, hashed, for comparisons between operations
  for (size_t i = 0; i < K.ops.size(); i++) for (int r = 0; r < K.np; r++) if (rec[i][r].done) { uint64_t h = 1469598103934665603ull; for (char ch : rec[i][r].out) { h ^= (unsigned char) ch; h *= 1099511628211ull; } fprintf(outf, "H %d %d %llx\n", (int) i, r, (unsigned long long) h); }
  fprintf(outf, "S bytes=%ld dataops=%ld ratio=%.3g\n", moved, nops, maxratio);
}

static bool read_case(std::istream &in)
{
  K = Case(); string line; bool got = false; vector<vector<int>> comms;
  while (std::getline(in, line)) {
    std::istringstream s(line); string w; if (!(s >> w)) continue;
    if (w == "CASE") { s >> K.id; got = true; }
    else if (w == "NP") { s >> K.np; vector<int> all(K.np); for (int i = 0; i < K.np; i++) all[i] = i; K.comms.assign(1, all); }
    else if (w == "SCHED") { s >> K.sc.policy >> K.sc.sendmode >> K.sc.eager_limit >> K.sc.deliver >> K.sc.rootsync >> K.sc.clockmode >> K.sc.seed >> K.sc.clockseed >> K.sc.maxsteps; }
    else if (w == "COMM") { vector<int> v; int x; while (s >> x) v.push_back(x); K.comms.push_back(v); }
    else if (w == "OBJ") { Obj o; s >> o.kind >> o.comm >> o.api >> o.d[0] >> o.d[1] >> o.d[2] >> o.nqty >> o.permute >> o.memflag; o.in.resize(K.comms[o.comm].size()); o.out = o.in; K.objs.push_back(o); }
    else if (w == "BOX") { int o, r; s >> o >> r; for (int i = 0; i < 6; i++) s >> K.objs[o].in[r][i]; for (int i = 0; i < 6; i++) s >> K.objs[o].out[r][i]; }
    else if (w == "OP") { Op p; s >> p.name >> p.o; string t; while (s >> t) p.a.push_back(t); K.ops.push_back(p); }
    else if (w == "EXPECT") s >> K.expect;
    else if (w == "END") return got;
  }
  return false;
}

int main(int argc, char **argv)
{
  if (argc < 3) return 2;
  int n = atoi(argv[2]); int tlimit = argc > 3 ? atoi(argv[3]) : 20;
  auto load = [&](int want) {            // one copy of the library per rank, loaded when a case first needs it
    for (int i = (int) libs.size(); i < n && i < want; i++) {
      string p = string(argv[1]) + std::to_string(i) + ".so";
      if (access(p.c_str(), R_OK)) {     // copies for high ranks are made when first needed
        string t = p + "." + std::to_string(getpid()); FILE *f = fopen((string(argv[1]) + "0.so").c_str(), "rb"), *g = fopen(t.c_str(), "wb");
        if (!f || !g) { fprintf(stderr, "worker: cannot copy %s\n", p.c_str()); _exit(3); }
        char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, k, g);
        fclose(f); if (fclose(g) || rename(t.c_str(), p.c_str())) { fprintf(stderr, "worker: cannot copy %s\n", p.c_str()); _exit(3); }
      }
      void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf(stderr, "worker: %s\n", dlerror()); _exit(3); }
      auto ga = (const vf_api *(*) (int)) dlsym(h, "vf_get_api"); Lib l; for (int a = 0; a < 3; a++) l.api[a] = ga(a); l.alloc = (void (*)(vf_alloc_stats *)) dlsym(h, "vf_alloc"); l.h = h; l.failalloc = (long (*)(long, int)) dlsym(h, "vf_failalloc");
      libs.push_back(l); SS = l.api[0]->scalar_size;
    }
  };
  load(8);
  int errfd = open("/dev/shm", O_TMPFILE | O_RDWR, 0600), outfd = -1;
  char tn[64] = "/tmp/vfwXXXXXX"; if (errfd < 0) { errfd = mkstemp(tn); unlink(tn); }
  char tn2[64] = "/tmp/vfwXXXXXX"; outfd = mkstemp(tn2); unlink(tn2);
  int mainout = dup(1); FILE *mo = fdopen(mainout, "w");
  while (read_case(std::cin)) {
    load(K.np); int pp[2]; if (pipe(pp)) return 3;
    if (ftruncate(errfd, 0) || ftruncate(outfd, 0)) return 3;
    lseek(errfd, 0, SEEK_SET); lseek(outfd, 0, SEEK_SET);
    fflush(mo); pid_t pid = fork();
    if (pid == 0) {
      close(pp[0]); dup2(outfd, 1); dup2(errfd, 2); outf = fdopen(pp[1], "w");
      struct itimerval it = {{0, 0}, {tlimit * (1 + K.np / 20), 0}}; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, NULL);
      if ((int) libs.size() < K.np) { fprintf(outf, "F badcase -1 -1 too many ranks\n"); fflush(outf); _exit(0); }
      run_case(outfd); fflush(outf);
      if (getenv("VF_COV")) for (auto &l : libs) if (auto f = (void (*)()) dlsym(l.h, "vf_cov")) f();   // coverage experiments only
      _exit(0);
    }
    close(pp[1]); string got; char b[65536]; ssize_t k; while ((k = read(pp[0], b, sizeof b)) > 0) got.append(b, k); close(pp[0]);
    int st = 0; struct rusage ru; wait4(pid, &st, 0, &ru); double cpu = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 1e-6 * (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec);
    fprintf(mo, "CASE %s\n%s", K.id.c_str(), got.c_str());
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      string e; long len = lseek(errfd, 0, SEEK_END); lseek(errfd, 0, SEEK_SET); if (len > 20000) len = 20000; e.resize(len); if (len) { ssize_t z = pread(errfd, &e[0], len, 0); (void) z; }
      string head, frames; std::istringstream is(e); string l; int nf = 0;
      while (std::getline(is, l)) { if (head.empty() && (l.find("ERROR: AddressSanitizer") != string::npos || l.find("runtime error") != string::npos || l.find("worker:") != string::npos)) head = l; else if (nf < 6 && l.find("    #") == 0) { frames += l.substr(l.find(" in ") == string::npos ? 0 : l.find(" in ")) + ";"; nf++; } }
      const char *kind = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? "timeout" : WIFEXITED(st) && WEXITSTATUS(st) == 9 ? "badcase" : !head.empty() ? "asan" : "crash";
      fprintf(mo, "F %s -1 -1 %s%s%s\n", kind, WIFSIGNALED(st) ? sf("signal %d ", WTERMSIG(st)).c_str() : sf("status %d ", WEXITSTATUS(st)).c_str(), head.c_str(), frames.c_str());
    }
    fprintf(mo, "S cpu=%.3f\nDONE\n", cpu); fflush(mo);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { fflush(NULL); _exit(77); }
  }
  fflush(mo); fflush(NULL); _exit(0);
}
