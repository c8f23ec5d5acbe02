// Runs one case file on the real library under the real MPI and checks every operation against a direct DFT / index oracle.
// usage: mpirun -n NP drv CASEFILE      (exit 0: all right, 1: a wrong result)
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "fft3d.h"
#include "fft2d.h"
#include "remap3d.h"
#include "remap2d.h"
using namespace FFTMPI_NS;
using std::vector; using std::string;
typedef std::complex<double> cd;
typedef FFT_SCALAR S;
struct Obj { int kind, comm, api, d[3], nqty, perm, mem; vector<vector<int>> in, out; void *p = 0; int fs = 0, ss = 0, rs = 0; int scaled = 1, ro = 0; vector<S> sb, rb, data; };
static vector<Obj> O; static vector<vector<int>> comms; static vector<MPI_Comm> mc; static int me, np, bad = 0;
static int nd(const Obj &o) { return o.kind % 2 ? 2 : 3; }
static long vol(const vector<int> &b, int n) { long v = 1; for (int i = 0; i < n; i++) v *= b[2 * i + 1] - b[2 * i] + 1; return v; }
static long at(const Obj &o, const vector<int> &b, int perm, int i, int j, int k)
{
  int n = nd(o); long x[3] = {i - b[0], j - b[2], n == 3 ? k - b[4] : 0}, s[3] = {b[1] - b[0] + 1, b[3] - b[2] + 1, n == 3 ? b[5] - b[4] + 1 : 1};
  if (n == 2) return perm ? x[0] * s[1] + x[1] : x[1] * s[0] + x[0];
  int f = perm % 3, m = (perm + 1) % 3, l = (perm + 2) % 3; return (x[l] * s[m] + x[m]) * s[f] + x[f];
}
template <class F> static void each(const Obj &o, const vector<int> &b, F f) { for (int k = nd(o) == 3 ? b[4] : 0; k <= (nd(o) == 3 ? b[5] : 0); k++) for (int j = b[2]; j <= b[3]; j++) for (int i = b[0]; i <= b[1]; i++) f(i, j, k); }
static double rnd(long g, long s) { unsigned long long x = (unsigned long long) g * 6364136223846793005ull + (unsigned long long) s * 1442695040888963407ull + 99; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return (double) (x & 0xfffff) / 524288.0 - 1.0; }
static void dft(vector<cd> &g, const int *d, int n, int sign)
{
  long st = 1; for (int a = 0; a < n; a++) {
    long N = d[a], tot = (long) g.size(); vector<cd> t(N);
    for (long b = 0; b < tot; b++) if ((b / st) % N == 0) { for (long q = 0; q < N; q++) { cd s = 0; for (long x = 0; x < N; x++) { double w = sign * 2 * M_PI * ((q * x) % N) / N; s += g[b + x * st] * cd(cos(w), sin(w)); } t[q] = s; } for (long q = 0; q < N; q++) g[b + q * st] = t[q]; }
    st *= N; }
}
enum { PAD = 256 };   // every array is followed by a pattern that must survive
static void fresh(vector<S> &v, long n) { v.assign((size_t) n + PAD, (S) 0); for (int i = 0; i < PAD; i++) v[n + i] = (S) (1000 + i); }
static bool torn(const vector<S> &v) { if (v.size() < PAD) return false; for (int i = 0; i < PAD; i++) if (v[v.size() - PAD + i] != (S) (1000 + i)) return true; return false; }
static int run(const string &file)
{
  std::ifstream f(file); string line; comms.push_back({}); for (int i = 0; i < np; i++) comms[0].push_back(i); mc.push_back(MPI_COMM_WORLD);
  while (std::getline(f, line)) {
    std::istringstream s(line); string w; if (!(s >> w)) continue;
    if (w == "COMM") { vector<int> v; int x; while (s >> x) v.push_back(x); comms.push_back(v); int k = -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == me) k = (int) i; MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, k >= 0 ? 1 : MPI_UNDEFINED, k, &c); mc.push_back(c); }
    if (w == "OBJ") { Obj o; s >> o.kind >> o.comm >> o.api >> o.d[0] >> o.d[1] >> o.d[2] >> o.nqty >> o.perm >> o.mem; o.in.resize(comms[o.comm].size()); o.out = o.in; O.push_back(o); }
    if (w == "BOX") { int o, r, x; s >> o >> r; O[o].in[r].clear(); O[o].out[r].clear(); for (int i = 0; i < 6; i++) { s >> x; O[o].in[r].push_back(x); } for (int i = 0; i < 6; i++) { s >> x; O[o].out[r].push_back(x); } }
    if (w != "OP") continue;
    string op; int oi; s >> op >> oi; if (op == "mark") continue; Obj &o = O[oi]; vector<string> a; string t; while (s >> t) a.push_back(t);
    int cr = -1; for (size_t i = 0; i < comms[o.comm].size(); i++) if (comms[o.comm][i] == me) cr = (int) i;
    if (cr < 0) continue;
    const vector<int> &in = o.in[cr], &out = o.out[cr]; int n = nd(o); MPI_Comm c = mc[o.comm]; int pr = sizeof(S) == 8 ? 2 : 1;
    FFT3d *f3 = (FFT3d *) o.p; FFT2d *f2 = (FFT2d *) o.p; Remap3d *r3 = (Remap3d *) o.p; Remap2d *r2 = (Remap2d *) o.p;
    if (op == "create") { if (o.kind == 0) o.p = new FFT3d(c, pr); if (o.kind == 1) o.p = new FFT2d(c, pr); if (o.kind == 2) o.p = new Remap3d(c); if (o.kind == 3) o.p = new Remap2d(c); }
    else if (op == "set") { int v = atoi(a[1].c_str()); const string &k = a[0];
#define SETF(f) { if (k == "collective") f->collective = v; if (k == "exchange") f->exchange = v; if (k == "pack") f->packflag = v; if (k == "memory") f->memoryflag = v; if (k == "scale") f->scaled = v; if (k == "remaponly") f->remaponly = v; }
      if (o.kind == 0) SETF(f3) if (o.kind == 1) SETF(f2)
      if (o.kind == 2) { if (k == "collective") r3->collective = v; if (k == "pack") r3->packflag = v; } if (o.kind == 3) { if (k == "collective") r2->collective = v; if (k == "pack") r2->packflag = v; }
      if (k == "scale") o.scaled = v; if (k == "remaponly") o.ro = v; }
    else if (op == "setup") {
      if (o.kind == 0) f3->setup(o.d[0], o.d[1], o.d[2], in[0], in[1], in[2], in[3], in[4], in[5], out[0], out[1], out[2], out[3], out[4], out[5], o.perm, o.fs, o.ss, o.rs);
      if (o.kind == 1) f2->setup(o.d[0], o.d[1], in[0], in[1], in[2], in[3], out[0], out[1], out[2], out[3], o.perm, o.fs, o.ss, o.rs);
      if (o.kind == 2) r3->setup(in[0], in[1], in[2], in[3], in[4], in[5], out[0], out[1], out[2], out[3], out[4], out[5], o.nqty, o.perm, o.mem, o.ss, o.rs);
      if (o.kind == 3) r2->setup(in[0], in[1], in[2], in[3], out[0], out[1], out[2], out[3], o.nqty, o.perm, o.mem, o.ss, o.rs);
      fresh(o.sb, o.ss); fresh(o.rb, o.rs); }
    else if (op == "tune") { int fl = atoi(a[0].c_str()), ni = atoi(a[1].c_str()), tf = atoi(a[3].c_str()); double tm = atof(a[2].c_str());
      if (o.kind == 0) f3->tune(o.d[0], o.d[1], o.d[2], in[0], in[1], in[2], in[3], in[4], in[5], out[0], out[1], out[2], out[3], out[4], out[5], o.perm, o.fs, o.ss, o.rs, fl, ni, tm, tf);
      else f2->tune(o.d[0], o.d[1], in[0], in[1], in[2], in[3], out[0], out[1], out[2], out[3], o.perm, o.fs, o.ss, o.rs, fl, ni, tm, tf);
      fresh(o.sb, o.ss); fresh(o.rb, o.rs); }
    else if (op == "setupmem") { if (o.kind == 0) f3->setup_memory(o.sb.data(), o.rb.data()); else f2->setup_memory(o.sb.data(), o.rb.data()); }
    else if (op == "destroy") { if (o.kind == 0) delete f3; if (o.kind == 1) delete f2; if (o.kind == 2) delete r3; if (o.kind == 3) delete r2; o.p = 0; }
    else if (op == "compute" || op == "remaps" || op == "steps" || op == "remap") {
      bool rm = op == "remap"; int dir = atoi(a[0].c_str()), place = atoi(a[1].c_str()), dk = atoi(a[2].c_str()); long seed = atol(a[3].c_str()); int q = rm ? o.nqty : 2;
      const vector<int> &src = dir == 1 ? in : out, &dst = dir == 1 ? out : in; int sp = dir == 1 ? 0 : o.perm, dp = dir == 1 ? o.perm : 0;
      long cap = rm ? std::max(vol(src, n), vol(dst, n)) * q : (long) o.fs * 2; vector<S> A, B; fresh(A, cap); fresh(B, cap);
      if (dk == -1) for (size_t i = 0; i + PAD < o.data.size() && i + PAD < A.size(); i++) A[i] = o.data[i];
      else each(o, src, [&](int i, int j, int k) { long g = ((long) k * 4099 + j) * 4099 + i; for (int z = 0; z < q; z++) A[at(o, src, sp, i, j, k) * q + z] = (S) rnd(g * q + z, seed); });
      long N = (long) o.d[0] * o.d[1] * (n == 3 ? o.d[2] : 1); vector<double> glob((size_t) N * q, 0.0);
      each(o, src, [&](int i, int j, int k) { for (int z = 0; z < q; z++) glob[(((long) k * o.d[1] + j) * o.d[0] + i) * q + z] = A[at(o, src, sp, i, j, k) * q + z]; });
      MPI_Allreduce(MPI_IN_PLACE, glob.data(), (int) glob.size(), MPI_DOUBLE, MPI_SUM, c);
      vector<S> *w = place ? &B : &A; S *x = A.data(), *y = w->data();
      if (rm) { if (o.kind == 2) r3->remap(x, y, o.sb.data(), o.rb.data()); else r2->remap(x, y, o.sb.data(), o.rb.data()); }
      else if (op == "compute") { if (o.kind == 0) f3->compute(x, y, dir); else f2->compute(x, y, dir); }
      else if (op == "remaps") { if (o.kind == 0) f3->only_remaps(x, y, dir); else f2->only_remaps(x, y, dir); }
      else { int m = n == 3 ? 4 : 3; for (int z = 0; z < m; z++) { int which = dir == 1 ? z + 1 : m - z; S *u = z == 0 ? x : y; if (o.kind == 0) f3->only_one_remap(u, y, dir, which); else f2->only_one_remap(u, y, dir, which); } }
      if (torn(A) || torn(B) || torn(o.sb) || torn(o.rb)) { bad = 1; printf("WRONG: %s: wrote past the end of an array on rank %d\n", line.c_str(), me); }
      double err = 0, nrm = 0;
      if (op == "compute" && !o.ro) {
        vector<cd> g(N); for (long i = 0; i < N; i++) g[i] = cd(glob[2 * i], glob[2 * i + 1]); dft(g, o.d, n, dir == 1 ? -1 : 1); double sc = dir == -1 && o.scaled ? 1.0 / N : 1.0;
        each(o, dst, [&](int i, int j, int k) { cd r = g[((long) k * o.d[1] + j) * o.d[0] + i] * sc; long t = at(o, dst, dp, i, j, k) * 2; err += std::norm(cd((*w)[t], (*w)[t + 1]) - r); nrm += std::norm(r); });
        double e2[2] = {err, nrm}; MPI_Allreduce(MPI_IN_PLACE, e2, 2, MPI_DOUBLE, MPI_SUM, c);
        if (!(sqrt(e2[0]) <= (getenv("TOL") ? atof(getenv("TOL")) : sizeof(S) == 8 ? 1e-12 : 1e-5) * sqrt(e2[1]))) { bad = 1; if (cr == 0) printf("WRONG: %s (relative error %g)\n", line.c_str(), sqrt(e2[0] / e2[1])); }
      } else {
        long miss = 0; each(o, dst, [&](int i, int j, int k) { for (int z = 0; z < q; z++) if ((*w)[at(o, dst, dp, i, j, k) * q + z] != (S) glob[(((long) k * o.d[1] + j) * o.d[0] + i) * q + z]) miss++; });
        if (miss) { bad = 1; printf("WRONG: %s: %ld values misplaced on rank %d\n", line.c_str(), miss, me); }
      }
      o.data = *w;
    }
  }
  MPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return bad;
}
int main(int argc, char **argv)
{
  MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
  int r = run(argv[1]); if (me == 0) printf(r ? "FAILED\n" : "all right\n"); fflush(stdout); MPI_Finalize(); return r;
}
