// In-process MPI simulator: ranks are fibers under one deterministic seeded scheduler.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>
#include <list>
#include <unordered_set>
#include <map>
#include <deque>
#include <memory>
#include <algorithm>
#include <math.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define VF_ASAN 1
#else
#define VF_ASAN 0
#endif

using std::vector; using std::string;

struct CommShared;
struct vf_comm_t { CommShared *sh; int owner; bool freed; int fint; bool user; };
struct vf_group_t { vector<int> r; int owner; bool freed; };
struct Message;
struct vf_req_t {
  int kind;                   // 0 recv, 1 send, 2 collective
  int owner; void *buf; long bytes; int peer, tag; CommShared *sh;
  bool matched, complete, persistent, active, delivered, freed;
  Message *msg; int st_src, st_tag; long st_bytes;
  std::function<bool()> poll; std::function<void()> fini;   // kind 2: nonblocking collective
};
struct Message {
  int src, dst, tag; long bytes; vector<char> data; const void *late; bool sync; bool matched;
  vf_req_t *sreq;
};
struct CollArg {
  bool in = false, left = false;
  const void *sbuf = 0; void *rbuf = 0; const int *scnt = 0, *sdis = 0, *rcnt = 0, *rdis = 0;
  long sc = 0, rc = 0; int st = 0, rt = 0; vector<char> snap; vector<char> res; int op = 0, root = 0;
  vector<int> group; int color = 0, key = 0; CommShared *newsh = 0; 
};
struct CollSlot { int kind = 0; int arrived = 0, left = 0; bool done = false; vector<CollArg> a; };
struct CommShared {
  int id; vector<int> members; vector<long> seq; std::map<long, CollSlot> slots;
  vector<std::list<Message *>> inbox; vector<std::list<vf_req_t *>> posted;
  int rank_of(int w) const { for (size_t i = 0; i < members.size(); i++) if (members[i] == w) return (int) i; return -1; }
};

struct vf_comm_t vf_comm_world_obj, vf_comm_self_obj;
struct vf_group_t vf_group_empty_obj;

namespace vf {
int cur = -1;
vector<long> mpi_calls, wtime_calls, ticks1d, p2p_bytes, coll_bytes;
vector<string> op_note;

static Config cfg;
static Result res;
static uint64_t rs, cs;
static vector<std::unique_ptr<CommShared>> shareds;
static vector<vector<vf_comm_t *>> handles;      // [id][world rank]
static vector<vf_comm_t *> fcomms;               // fortran handles
static CommShared *worldsh; static vector<CommShared *> selfsh;
static vector<int> nlivecomm, nlivegroup, nlivereq, nlivetype;
static vector<double> clk; static vector<uint64_t> ckr; static double gclk;
static vector<int> finalized;
static std::map<vector<int>, std::pair<CommShared *, int>> cgpend; static std::map<CommShared *, int> cgarr;
static vector<int> dtsize;
static std::unordered_set<const void *> handleset;      // all request, communicator and group handles given out
static vector<Message *> allmsgs; static vector<vf_req_t *> allreqs; static vector<vf_comm_t *> allcomms; static vector<vf_group_t *> allgroups;

static uint64_t nxt(uint64_t &s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int rnd(int n) { return n <= 1 ? 0 : (int) (nxt(rs) % (uint64_t) n); }

// ---------------------------------------------------------------- fibers
struct Fiber { ucontext_t ctx; void *stack; size_t size; int state; /*0 new/ready 1 blocked 2 done*/ std::function<bool()> *pred; void *fake; long prio; string what; };
static vector<Fiber> fib;
static ucontext_t mainctx; static void *mainfake; static const void *mainbottom; static size_t mainsize;
static std::function<void(int)> const *rmain;
static vector<void *> stackpool; static const size_t STK = 1 << 20;
static bool stopping;

static void to_main(bool dying)
{
  int me = cur; Fiber &f = fib[me]; (void) f;
#if VF_ASAN
  __sanitizer_start_switch_fiber(dying ? NULL : &f.fake, mainbottom, mainsize);
#endif
  swapcontext(&fib[me].ctx, &mainctx);
#if VF_ASAN
  __sanitizer_finish_switch_fiber(fib[me].fake, &mainbottom, &mainsize);
#endif
  (void) dying;
}
static void entry()
{
#if VF_ASAN
  __sanitizer_finish_switch_fiber(NULL, &mainbottom, &mainsize);
#endif
  int me = cur;
  (*rmain)(me);
  res.ranks[me].kind = 0;
  fib[me].state = 2;
  to_main(true);
  abort();
}
static void resume(int r)
{
  cur = r;
#if VF_ASAN
  __sanitizer_start_switch_fiber(&mainfake, fib[r].stack, fib[r].size);
#endif
  swapcontext(&mainctx, &fib[r].ctx);
#if VF_ASAN
  __sanitizer_finish_switch_fiber(mainfake, NULL, NULL);
#endif
  cur = -1;
}
void fail(int kind, const string &msg)
{
  if (res.fail == F_NONE) { res.fail = kind; res.msg = msg; res.failrank = cur; }
  stopping = true;
  fib[cur].state = 2;
  to_main(false);
  abort();
}
void rank_exit(int code)
{
  res.ranks[cur].kind = 1; res.ranks[cur].code = code;
  fib[cur].state = 2;
  to_main(false);
  abort();
}
static string fmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
#define MPIERR(...) fail(F_MPI, fmt(__VA_ARGS__))

void yield_point()
{
  if (cur < 0) return;
  bool sw;
  switch (cfg.policy) {
    case 0: sw = rnd(2); break;
    case 5: sw = true; break;
    case 4: sw = true; if (rnd(40) == 0) fib[cur].prio = -(long) (nxt(rs) % 1000000) - 1; break;
    default: sw = false;
  }
  if (sw) { fib[cur].state = 0; fib[cur].pred = NULL; to_main(false); }
}
static void block_until(std::function<bool()> p, const char *what)
{
  if (p()) return;
  fib[cur].state = 1; fib[cur].pred = &p; fib[cur].what = what;
  to_main(false);
  fib[cur].state = 0; fib[cur].pred = NULL;
}

// ---------------------------------------------------------------- set up
static CommShared *new_shared(const vector<int> &m)
{
  CommShared *s = new CommShared; s->id = (int) shareds.size(); s->members = m; s->seq.assign(m.size(), 0);
  s->inbox.resize(m.size()); s->posted.resize(m.size());
  shareds.emplace_back(s); return s;
}
static vf_comm_t *new_handle(CommShared *s, int owner, bool user)
{
  vf_comm_t *h = new vf_comm_t; h->sh = s; h->owner = owner; h->freed = false; h->user = user; h->fint = -1; allcomms.push_back(h); handleset.insert(h); return h;
}
void begin(const Config &c)
{
  for (auto *m : allmsgs) delete m;
  for (auto *q : allreqs) delete q;
  for (auto *q : allcomms) delete q;
  for (auto *q : allgroups) delete q;
  allmsgs.clear(); allreqs.clear(); allcomms.clear(); allgroups.clear(); handleset.clear();
  cgpend.clear(); cgarr.clear();
  cfg = c; res = Result(); rs = c.seed * 0x9E3779B97F4A7C15ull + 12345; cs = c.clockseed * 0xD1342543DE82EF95ull + 777;
  shareds.clear(); handles.clear(); fcomms.clear(); selfsh.clear();
  int np = c.np; vector<int> all(np); for (int i = 0; i < np; i++) all[i] = i;
  worldsh = new_shared(all);
  vf_comm_world_obj = vf_comm_t{worldsh, -1, false, 0, false};
  for (int i = 0; i < np; i++) selfsh.push_back(new_shared(vector<int>{i}));
  vf_comm_self_obj = vf_comm_t{NULL, -1, false, 1, false};
  vf_group_empty_obj.r.clear(); vf_group_empty_obj.owner = -1; vf_group_empty_obj.freed = false;
  fcomms.push_back(&vf_comm_world_obj); fcomms.push_back(&vf_comm_self_obj);
  handles.push_back(vector<vf_comm_t *>(np, &vf_comm_world_obj));
  nlivecomm.assign(np, 0); nlivegroup.assign(np, 0); nlivereq.assign(np, 0); nlivetype.assign(np, 0);
  clk.assign(np, 0.0); ckr.assign(np, 0); for (int i = 0; i < np; i++) ckr[i] = nxt(cs); gclk = 0; finalized.assign(np, 0);
  for (int i = 0; i < np; i++) clk[i] = (double) (nxt(cs) % 1000);
  if (c.clockmode == 0) for (int i = 0; i < np; i++) clk[i] = 0;
  mpi_calls.assign(np, 0); ticks1d.assign(np, 0); p2p_bytes.assign(np, 0); coll_bytes.assign(np, 0); wtime_calls.assign(np, 0); op_note.assign(np, "");
  dtsize.assign(VF_NPREDEF, 0);
  int sz[][2] = {{MPI_CHAR,1},{MPI_SIGNED_CHAR,1},{MPI_UNSIGNED_CHAR,1},{MPI_BYTE,1},{MPI_PACKED,1},{MPI_SHORT,2},{MPI_UNSIGNED_SHORT,2},{MPI_INT,4},{MPI_UNSIGNED,4},{MPI_LONG,8},{MPI_UNSIGNED_LONG,8},{MPI_LONG_LONG,8},{MPI_UNSIGNED_LONG_LONG,8},{MPI_FLOAT,4},{MPI_DOUBLE,8},{MPI_LONG_DOUBLE,16},{MPI_INT8_T,1},{MPI_INT16_T,2},{MPI_INT32_T,4},{MPI_INT64_T,8},{MPI_UINT8_T,1},{MPI_UINT16_T,2},{MPI_UINT32_T,4},{MPI_UINT64_T,8},{MPI_C_BOOL,1},{MPI_CXX_BOOL,1},{MPI_C_COMPLEX,8},{MPI_C_DOUBLE_COMPLEX,16},{MPI_AINT,8},{MPI_OFFSET,8},{MPI_COUNT,8},{MPI_2INT,8},{MPI_DOUBLE_INT,16},{MPI_FLOAT_INT,8},{MPI_LONG_INT,16}};
  for (auto &p : sz) dtsize[p[0]] = p[1];
}
int add_comm(const vector<int> &m)
{
  CommShared *s = new_shared(m);
  vector<vf_comm_t *> hs(cfg.np, (vf_comm_t *) NULL);
  for (int w : m) hs[w] = new_handle(s, w, false);
  handles.push_back(hs); return (int) handles.size() - 1;
}
MPI_Comm comm_handle(int id) { return handles[id][cur]; }
void reset_clock(uint64_t seed) { uint64_t z = seed * 1000003 + (uint64_t) cur; ckr[cur] = nxt(z); clk[cur] = 0; }
int live_comms(int r) { return nlivecomm[r]; }
int live_groups(int r) { return nlivegroup[r]; }
int live_requests(int r) { return nlivereq[r]; }

Result run(const std::function<void(int)> &f)
{
  int np = cfg.np; rmain = &f; stopping = false;
  while ((int) stackpool.size() < np) {
    void *p = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    stackpool.push_back(p);
  }
  fib.clear(); fib.resize(np); res.ranks.assign(np, RankOutcome());
  for (int i = 0; i < np; i++) {
    Fiber &b = fib[i]; b.stack = stackpool[i]; b.size = STK; b.state = 0; b.pred = NULL; b.fake = NULL; b.prio = (long) (nxt(rs) % 1000000);
#if VF_ASAN
    __asan_unpoison_memory_region(b.stack, b.size);
#endif
    getcontext(&b.ctx); b.ctx.uc_stack.ss_sp = b.stack; b.ctx.uc_stack.ss_size = b.size; b.ctx.uc_link = NULL;
    makecontext(&b.ctx, (void (*)()) entry, 0);
  }
  int last = -1; vector<int> run;
  while (!stopping) {
    run.clear(); int undone = 0;
    for (int i = 0; i < np; i++) {
      if (fib[i].state == 2) continue;
      undone++;
      if (fib[i].state == 0 || (*fib[i].pred)()) run.push_back(i);
    }
    if (!undone) break;
    if (run.empty()) {
      string m = "deadlock:";
      for (int i = 0; i < np; i++) {
        if (fib[i].state == 2) m += fmt(" [rank %d %s]", i, res.ranks[i].kind == 1 ? "exited" : "finished");
        else m += fmt(" [rank %d blocked in %s%s%s]", i, fib[i].what.c_str(), op_note[i].empty() ? "" : " during ", op_note[i].c_str());
      }
      res.fail = F_DEADLOCK; res.msg = m; break;
    }
    int pick = run[0];
    if (run.size() > 1) res.choices++;
    switch (cfg.policy) {
      case 0: case 3: pick = run[rnd((int) run.size())]; break;
      case 1: pick = run[0]; break;
      case 2: pick = run.back(); break;
      case 4: for (int r : run) if (fib[r].prio > fib[pick].prio) pick = r; break;
      case 5: { pick = run[0]; for (int r : run) if (r > last) { pick = r; break; } break; }
    }
    last = pick; gclk += 1e-6 * (double) (1 + nxt(cs) % 1000);
    resume(pick);
    if (++res.steps > cfg.maxsteps) { res.fail = F_STEPS; res.msg = "no progress: step limit reached"; break; }
  }
  if (res.fail == F_NONE)
    for (auto &s : shareds) for (size_t i = 0; i < s->members.size(); i++) {
      for (auto *m : s->inbox[i]) { (void) m; res.pending_msgs++; }
      for (auto *q : s->posted[i]) { (void) q; res.pending_recvs++; }
    }
  if (res.fail == F_NONE) for (auto *q : allreqs) if (q->kind == 1 && !q->freed && q->active && !q->complete) res.pending_sends++;
  res.live_comms = nlivecomm; res.live_groups = nlivegroup; res.live_types = nlivetype;
  return res;
}

// ---------------------------------------------------------------- helpers
static CommShared *C(MPI_Comm c, const char *fn)
{
  if (cur < 0) { fprintf(stderr, "MPI call outside simulation: %s\n", fn); abort(); }
  if (finalized[cur]) MPIERR("%s called after MPI_Finalize", fn);
  if (c == MPI_COMM_NULL) MPIERR("%s called with MPI_COMM_NULL", fn);
  if (c == &vf_comm_world_obj) return worldsh;
  if (c == &vf_comm_self_obj) return selfsh[cur];
  bool known = handleset.count(c);
  if (!known) MPIERR("%s called with an invalid communicator handle", fn);
  if (c->freed) MPIERR("%s called with a freed communicator", fn);
  if (c->owner != cur) MPIERR("%s called with a communicator handle of another process", fn);
  return c->sh;
}
static long nb(long count, MPI_Datatype t, const char *fn)
{
  if (count < 0) MPIERR("%s: negative count %ld", fn, count);
  if (t <= 0 || t >= (int) dtsize.size() || !dtsize[t]) MPIERR("%s: invalid datatype", fn);
  return count * dtsize[t];
}
static void rankok(CommShared *s, int r, const char *fn) { if (r < 0 || r >= (int) s->members.size()) MPIERR("%s: invalid rank %d in a communicator of size %d", fn, r, (int) s->members.size()); }
static void callpt() { mpi_calls[cur]++; yield_point(); }

static void deliver(vf_req_t *q)
{
  if (q->delivered) return;
  Message *m = q->msg; const void *src = m->late ? m->late : m->data.data();
  if (m->bytes) memcpy(q->buf, src, m->bytes);
  q->delivered = true;
  m->late = NULL; vector<char>().swap(m->data);
  if (m->sreq) m->sreq->complete = true;
}
static void match(vf_req_t *q, Message *m)
{
  if (m->bytes > q->bytes) MPIERR("message truncated: %ld bytes sent by rank %d (tag %d), receive posted for %ld bytes", m->bytes, m->src, m->tag, q->bytes);
  q->matched = true; q->msg = m; m->matched = true; q->st_src = m->src; q->st_tag = m->tag; q->st_bytes = m->bytes;
  bool early = cfg.deliver == 0 || (cfg.deliver == 2 && rnd(2));
  if (early) deliver(q);
}
static bool fits(vf_req_t *q, Message *m) { return (q->peer == MPI_ANY_SOURCE || q->peer == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag); }
static Message *post_send(CommShared *s, const void *buf, long bytes, int dst, int tag, bool late, bool sync, vf_req_t *sreq)
{
  int me = s->rank_of(cur);
  Message *m = new Message; allmsgs.push_back(m);
  m->src = me; m->dst = dst; m->tag = tag; m->bytes = bytes; m->late = NULL; m->sync = sync; m->matched = false; m->sreq = sreq;
  if (late) m->late = buf; else if (bytes) m->data.assign((const char *) buf, (const char *) buf + bytes);
  res.msgs++; if (dst != me) p2p_bytes[cur] += bytes;
  auto &pl = s->posted[dst];
  for (auto it = pl.begin(); it != pl.end(); ++it) if (fits(*it, m)) { vf_req_t *q = *it; pl.erase(it); match(q, m); return m; }
  s->inbox[dst].push_back(m);
  return m;
}
static void post_recv(CommShared *s, vf_req_t *q)
{
  int me = s->rank_of(cur); auto &ib = s->inbox[me];
  vector<std::list<Message *>::iterator> cand; vector<int> seen;
  for (auto it = ib.begin(); it != ib.end(); ++it) if (fits(q, *it)) {
    if (std::find(seen.begin(), seen.end(), (*it)->src) != seen.end()) continue;
    seen.push_back((*it)->src); cand.push_back(it);
  }
  if (!cand.empty()) { auto it = cand[rnd((int) cand.size())]; Message *m = *it; ib.erase(it); match(q, m); return; }
  s->posted[me].push_back(q);
}
static bool is_sync(long bytes)
{
  if (cfg.sendmode == 1) return true;
  if (cfg.sendmode == 2) return rnd(2);
  if (cfg.sendmode == 3) return bytes > cfg.eager_limit;
  return false;
}
static vf_req_t *new_req(int kind, void *buf, long bytes, int peer, int tag, CommShared *s, bool pers)
{
  vf_req_t *q = new vf_req_t; allreqs.push_back(q); handleset.insert(q);
  q->kind = kind; q->owner = cur; q->buf = buf; q->bytes = bytes; q->peer = peer; q->tag = tag; q->sh = s;
  q->matched = q->complete = q->delivered = q->freed = false; q->persistent = pers; q->active = !pers; q->msg = NULL; q->st_src = q->st_tag = -1; q->st_bytes = 0;
  nlivereq[cur]++; return q;
}
static void activate(vf_req_t *q, bool forcesync)
{
  q->active = true; q->matched = q->complete = q->delivered = false; q->msg = NULL;
  if (q->peer == MPI_PROC_NULL) { q->matched = q->complete = q->delivered = true; q->st_src = MPI_PROC_NULL; q->st_tag = MPI_ANY_TAG; q->st_bytes = 0; return; }
  if (q->kind == 0) post_recv(q->sh, q);
  else {
    bool sync = forcesync || is_sync(q->bytes);
    if (!sync) { post_send(q->sh, q->buf, q->bytes, q->peer, q->tag, false, false, NULL); q->complete = true; }
    else q->msg = post_send(q->sh, q->buf, q->bytes, q->peer, q->tag, true, true, q);
  }
}
static bool ready(vf_req_t *q)
{
  if (!q->active) return true;
  if (q->kind == 0) return q->matched;
  return q->complete || (q->msg == NULL && q->complete);
}
// a synchronous Isend completes once matched (the data is taken then)
static bool progress_send(vf_req_t *q)
{
  if (q->complete) return true;
  if (Message *m = q->msg) if (m->matched) {
    if (m->late) { m->data.assign((const char *) m->late, (const char *) m->late + m->bytes); m->late = NULL; }
    q->complete = true; return true;
  }
  return false;
}
static bool rdy(vf_req_t *q) { if (!q) return false; if (q->kind == 2) return !q->active || q->poll(); if (q->kind == 1 && q->active && !q->complete) return progress_send(q); return ready(q); }
static void chk(MPI_Request q, const char *fn)
{
  bool known = handleset.count(q);
  if (!known || q->freed) MPIERR("%s: invalid or already completed request", fn);
  if (q->owner != cur) MPIERR("%s: request of another process", fn);
}
static void finish(MPI_Request *rq, MPI_Status *st)
{
  vf_req_t *q = *rq;
  if (q->kind == 2 && q->active) { q->fini(); q->active = false; }
  if (q->active && q->kind == 0 && q->peer != MPI_PROC_NULL) deliver(q);
  if (st) { st->MPI_SOURCE = q->st_src; st->MPI_TAG = q->st_tag; st->MPI_ERROR = 0; st->vf_bytes = q->st_bytes; }
  if (q->persistent) q->active = false;
  else { q->freed = true; nlivereq[cur]--; *rq = MPI_REQUEST_NULL; }
}
static void empty_status(MPI_Status *st) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->vf_bytes = 0; } }

// ---------------------------------------------------------------- collectives
enum { K_BARRIER = 1, K_BCAST, K_REDUCE, K_ALLREDUCE, K_SCAN, K_EXSCAN, K_GATHER, K_SCATTER, K_ALLGATHER, K_ALLTOALL, K_CREATE, K_SPLIT, K_DUP, K_IBARRIER, K_IBCAST, K_IALLREDUCE, K_IALLGATHER, K_IALLTOALL };
static const char *kname[] = {"", "MPI_Barrier", "MPI_Bcast", "MPI_Reduce", "MPI_Allreduce", "MPI_Scan", "MPI_Exscan", "MPI_Gather", "MPI_Scatter", "MPI_Allgather", "MPI_Alltoall(v)", "MPI_Comm_create", "MPI_Comm_split", "MPI_Comm_dup", "MPI_Ibarrier", "MPI_Ibcast", "MPI_Iallreduce", "MPI_Iallgather", "MPI_Ialltoall(v)"};

template <class T> static void red1(int op, T *a, const T *b, long n)
{
  for (long i = 0; i < n; i++) switch (op) {
    case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
    case MPI_SUM: a[i] = (T) (a[i] + b[i]); break;
    case MPI_PROD: a[i] = (T) (a[i] * b[i]); break;
    case MPI_LAND: a[i] = (T) (a[i] && b[i]); break;
    case MPI_LOR: a[i] = (T) (a[i] || b[i]); break;
    case MPI_LXOR: a[i] = (T) (!a[i] != !b[i]); break;
    default: MPIERR("reduction operation not valid for this datatype");
  }
}
template <class T> static void redi(int op, T *a, const T *b, long n)
{
  for (long i = 0; i < n; i++) switch (op) {
    case MPI_BAND: a[i] &= b[i]; break;
    case MPI_BOR: a[i] |= b[i]; break;
    case MPI_BXOR: a[i] ^= b[i]; break;
    default: red1(op, a + i, b + i, 1);
  }
}
template <class T> struct VI { T v; int i; };
template <class T> static void redloc(int op, VI<T> *a, const VI<T> *b, long n)
{
  for (long i = 0; i < n; i++) {
    bool take;
    if (op == MPI_MAXLOC) take = b[i].v > a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i);
    else if (op == MPI_MINLOC) take = b[i].v < a[i].v || (b[i].v == a[i].v && b[i].i < a[i].i);
    else { MPIERR("reduction operation not valid for a pair type"); }
    if (take) a[i] = b[i];
  }
}
static void reduce_into(int op, int t, vector<char> &acc, const vector<char> &x)
{
  void *a = acc.data(); const void *b = x.data(); long n = (long) acc.size() / dtsize[t];
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi(op, (signed char *) a, (const signed char *) b, n); break;
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: redi(op, (unsigned char *) a, (const unsigned char *) b, n); break;
    case MPI_SHORT: case MPI_INT16_T: redi(op, (short *) a, (const short *) b, n); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: redi(op, (unsigned short *) a, (const unsigned short *) b, n); break;
    case MPI_INT: case MPI_INT32_T: redi(op, (int *) a, (const int *) b, n); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: redi(op, (unsigned *) a, (const unsigned *) b, n); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: redi(op, (long *) a, (const long *) b, n); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi(op, (unsigned long *) a, (const unsigned long *) b, n); break;
    case MPI_FLOAT: red1(op, (float *) a, (const float *) b, n); break;
    case MPI_DOUBLE: red1(op, (double *) a, (const double *) b, n); break;
    case MPI_LONG_DOUBLE: red1(op, (long double *) a, (const long double *) b, n); break;
    case MPI_2INT: redloc(op, (VI<int> *) a, (const VI<int> *) b, n); break;
    case MPI_DOUBLE_INT: redloc(op, (VI<double> *) a, (const VI<double> *) b, n); break;
    case MPI_FLOAT_INT: redloc(op, (VI<float> *) a, (const VI<float> *) b, n); break;
    case MPI_LONG_INT: redloc(op, (VI<long> *) a, (const VI<long> *) b, n); break;
    default: MPIERR("reduction on unsupported datatype");
  }
}

struct Coll { CommShared *s; CollSlot *slot; CollArg *a; int me; long id; };
static Coll enter(CommShared *s, int kind)
{
  callpt();
  int me = s->rank_of(cur); long id = s->seq[me]++;
  CollSlot &sl = s->slots[id];
  if (sl.a.empty()) { sl.a.resize(s->members.size()); sl.kind = kind; }
  if (sl.kind != kind) MPIERR("collective mismatch on one communicator: this process calls %s while another calls %s", kname[kind], kname[sl.kind]);
  sl.a[me].in = true; res.colls++;
  return Coll{s, &sl, &sl.a[me], me, id};
}
static void arrive(Coll &c) { c.slot->arrived++; }
static void wait_all(Coll &c) { CollSlot *sl = c.slot; size_t n = c.s->members.size(); block_until([sl, n] { return sl->arrived == (int) n; }, kname[sl->kind]); }
static void leave(Coll &c) { if (++c.slot->left == (int) c.s->members.size()) c.s->slots.erase(c.id); }
// the second half of a collective: wait for everybody now, or hand that to a request
static int settle(Coll k, const std::function<void()> &fin, MPI_Request *r)
{
  if (!r) { wait_all(k); fin(); leave(k); return 0; }
  CollSlot *sl = k.slot; int n = (int) k.s->members.size();
  vf_req_t *q = new_req(2, NULL, 0, 0, 0, k.s, false);
  q->poll = [sl, n] { return sl->arrived == n; }; q->fini = [k, fin] { Coll c = k; fin(); leave(c); };
  *r = q; return 0;
}
static bool rsync() { return cfg.rootsync == 1 || (cfg.rootsync == 2 && rnd(2)); }
static void snap(CollArg *a, const void *b, long n) { if (n) a->snap.assign((const char *) b, (const char *) b + n); else a->snap.clear(); }
static void put(void *d, const vector<char> &v) { if (!v.empty()) memcpy(d, v.data(), v.size()); }
} // namespace vf
using namespace vf;

extern "C" {
// ---------------------------------------------------------------- environment
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = cur >= 0 ? finalized[cur] : 0; return 0; }
int MPI_Finalize(void) { if (finalized[cur]) MPIERR("MPI_Finalize called twice"); finalized[cur] = 1; return 0; }
int MPI_Abort(MPI_Comm, int code) { fail(F_ABORT, fmt("MPI_Abort(%d)", code)); }
double MPI_Wtime(void)
{
  int r = cur; wtime_calls[r]++; double &t = clk[r]; double u = (double) (nxt(ckr[r]) >> 11) / 9007199254740992.0;
  switch (cfg.clockmode) {
    case 0: t += 1.0 / 1024; return t;
    case 1: t += 1e-6 * exp(u * 9.2); return t;
    case 2: t += 0.004 * u; return floor(t * 100) / 100;
    case 3: return 0.0;
    case 4: return gclk + clk[r];
    case 5: t += (1 + r) * 1e-4 * (1 + u); return t;
    case 6: t += (u < 0.5) ? 1e-5 : 1.0; return t;
    case 7: t += 1e-12; return t;
    case 9: return (double) mpi_calls[r] / 1024;       // time = communication calls made
    case 10: return (double) ticks1d[r] / 1024;        // time = 1d transforms made
    default: t += 1e3 * u; return t;
  }
}
void vf_tick1d(long n) { if (cur >= 0) ticks1d[cur] += n; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SINGLE; return 0; }
void __wrap_exit(int code) { if (cur < 0) { fflush(NULL); _exit(code); } fflush(stdout); rank_exit(code); }
void __wrap__exit(int code) { if (cur < 0) _exit(code); rank_exit(code); }

// ---------------------------------------------------------------- communicators, groups
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = C(c, "MPI_Comm_rank")->rank_of(cur); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = (int) C(c, "MPI_Comm_size")->members.size(); return 0; }
static void give(Coll &c, MPI_Comm *out)
{
  CommShared *ns = c.a->newsh;
  if (!ns) *out = MPI_COMM_NULL; else { *out = new_handle(ns, cur, true); nlivecomm[cur]++; }
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out)
{
  CommShared *s = C(c, "MPI_Comm_dup"); Coll k = enter(s, K_DUP); arrive(k); wait_all(k);
  if (!k.slot->done) { k.slot->done = true; CommShared *n = new_shared(s->members); for (auto &a : k.slot->a) a.newsh = n; }
  give(k, out); leave(k); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out)
{
  CommShared *s = C(c, "MPI_Comm_split"); Coll k = enter(s, K_SPLIT); k.a->color = color; k.a->key = key; arrive(k); wait_all(k);
  if (!k.slot->done) {
    k.slot->done = true; size_t n = s->members.size();
    for (size_t i = 0; i < n; i++) {
      auto &a = k.slot->a[i]; if (a.color == MPI_UNDEFINED || a.newsh) continue;
      vector<std::pair<int, int>> v; for (size_t j = 0; j < n; j++) if (k.slot->a[j].color == a.color) v.push_back({k.slot->a[j].key, (int) j});
      std::stable_sort(v.begin(), v.end()); vector<int> m; for (auto &p : v) m.push_back(s->members[p.second]);
      CommShared *ns = new_shared(m); int col = a.color; for (auto &p : v) k.slot->a[p.second].newsh = ns; (void) col;
    }
  }
  give(k, out); leave(k); return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info, MPI_Comm *out) { return MPI_Comm_split(c, t == MPI_UNDEFINED ? MPI_UNDEFINED : 0, key, out); }
static vf_group_t *G(MPI_Group g, const char *fn)
{
  if (g == MPI_GROUP_NULL) MPIERR("%s called with MPI_GROUP_NULL", fn);
  if (g == MPI_GROUP_EMPTY) return g;
  bool known = handleset.count(g);
  if (!known || g->freed) MPIERR("%s called with an invalid or freed group", fn);
  if (g->owner != cur) MPIERR("%s called with a group of another process", fn);
  return g;
}
static MPI_Group newgroup(const vector<int> &r)
{
  if (r.empty()) return MPI_GROUP_EMPTY;
  vf_group_t *g = new vf_group_t; g->r = r; g->owner = cur; g->freed = false; allgroups.push_back(g); handleset.insert(g); nlivegroup[cur]++; return g;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out)
{
  CommShared *s = C(c, "MPI_Comm_create"); G(g, "MPI_Comm_create");
  for (int w : g->r) if (s->rank_of(w) < 0) MPIERR("MPI_Comm_create: group is not a subset of the communicator's group");
  Coll k = enter(s, K_CREATE); k.a->group = g->r; arrive(k); wait_all(k);
  if (!k.slot->done) {
    k.slot->done = true; size_t n = s->members.size();
    for (size_t i = 0; i < n; i++) {
      auto &a = k.slot->a[i]; int w = s->members[i];
      if (a.newsh || std::find(a.group.begin(), a.group.end(), w) == a.group.end()) continue;
      for (int x : a.group) if (k.slot->a[s->rank_of(x)].group != a.group) MPIERR("MPI_Comm_create: members of one group pass different groups (ranks %d and %d)", w, x);
      CommShared *ns = new_shared(a.group); vector<int> gr = a.group;
      for (int x : gr) k.slot->a[s->rank_of(x)].newsh = ns;
    }
  }
  give(k, out); leave(k); return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *out)
{
  CommShared *s = C(c, "MPI_Comm_create_group"); G(g, "MPI_Comm_create_group"); callpt();
  if (std::find(g->r.begin(), g->r.end(), cur) == g->r.end()) { *out = MPI_COMM_NULL; return 0; }
  vector<int> key = g->r; key.push_back(tag); key.push_back(s->id);
  auto &p = cgpend[key];
  if (!p.first) { p.first = new_shared(g->r); p.second = 0; cgarr[p.first] = 0; }
  CommShared *ns = p.first; int n = (int) g->r.size();
  if (++p.second == n) cgpend.erase(key);
  cgarr[ns]++;
  block_until([ns, n] { return cgarr[ns] >= n; }, "MPI_Comm_create_group");
  *out = new_handle(ns, cur, true); nlivecomm[cur]++; return 0;
}
int MPI_Comm_free(MPI_Comm *c)
{
  if (!c) MPIERR("MPI_Comm_free: null argument");
  if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) MPIERR("MPI_Comm_free of a predefined communicator");
  C(*c, "MPI_Comm_free"); callpt();
  if (!(*c)->user) MPIERR("MPI_Comm_free of a communicator owned by the caller of the library");
  (*c)->freed = true; nlivecomm[cur]--; *c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = newgroup(C(c, "MPI_Comm_group")->members); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r)
{
  CommShared *x = C(a, "MPI_Comm_compare"), *y = C(b, "MPI_Comm_compare");
  if (x == y) *r = MPI_IDENT; else if (x->members == y->members) *r = MPI_CONGRUENT;
  else { auto p = x->members, q = y->members; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; }
  return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f)
{
  f -= 70; if (f < 0 || f >= (int) fcomms.size()) MPIERR("MPI_Comm_f2c: invalid Fortran communicator");
  return fcomms[f];
}
MPI_Fint MPI_Comm_c2f(MPI_Comm c)
{
  for (size_t i = 0; i < fcomms.size(); i++) if (fcomms[i] == c) return (int) i + 70;
  fcomms.push_back(c); return (int) fcomms.size() - 1 + 70;
}
int MPI_Group_size(MPI_Group g, int *n) { *n = (int) G(g, "MPI_Group_size")->r.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { G(g, "MPI_Group_rank"); *r = MPI_UNDEFINED; for (size_t i = 0; i < g->r.size(); i++) if (g->r[i] == cur) *r = (int) i; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *rk, MPI_Group *o)
{
  G(g, "MPI_Group_incl"); vector<int> v; if (n < 0) MPIERR("MPI_Group_incl: negative count");
  for (int i = 0; i < n; i++) {
    if (rk[i] < 0 || rk[i] >= (int) g->r.size()) MPIERR("MPI_Group_incl: invalid rank %d", rk[i]);
    int w = g->r[rk[i]]; if (std::find(v.begin(), v.end(), w) != v.end()) MPIERR("MPI_Group_incl: duplicate rank %d", rk[i]);
    v.push_back(w);
  }
  *o = newgroup(v); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *rk, MPI_Group *o)
{
  G(g, "MPI_Group_excl"); vector<int> v;
  for (size_t i = 0; i < g->r.size(); i++) { bool ex = false; for (int j = 0; j < n; j++) if (rk[j] == (int) i) ex = true; if (!ex) v.push_back(g->r[i]); }
  *o = newgroup(v); return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) { G(a, "MPI_Group_union"); G(b, "MPI_Group_union"); vector<int> v = a->r; for (int x : b->r) if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); *o = newgroup(v); return 0; }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) { G(a, "MPI_Group_intersection"); G(b, "MPI_Group_intersection"); vector<int> v; for (int x : a->r) if (std::find(b->r.begin(), b->r.end(), x) != b->r.end()) v.push_back(x); *o = newgroup(v); return 0; }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) { G(a, "MPI_Group_difference"); G(b, "MPI_Group_difference"); vector<int> v; for (int x : a->r) if (std::find(b->r.begin(), b->r.end(), x) == b->r.end()) v.push_back(x); *o = newgroup(v); return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
  G(a, "MPI_Group_translate_ranks"); G(b, "MPI_Group_translate_ranks");
  for (int i = 0; i < n; i++) { if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; } if (ra[i] < 0 || ra[i] >= (int) a->r.size()) MPIERR("MPI_Group_translate_ranks: invalid rank"); rb[i] = MPI_UNDEFINED; for (size_t j = 0; j < b->r.size(); j++) if (b->r[j] == a->r[ra[i]]) rb[i] = (int) j; }
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) { G(a, "MPI_Group_compare"); G(b, "MPI_Group_compare"); if (a->r == b->r) *r = MPI_IDENT; else { auto p = a->r, q = b->r; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; } return 0; }
int MPI_Group_free(MPI_Group *g)
{
  if (*g == MPI_GROUP_EMPTY) { *g = MPI_GROUP_NULL; return 0; }
  G(*g, "MPI_Group_free"); (*g)->freed = true; nlivegroup[cur]--; *g = MPI_GROUP_NULL; return 0;
}

// ---------------------------------------------------------------- point to point
static int do_send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, bool force, const char *fn)
{
  CommShared *s = C(c, fn); long bytes = nb(n, t, fn); callpt();
  if (tag < 0) MPIERR("%s: invalid tag %d", fn, tag);
  if (d == MPI_PROC_NULL) return 0;
  rankok(s, d, fn); bool sync = force || is_sync(bytes);
  Message *m = post_send(s, b, bytes, d, tag, false, sync, NULL);
  if (sync && !m->matched) { res.syncblocks++; block_until([m] { return m->matched; }, fn); }
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, false, "MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, n, t, d, tag, c, true, "MPI_Ssend"); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  CommShared *s = C(c, "MPI_Bsend"); long bytes = nb(n, t, "MPI_Bsend"); callpt(); if (d == MPI_PROC_NULL) return 0; rankok(s, d, "MPI_Bsend");
  post_send(s, b, bytes, d, tag, false, false, NULL); return 0;
}
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  CommShared *s = C(c, "MPI_Rsend"); long bytes = nb(n, t, "MPI_Rsend"); callpt(); if (d == MPI_PROC_NULL) return 0; rankok(s, d, "MPI_Rsend");
  Message *m = post_send(s, b, bytes, d, tag, false, false, NULL);
  if (!m->matched) MPIERR("MPI_Rsend: no matching receive is posted on rank %d", d);
  return 0;
}
static int do_isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r, bool force, bool pers, const char *fn)
{
  CommShared *s = C(c, fn); long bytes = nb(n, t, fn); callpt(); if (d != MPI_PROC_NULL) rankok(s, d, fn);
  vf_req_t *q = new_req(1, (void *) b, bytes, d, tag, s, pers); if (!pers) activate(q, force); *r = q; return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, false, false, "MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, true, false, "MPI_Issend"); }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, false, false, "MPI_Irsend"); }
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return do_isend(b, n, t, d, tag, c, r, false, true, "MPI_Send_init"); }
static int do_irecv(void *b, int n, MPI_Datatype t, int s_, int tag, MPI_Comm c, MPI_Request *r, bool pers, const char *fn)
{
  CommShared *s = C(c, fn); long bytes = nb(n, t, fn); callpt(); if (s_ != MPI_ANY_SOURCE && s_ != MPI_PROC_NULL) rankok(s, s_, fn);
  vf_req_t *q = new_req(0, b, bytes, s_, tag, s, pers); if (!pers) activate(q, false); *r = q; return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { return do_irecv(b, n, t, s, tag, c, r, false, "MPI_Irecv"); }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { return do_irecv(b, n, t, s, tag, c, r, true, "MPI_Recv_init"); }
int MPI_Start(MPI_Request *r) { chk(*r, "MPI_Start"); if (!(*r)->persistent || (*r)->active) MPIERR("MPI_Start on an active or non-persistent request"); activate(*r, false); return 0; }
int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(&r[i]); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
  callpt(); if (*r == MPI_REQUEST_NULL) { empty_status(st); return 0; }
  chk(*r, "MPI_Wait"); vf_req_t *q = *r; block_until([q] { return rdy(q); }, "MPI_Wait"); finish(r, st); return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{
  MPI_Request r; do_irecv(b, n, t, s, tag, c, &r, false, "MPI_Recv"); vf_req_t *q = r; block_until([q] { return rdy(q); }, "MPI_Recv"); finish(&r, st); return 0;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st)
{
  callpt(); int act = 0; for (int i = 0; i < n; i++) if (r[i]) { chk(r[i], "MPI_Waitany"); if (r[i]->active) act++; }
  if (!act) { *idx = MPI_UNDEFINED; empty_status(st); return 0; }
  block_until([n, r] { for (int i = 0; i < n; i++) if (r[i] && r[i]->active && rdy(r[i])) return true; return false; }, "MPI_Waitany");
  vector<int> c; for (int i = 0; i < n; i++) if (r[i] && r[i]->active && rdy(r[i])) c.push_back(i);
  int k = c[rnd((int) c.size())]; if (k != c[0]) res.reorder++;
  *idx = k; finish(&r[k], st); return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st)
{
  callpt(); for (int i = 0; i < n; i++) if (r[i]) chk(r[i], "MPI_Waitall");
  block_until([n, r] { for (int i = 0; i < n; i++) if (r[i] && !rdy(r[i])) return false; return true; }, "MPI_Waitall");
  for (int i = 0; i < n; i++) { if (r[i]) finish(&r[i], st ? &st[i] : NULL); else empty_status(st ? &st[i] : NULL); }
  return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st)
{
  callpt(); int act = 0; for (int i = 0; i < n; i++) if (r[i]) { chk(r[i], "MPI_Waitsome"); if (r[i]->active) act++; }
  if (!act) { *cnt = MPI_UNDEFINED; return 0; }
  block_until([n, r] { for (int i = 0; i < n; i++) if (r[i] && r[i]->active && rdy(r[i])) return true; return false; }, "MPI_Waitsome");
  vector<int> c; for (int i = 0; i < n; i++) if (r[i] && r[i]->active && rdy(r[i])) c.push_back(i);
  for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[rnd((int) i)]);
  size_t keep = 1 + rnd((int) c.size()); *cnt = (int) keep;
  for (size_t i = 0; i < keep; i++) { idx[i] = c[i]; finish(&r[c[i]], st ? &st[i] : NULL); }
  return 0;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st)
{
  callpt(); if (*r == MPI_REQUEST_NULL) { *f = 1; empty_status(st); return 0; }
  chk(*r, "MPI_Test"); *f = 0; fib[cur].state = 0; fib[cur].pred = NULL; if (!rdy(*r)) { to_main(false); }
  if (rdy(*r) && rnd(4)) { *f = 1; finish(r, st); } return 0;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *f, MPI_Status *st)
{
  callpt(); vector<int> c; int act = 0; for (int i = 0; i < n; i++) if (r[i]) { chk(r[i], "MPI_Testany"); if (r[i]->active) { act++; if (rdy(r[i])) c.push_back(i); } }
  if (!act) { *f = 1; *idx = MPI_UNDEFINED; empty_status(st); return 0; }
  if (c.empty() || rnd(4) == 0) { *f = 0; *idx = MPI_UNDEFINED; fib[cur].state = 0; fib[cur].pred = NULL; to_main(false); return 0; }
  *f = 1; *idx = c[rnd((int) c.size())]; finish(&r[*idx], st); return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st)
{
  callpt(); *f = 1; for (int i = 0; i < n; i++) if (r[i]) { chk(r[i], "MPI_Testall"); if (!rdy(r[i])) *f = 0; }
  if (!*f) { fib[cur].state = 0; fib[cur].pred = NULL; to_main(false); return 0; }
  for (int i = 0; i < n; i++) if (r[i]) finish(&r[i], st ? &st[i] : NULL);
  return 0;
}
int MPI_Testsome(int n, MPI_Request *r, int *cnt, int *idx, MPI_Status *st)
{
  callpt(); vector<int> c; int act = 0; for (int i = 0; i < n; i++) if (r[i]) { chk(r[i], "MPI_Testsome"); if (r[i]->active) { act++; if (rdy(r[i])) c.push_back(i); } }
  if (!act) { *cnt = MPI_UNDEFINED; return 0; }
  *cnt = (int) c.size(); if (c.empty()) { fib[cur].state = 0; fib[cur].pred = NULL; to_main(false); return 0; }
  for (size_t i = 0; i < c.size(); i++) { idx[i] = c[i]; finish(&r[c[i]], st ? &st[i] : NULL); }
  return 0;
}
int MPI_Cancel(MPI_Request *r)
{
  chk(*r, "MPI_Cancel"); vf_req_t *q = *r;
  if (q->kind == 0 && !q->matched) { auto &pl = q->sh->posted[q->sh->rank_of(cur)]; pl.remove(q); q->matched = q->delivered = true; q->peer = MPI_PROC_NULL; }
  return 0;
}
int MPI_Request_free(MPI_Request *r) { chk(*r, "MPI_Request_free"); (*r)->freed = true; nlivereq[cur]--; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stt)
{
  MPI_Request q[2]; do_irecv(rb, rn, rt, s, rtag, c, &q[0], false, "MPI_Sendrecv"); do_isend(sb, sn, st, d, stag, c, &q[1], false, false, "MPI_Sendrecv");
  MPI_Status ss[2]; MPI_Waitall(2, q, ss); if (stt) *stt = ss[0]; return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *stt)
{
  long bytes = nb(n, t, "MPI_Sendrecv_replace"); vector<char> tmp((char *) b, (char *) b + bytes);
  return MPI_Sendrecv(tmp.data(), n, t, d, stag, b, n, t, s, rtag, c, stt);
}
static Message *find_probe(CommShared *s, int src, int tag)
{
  vf_req_t q; q.peer = src; q.tag = tag; for (auto *m : s->inbox[s->rank_of(cur)]) if (fits(&q, m)) return m; return NULL;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st)
{
  CommShared *s = C(c, "MPI_Probe"); callpt(); block_until([=] { int sv = cur; (void) sv; return true; }, "MPI_Probe");
  int me = cur; block_until([s, src, tag, me] { int k = cur; cur = me; bool r = find_probe(s, src, tag) != NULL; cur = k; return r; }, "MPI_Probe");
  Message *m = find_probe(s, src, tag); if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->vf_bytes = m->bytes; } return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *st)
{
  CommShared *s = C(c, "MPI_Iprobe"); callpt(); Message *m = find_probe(s, src, tag); *f = m != NULL;
  if (!m) { fib[cur].state = 0; fib[cur].pred = NULL; to_main(false); }
  else if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->vf_bytes = m->bytes; }
  return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { long b = nb(1, t, "MPI_Get_count"); *n = st->vf_bytes % b ? MPI_UNDEFINED : (int) (st->vf_bytes / b); return 0; }

// ---------------------------------------------------------------- collectives
static int do_barrier(MPI_Comm c, MPI_Request *r) { Coll k = enter(C(c, "MPI_Barrier"), r ? K_IBARRIER : K_BARRIER); arrive(k); return settle(k, [] {}, r); }
int MPI_Barrier(MPI_Comm c) { return do_barrier(c, NULL); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { return do_barrier(c, r); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  CommShared *s = C(c, "MPI_Bcast"); long bytes = nb(n, t, "MPI_Bcast"); rankok(s, root, "MPI_Bcast"); Coll k = enter(s, K_BCAST); k.a->root = root; k.a->sc = bytes;
  if (k.me == root) coll_bytes[cur] += bytes * ((long) s->members.size() - 1);
  if (k.me == root) snap(k.a, b, bytes);
  arrive(k); CollSlot *sl = k.slot;
  for (auto &a : sl->a) if (a.in && a.root != root) MPIERR("MPI_Bcast: processes disagree on the root");
  if (k.me == root) { if (rsync()) wait_all(k); }
  else {
    if (rsync()) wait_all(k); else block_until([sl, root] { return sl->a[root].in; }, "MPI_Bcast");
    if (sl->a[root].sc != bytes) MPIERR("MPI_Bcast: count mismatch (%ld bytes at root, %ld here)", sl->a[root].sc, bytes);
    put(b, sl->a[root].snap);
  }
  leave(k); return 0;
}
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r)
{
  CommShared *s = C(c, "MPI_Ibcast"); long bytes = nb(n, t, "MPI_Ibcast"); rankok(s, root, "MPI_Ibcast"); Coll k = enter(s, K_IBCAST); k.a->root = root; k.a->sc = bytes;
  if (k.me == root) coll_bytes[cur] += bytes * ((long) s->members.size() - 1);
  if (k.me == root) snap(k.a, b, bytes);
  arrive(k);
  for (auto &a : k.slot->a) if (a.in && (a.root != root || a.sc != bytes)) MPIERR("MPI_Ibcast: processes disagree on the root or the count");
  return settle(k, [k, b, root] { if (k.me != root) put(b, k.slot->a[root].snap); }, r);
}
static void checkred(CollSlot *sl)
{
  CollArg *f = NULL; for (auto &a : sl->a) if (a.in) { if (!f) f = &a; else if (a.op != f->op || a.st != f->st || a.sc != f->sc || a.root != f->root) MPIERR("%s: processes pass different operation, datatype, count or root", kname[sl->kind]); }
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  CommShared *s = C(c, "MPI_Reduce"); long bytes = nb(n, t, "MPI_Reduce"); rankok(s, root, "MPI_Reduce"); Coll k = enter(s, K_REDUCE);
  k.a->op = op; k.a->st = t; k.a->sc = bytes; k.a->root = root; snap(k.a, sb == MPI_IN_PLACE ? rb : sb, bytes); arrive(k); checkred(k.slot);
  if (k.me == root || rsync()) wait_all(k);
  if (k.me == root) { vector<char> acc = k.slot->a[0].snap; for (size_t i = 1; i < k.slot->a.size(); i++) reduce_into(op, t, acc, k.slot->a[i].snap); put(rb, acc); }
  leave(k); return 0;
}
static int do_allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *r)
{
  CommShared *s = C(c, "MPI_Allreduce"); long bytes = nb(n, t, "MPI_Allreduce"); Coll k = enter(s, r ? K_IALLREDUCE : K_ALLREDUCE);
  k.a->op = op; k.a->st = t; k.a->sc = bytes; snap(k.a, sb == MPI_IN_PLACE ? rb : sb, bytes); arrive(k); checkred(k.slot);
  return settle(k, [k, op, t, rb] { vector<char> acc = k.slot->a[0].snap; for (size_t i = 1; i < k.slot->a.size(); i++) reduce_into(op, t, acc, k.slot->a[i].snap); put(rb, acc); }, r);
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return do_allreduce(sb, rb, n, t, op, c, NULL); }
int MPI_Iallreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *r) { return do_allreduce(sb, rb, n, t, op, c, r); }
static int do_scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool ex)
{
  CommShared *s = C(c, "MPI_Scan"); long bytes = nb(n, t, "MPI_Scan"); Coll k = enter(s, ex ? K_EXSCAN : K_SCAN);
  k.a->op = op; k.a->st = t; k.a->sc = bytes; snap(k.a, sb == MPI_IN_PLACE ? rb : sb, bytes); arrive(k); checkred(k.slot); wait_all(k);
  int last = ex ? k.me - 1 : k.me;
  if (last >= 0) { vector<char> acc = k.slot->a[0].snap; for (int i = 1; i <= last; i++) reduce_into(op, t, acc, k.slot->a[i].snap); put(rb, acc); }
  leave(k); return 0;
}
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return do_scan(sb, rb, n, t, op, c, false); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return do_scan(sb, rb, n, t, op, c, true); }
static int do_gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c)
{
  CommShared *s = C(c, "MPI_Gather"); rankok(s, root, "MPI_Gather"); Coll k = enter(s, K_GATHER); k.a->root = root; size_t n = s->members.size();
  bool inpl = sb == MPI_IN_PLACE; if (!inpl) { k.a->sc = nb(sn, st, "MPI_Gather"); snap(k.a, sb, k.a->sc); } arrive(k);
  if (k.me != root) coll_bytes[cur] += k.a->sc;
  for (auto &a : k.slot->a) if (a.in && a.root != root) MPIERR("MPI_Gather: processes disagree on the root");
  if (k.me == root) {
    wait_all(k); long e = nb(1, rt, "MPI_Gather");
    for (size_t i = 0; i < n; i++) {
      if ((int) i == root && inpl) continue;
      long cap = e * (rc ? rc[i] : rn), off = e * (rd ? rd[i] : (long) rn * (long) i);
      if (k.slot->a[i].sc != cap) MPIERR("MPI_Gather(v): rank %d sends %ld bytes, %ld expected", (int) i, k.slot->a[i].sc, cap);
      put((char *) rb + off, k.slot->a[i].snap);
    }
  } else if (rsync()) wait_all(k);
  leave(k); return 0;
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return do_gather(sb, sn, st, rb, rn, NULL, NULL, rt, root, c); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { return do_gather(sb, sn, st, rb, 0, rc, rd, rt, root, c); }
static int do_scatter(const void *sb, int sn, const int *sc, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  CommShared *s = C(c, "MPI_Scatter"); rankok(s, root, "MPI_Scatter"); Coll k = enter(s, K_SCATTER); k.a->root = root; size_t n = s->members.size(); CollSlot *sl = k.slot;
  if (k.me == root) { long e = nb(1, st, "MPI_Scatter"); for (size_t i = 0; i < n; i++) { long cap = e * (sc ? sc[i] : sn), off = e * (sd ? sd[i] : (long) sn * (long) i); if ((int) i != root) coll_bytes[cur] += cap; if (cap) sl->a[i].res.assign((const char *) sb + off, (const char *) sb + off + cap); } }
  arrive(k); if (k.me == root) { if (rsync()) wait_all(k); } else block_until([sl, root] { return sl->a[root].in; }, "MPI_Scatter");
  if (rb != MPI_IN_PLACE) { long bytes = nb(rn, rt, "MPI_Scatter"); if ((long) k.a->res.size() != bytes) MPIERR("MPI_Scatter(v): count mismatch"); put(rb, k.a->res); }
  leave(k); return 0;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return do_scatter(sb, sn, NULL, NULL, st, rb, rn, rt, root, c); }
int MPI_Scatterv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return do_scatter(sb, 0, sc, sd, st, rb, rn, rt, root, c); }
static int do_allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *r)
{
  CommShared *s = C(c, "MPI_Allgather"); Coll k = enter(s, r ? K_IALLGATHER : K_ALLGATHER); size_t n = s->members.size(); long e = nb(1, rt, "MPI_Allgather");
  if (sb == MPI_IN_PLACE) { k.a->sc = e * (rc ? rc[k.me] : rn); snap(k.a, (char *) rb + e * (rd ? rd[k.me] : (long) rn * k.me), k.a->sc); }
  else { k.a->sc = nb(sn, st, "MPI_Allgather"); snap(k.a, sb, k.a->sc); }
  coll_bytes[cur] += k.a->sc * (long) (n - 1);
  arrive(k);
  return settle(k, [=] {
    for (size_t i = 0; i < n; i++) {
      long cap = e * (rc ? rc[i] : rn), off = e * (rd ? rd[i] : (long) rn * (long) i);
      if (k.slot->a[i].sc != cap) MPIERR("MPI_Allgather(v): rank %d sends %ld bytes, %ld expected", (int) i, k.slot->a[i].sc, cap);
      put((char *) rb + off, k.slot->a[i].snap);
    }
  }, r);
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return do_allgather(sb, sn, st, rb, rn, NULL, NULL, rt, c, NULL); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { return do_allgather(sb, sn, st, rb, 0, rc, rd, rt, c, NULL); }
int MPI_Iallgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) { return do_allgather(sb, sn, st, rb, rn, NULL, NULL, rt, c, r); }
int MPI_Iallgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) { return do_allgather(sb, sn, st, rb, 0, rc, rd, rt, c, r); }
static int do_a2a(const void *sb, long sn, const int *sc, const int *sd, MPI_Datatype st, void *rb, long rn, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *r)
{
  CommShared *s = C(c, "MPI_Alltoallv"); bool inpl = sb == MPI_IN_PLACE;
  if (inpl) { sn = rn; sc = rc; sd = rd; st = rt; }
  int n = (int) s->members.size(); for (int i = 0; i < n; i++) { nb(sc ? sc[i] : sn, st, "MPI_Alltoallv"); nb(rc ? rc[i] : rn, rt, "MPI_Alltoallv"); }
  Coll k = enter(s, r ? K_IALLTOALL : K_ALLTOALL); CollArg *a = k.a;
  if (inpl) { long end = 0; for (int i = 0; i < n; i++) { long o = sd ? sd[i] : sn * i, m = sc ? sc[i] : sn; if (m && o + m > end) end = o + m; } snap(a, rb, end * dtsize[rt]); sb = a->snap.data(); }
  a->sbuf = sb; a->rbuf = rb; a->scnt = sc; a->sdis = sd; a->rcnt = rc; a->rdis = rd; a->sc = sn; a->rc = rn; a->st = st; a->rt = rt;
  for (int i = 0; i < n; i++) if (i != k.me) coll_bytes[cur] += dtsize[st] * (sc ? (long) sc[i] : sn);
  arrive(k);
  return settle(k, [k, n] {
    if (k.slot->done) return;
    k.slot->done = true; auto &A = k.slot->a;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      long es = dtsize[A[i].st], er = dtsize[A[j].rt];
      long sbts = es * (A[i].scnt ? A[i].scnt[j] : A[i].sc), rbts = er * (A[j].rcnt ? A[j].rcnt[i] : A[j].rc);
      if (sbts != rbts) MPIERR("MPI_Alltoallv: rank %d sends %ld bytes to rank %d which expects %ld", i, sbts, j, rbts);
      long so = es * (A[i].sdis ? (long) A[i].sdis[j] : A[i].sc * j), ro = er * (A[j].rdis ? (long) A[j].rdis[i] : A[j].rc * i);
      if (sbts) memcpy((char *) A[j].rbuf + ro, (const char *) A[i].sbuf + so, sbts);
    }
  }, r);
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return do_a2a(sb, sn, NULL, NULL, st, rb, rn, NULL, NULL, rt, c, NULL); }
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { return do_a2a(sb, 0, sc, sd, st, rb, 0, rc, rd, rt, c, NULL); }
int MPI_Ialltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) { return do_a2a(sb, sn, NULL, NULL, st, rb, rn, NULL, NULL, rt, c, r); }
int MPI_Ialltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) { return do_a2a(sb, 0, sc, sd, st, rb, 0, rc, rd, rt, c, r); }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int) nb(1, t, "MPI_Type_size"); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = nb(1, t, "MPI_Type_get_extent"); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { dtsize.push_back((int) nb(n, t, "MPI_Type_contiguous")); *o = (int) dtsize.size() - 1; nlivetype[cur]++; return 0; }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { if (*t < VF_NPREDEF) MPIERR("MPI_Type_free of a predefined type"); nlivetype[cur]--; *t = MPI_DATATYPE_NULL; return 0; }
}
