// Control interface of the in-process MPI simulator.
#ifndef VF_SIM_H
#define VF_SIM_H
#include <stdint.h>
#include <string>
#include <vector>
#include <functional>
#include "mpi.h"
namespace vf {

enum FailKind { F_NONE = 0, F_DEADLOCK, F_MPI, F_ABORT, F_STEPS, F_USER };

struct Config {
  int np = 1;
  int policy = 0;        // 0 random, 1 lowest rank to block, 2 highest, 3 random to block, 4 PCT, 5 round robin
  int sendmode = 0;      // 0 eager, 1 synchronous, 2 random per message, 3 eager up to limit
  int eager_limit = 64;  // bytes
  int deliver = 0;       // 0 at match, 1 at completion, 2 random
  int rootsync = 0;      // 0 rooted collectives do not synchronise, 1 they do, 2 random
  int clockmode = 0;
  uint64_t seed = 1, clockseed = 1;
  long maxsteps = 20000000;
};

struct RankOutcome { int kind = 2; int code = 0; };   // 0 returned, 1 exit(code), 2 unfinished
struct Result {
  int fail = F_NONE;
  std::string msg;
  int failrank = -1;
  std::vector<RankOutcome> ranks;
  long steps = 0;        // scheduler switches
  long choices = 0;      // scheduling points with more than one alternative
  long msgs = 0, colls = 0, syncblocks = 0, reorder = 0;
  int pending_msgs = 0, pending_recvs = 0, pending_sends = 0;
  std::vector<int> live_comms, live_groups, live_types;  // per rank
};

extern int cur;                       // current world rank, -1 in the main context
extern std::vector<long> mpi_calls;   // communication calls made per rank
extern std::vector<long> ticks1d;     // 1d transforms made per rank (not counted for KISS)
extern std::vector<long> p2p_bytes, coll_bytes;   // bytes sent to other ranks in messages / in collectives that move data
extern std::vector<long> wtime_calls; // MPI_Wtime calls per rank
extern std::vector<std::string> op_note;  // what each rank is doing (set by the harness)

void begin(const Config &);                       // before adding communicators
int add_comm(const std::vector<int> &members);    // -> id (world is 0)
MPI_Comm comm_handle(int id);                     // of current rank
Result run(const std::function<void(int)> &rank_main);
void yield_point();                               // explicit preemption point for the harness
[[noreturn]] void fail(int kind, const std::string &msg);   // from a rank
[[noreturn]] void rank_exit(int code);            // from a rank
void reset_clock(uint64_t seed);                   // of the current rank
int live_comms(int rank); int live_groups(int rank);
int live_requests(int rank);
}
#endif
