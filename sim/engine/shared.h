// State a worker shares with its parent, so that crashes and hangs can be attributed to a run.
#ifndef SIM_ENGINE_SHARED_H_
#define SIM_ENGINE_SHARED_H_
#include <cstdint>
namespace sim {
enum { kExitHang = 77, kExitAsan = 66, kExitDone = 0, kExitViolation = 3, kExitNondet = 4 };
struct Shared {
  volatile uint64_t index;   // run index in progress
  volatile uint64_t seed;    // its seed
  volatile uint64_t hash;    // event hash so far
  volatile uint64_t runs;    // completed runs of this worker
  volatile int client;
  volatile int stop;
  volatile uint32_t num_switches;  // of the run in progress
  volatile uint32_t num_ops, num_faults;
  struct Sw {
    int client, op, next;
    uint64_t at;
  } switches[1 << 16];
  char op[256];
  char fatal[256];
  char violation_sig[256];
  char violation_msg[4096];
  // What the process is to do, put here by its parent: no allocation is needed to read it, so that
  // the heap of a process depends only on the runs it executes.
  uint64_t start, batch, max_runs, min_runs;
  double deadline;
  uint32_t num_prelude;
  uint64_t prelude[256];
  uint64_t final_seed;
  int replay, trace;
  uint32_t num_ops_off, num_faults_off, num_schedule;
  int ops_off[1 << 12], faults_off[1 << 12];
  Sw schedule[1 << 16];
};
extern Shared* g_shared;
}  // namespace sim
#endif
