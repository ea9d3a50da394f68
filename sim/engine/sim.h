// Deterministic simulation engine: seeded scheduler over parked threads, simulated clocks,
// fault-injecting allocator and files, run recording and replay. Not instrumented itself.
#ifndef SIM_ENGINE_SIM_H_
#define SIM_ENGINE_SIM_H_

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t Mix(uint64_t a, uint64_t b) { return Mix(a ^ Mix(b)); }
uint64_t HashStr(const std::string& s);

class Rng {
 public:
  explicit Rng(uint64_t seed = 0) : s_(Mix(seed)) {}
  uint64_t Next() {
    s_ += 0x9e3779b97f4a7c15ull;
    uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : Next() % n; }
  int Range(int lo, int hi) { return lo + static_cast<int>(Below(hi - lo + 1)); }
  bool Chance(int num, int den) { return Below(den) < static_cast<uint64_t>(num); }
  template <typename C>
  auto& Pick(C& c) {
    return c[Below(c.size())];
  }
  template <typename C>
  void Shuffle(C& c) {
    for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[Below(i)]);
  }

 private:
  uint64_t s_;
};

enum FaultKind {
  kAllocFail = 0,  // arg: which allocation of the op fails (1-based)
  kWallJump,       // arg: signed ns added to the wall clock
  kStall,          // arg: ns the simulated processor stands still
  kOpenError,      // arg: errno
  kReadError,      // arg: offset after which read() fails with EIO
  kShortReads,     // arg: maximum bytes per read()
  kEintr,          // arg: every n-th read() is interrupted
  kTruncate,       // arg: length at which the file ends (writer crashed)
  kBadArgument,    // ill-formed request
  kAbandon,        // client drops work half way
  kSourceGone,     // original destroyed / overwritten while a copy lives
  kFullDevice,     // an output device is full after some characters
  kNumFaultKinds
};
extern const char* const kFaultNames[kNumFaultKinds];

struct Fault {
  FaultKind kind;
  int64_t arg;
  bool enabled = true;
};

struct Op {
  int client = 0;
  std::string label;
  std::function<void()> fn;
  std::vector<Fault> faults;
  bool enabled = true;
};

struct Switch {
  int client;   // who was running
  int op;       // index of the op within that client (-1: thread start/end)
  uint64_t at;  // number of instrumented accesses into the op (0: op boundary)
  int next;     // who runs next
};

struct Violation {
  std::string sig;
  std::string msg;
};

struct RunSpec {
  std::string property;
  uint64_t seed = 0;
  std::vector<uint64_t> prelude; // seeds of runs executed before this one in the same process
  bool reuse = false;            // freed memory is handed out again at once
  bool replay = false;           // follow `schedule` instead of drawing it
  uint64_t sched_salt = 0;       // alternative schedule stream (minimiser only)
  std::vector<int> ops_off;      // indices into the op list
  std::vector<int> faults_off;   // indices into the flattened fault list
  std::vector<Switch> schedule;
};

struct RunResult {
  std::vector<Violation> violations;
  uint64_t hash = 0;          // everything observable: ops, results, schedule
  uint64_t sched_hash = 0;    // schedule only
  std::vector<Switch> schedule;
  uint64_t preemptions = 0;   // switches inside a library call
  uint64_t accesses = 0;
  uint64_t sim_ns = 0;
  uint64_t ops_run = 0;
  uint64_t faults_planned[kNumFaultKinds] = {};
  uint64_t faults_fired[kNumFaultKinds] = {};
  std::map<std::string, uint64_t> probes;
  std::vector<std::string> trace;  // filled when tracing
  std::vector<std::string> op_labels;
  std::vector<std::string> fault_labels;
};

class Run {
 public:
  explicit Run(const RunSpec& spec);

  const RunSpec& spec;
  Rng rng;
  RunResult result;
  bool tracing = false;

  // ---- construction (main thread)
  int AddClient() { return num_clients++; }
  Op& AddOp(int client, std::string label, std::function<void()> fn);
  void AtEnd(std::function<void()> fn) { at_end.push_back(std::move(fn)); }
  // Per-run knob: expected number of accesses between preemptions (0: only at op boundaries).
  void SetGap(uint64_t gap) { gap_ = gap; }
  template <typename T, typename... A>
  std::shared_ptr<T> Keep(A&&... a) {
    auto p = std::make_shared<T>(std::forward<A>(a)...);
    kept_.push_back(p);
    return p;
  }

  // ---- checks and log (any thread, outside calls)
  void Check(bool ok, const char* sig, const std::string& msg) {
    if (!ok) Violate(sig, msg);
  }
  void Violate(const std::string& sig, const std::string& msg);
  bool failed() const { return !result.violations.empty(); }
  void Log(uint64_t v) { result.hash = Mix(result.hash, v); }
  void Log(const std::string& s) {
    Log(HashStr(s));
    if (tracing) Trace("    -> " + s);
  }
  void Trace(const std::string& line);
  void Probe(const std::string& name, uint64_t n = 1) { result.probes[name] += n; }
  void Fired(FaultKind k) { result.faults_fired[k]++; }
  void Planned(FaultKind k) { result.faults_planned[k]++; }

  int num_clients = 0;
  std::vector<Op> ops;
  std::vector<std::function<void()>> at_end;
  uint64_t gap_ = 0;

 private:
  std::vector<std::shared_ptr<void>> kept_;
};

// The op being executed by the calling client thread (nullptr in setup and end phases).
const Op* CurrentOp();
Run* CurrentRun();
// First enabled fault of this kind in the current op, or nullptr.
const Fault* OpFault(FaultKind kind);

// RAII: marks a call into the library. Inside, the scheduler may preempt the calling client at any
// instrumented memory access, allocation faults of the op apply, and the access budget counts.
class Call {
 public:
  Call();
  ~Call();
  Call(const Call&) = delete;
};

// RAII: temporarily leave the call (for harness callbacks invoked by the library).
class Outside {
 public:
  Outside();
  ~Outside();

 private:
  bool was_;
};

// Allocation faults for the calling thread, independent of op faults. n: 1-based, 0 disarms.
void ArmAlloc(uint64_t n);
bool AllocFired();
uint64_t AllocCount();  // allocations in calls since ArmAlloc/op start
int64_t LiveBlocks();

// Clocks.
uint64_t NowMono();  // without advancing
int64_t NowWall();
void Advance(uint64_t ns);
void JumpWall(int64_t ns);
void SetReadCost(uint64_t ns);
// Called on each clock read made by the library (inside a call), before the value is returned.
void SetClockHook(std::function<void()> hook);

// Files. Paths start with kFsPrefix.
extern const char* const kFsPrefix;
struct FileSpec {
  std::string content;
  int open_errno = 0;
  int64_t truncate_at = -1;
  int64_t error_at = -1;
  int64_t max_read = 0;
  int64_t eintr_every = 0;
};
void FsPut(const std::string& path, const FileSpec& spec);
void FsClear();
uint64_t FsFired(FaultKind k);  // faults fired since FsClear

// A scheduling decision point outside calls.
void YieldPoint();
int ClientId();

// Workload registry.
using BuildFn = void (*)(Run&);
struct Workload {
  std::string property;
  BuildFn build;
  // A run is non-trivial when `rule` holds; described in text for the evidence.
  std::string rule;
  std::function<bool(const RunResult&)> nontrivial;
  std::vector<std::string> real;   // components running real code
  std::vector<std::string> stubs;  // components running a stub
  std::vector<std::string> assumptions;
};
std::map<std::string, Workload>& Workloads();
struct Register {
  explicit Register(Workload w) { Workloads()[w.property] = std::move(w); }
};

RunResult Execute(const RunSpec& spec, bool tracing = false);

// When set, trace lines are also written here as they happen (so that a crash keeps its trace).
extern int g_trace_fd;

}  // namespace sim

#endif  // SIM_ENGINE_SIM_H_
