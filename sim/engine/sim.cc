#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cxxabi.h>
#include <new>
#include <set>
#include <tuple>

#include "shared.h"

namespace sim {

const char* const kFaultNames[kNumFaultKinds] = {
    "alloc_fail", "wall_clock_jump", "stall",        "open_error", "read_error", "short_reads",
    "eintr",      "truncated_file",  "bad_argument", "abandon",    "source_gone", "full_device"};

const char* const kFsPrefix = "/simfs/";

Shared* g_shared = nullptr;
int g_trace_fd = -1;

uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h);
}

std::map<std::string, Workload>& Workloads() {
  static std::map<std::string, Workload> w;
  return w;
}

namespace {

constexpr int kMaxClients = 6;
constexpr uint64_t kAllocBudget = 2ull << 30;  // bytes allocated inside calls, per run
constexpr uint64_t kMaxAlloc = 256ull << 20;   // larger requests meet an exhausted memory
constexpr uint64_t kAccessBudget = 200ull * 1000 * 1000;  // per run: beyond it the run hangs

struct Tls {
  bool in_call;        // inside a library call
  bool sched;          // a client thread under the scheduler
  int id;              // client id
  uintptr_t lo, hi;    // own stack
  uint64_t at;         // accesses in the current op
  uint64_t next_at;    // preempt when `at` reaches this
  uint64_t alloc_n;    // armed allocation (0: none)
  uint64_t alloc_c;    // allocations in calls since armed
  bool alloc_fired;
  int op_idx;          // index of current op within client
  const Op* op;
};
__attribute__((tls_model("initial-exec"))) thread_local Tls tls;

// Worker state: only one thread runs at a time, so plain variables suffice.
Run* g_run = nullptr;
uint64_t g_edges = 0;       // instrumented events in the current run
uint64_t g_alloc_bytes = 0; // allocated inside calls in the current run
int64_t g_live = 0;         // live heap blocks (operator new)
uint64_t g_mono = 1000000000ull;
int64_t g_wall_off = 1600000000ll * 1000000000ll;
uint64_t g_read_cost = 50;
std::function<void()>* g_clock_hook = nullptr;
bool g_in_hook = false;

// ---- parked threads
struct Slot {
  std::atomic<uint32_t> baton{0};
  pthread_t th;
  bool created = false;
  bool done = true;
  uint32_t blocked = 0;
};
Slot g_slot[kMaxClients + 1];  // slot kMaxClients: main thread
constexpr int kMain = kMaxClients;

void FutexWait(std::atomic<uint32_t>* a) {
  for (;;) {
    uint32_t v = a->load(std::memory_order_acquire);
    if (v != 0) {
      a->store(0, std::memory_order_relaxed);
      return;
    }
    syscall(SYS_futex, reinterpret_cast<uint32_t*>(a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}
void FutexWake(std::atomic<uint32_t>* a) {
  a->store(1, std::memory_order_release);
  syscall(SYS_futex, reinterpret_cast<uint32_t*>(a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ---- schedule
Rng* g_sched = nullptr;
std::map<std::tuple<int, int, uint64_t>, int>* g_replay = nullptr;  // (client, op, at) -> next
bool g_replaying = false;

uint64_t DrawGap() {
  const uint64_t gap = g_run->gap_;
  if (gap == 0) return ~0ull;
  // Geometric-like: uniform in [1, 2*gap).
  return 1 + g_sched->Below(2 * gap - 1);
}

int Runnable(int* out) {
  int n = 0;
  for (int i = 0; i < g_run->num_clients; i++)
    if (!g_slot[i].done) out[n++] = i;
  return n;
}

void Record(int client, int op, uint64_t at, int next) {
  RunResult& r = g_run->result;
  r.schedule.push_back({client, op, at, next});
  const uint64_t h = Mix(Mix(static_cast<uint64_t>(client + 1), static_cast<uint64_t>(op + 2)),
                         Mix(at, static_cast<uint64_t>(next + 1)));
  r.sched_hash = Mix(r.sched_hash, h);
  r.hash = Mix(r.hash, h);
  if (g_shared != nullptr) {
    g_shared->hash = r.hash;
    const uint32_t n = g_shared->num_switches;
    if (n < (1u << 16)) {
      g_shared->switches[n] = {client, op, next, at};
      g_shared->num_switches = n + 1;
    }
  }
  if (at > 0) r.preemptions++;
  if (g_run->tracing && at > 0) {
    g_run->Trace("  ! client " + std::to_string(client) + " preempted at access " + std::to_string(at) +
                 " of its op " + std::to_string(op) + ", client " + std::to_string(next) + " runs");
  }
}

// Hands the processor from `me` to `next` and waits until it comes back.
void Hand(int me, int next, bool wait) {
  if (me == next) return;
  FutexWake(&g_slot[next].baton);
  if (wait) FutexWait(&g_slot[me].baton);
}

// Positions the next preemption of this thread inside the current op.
void Replan(uint64_t from) {
  if (!g_replaying) {
    const uint64_t gap = DrawGap();
    tls.next_at = gap == ~0ull ? ~0ull : from + gap;
    return;
  }
  auto it = g_replay->lower_bound(std::make_tuple(tls.id, tls.op_idx, from + 1));
  if (it != g_replay->end() && std::get<0>(it->first) == tls.id &&
      std::get<1>(it->first) == tls.op_idx) {
    tls.next_at = std::get<2>(it->first);
  } else {
    tls.next_at = ~0ull;
  }
}

__attribute__((noinline)) void Preempt() {
  int cand[kMaxClients];
  const int n = Runnable(cand);
  int next = tls.id;
  if (g_replaying) {
    auto it = g_replay->find(std::make_tuple(tls.id, tls.op_idx, tls.at));
    if (it != g_replay->end() && it->second < g_run->num_clients && !g_slot[it->second].done)
      next = it->second;
  } else {
    next = cand[g_sched->Below(n)];
  }
  Replan(tls.at);
  if (next == tls.id) return;
  const int me = tls.id;
  const bool in_call = tls.in_call;
  tls.in_call = false;
  Record(me, tls.op_idx, tls.at, next);
  Hand(me, next, true);
  tls.in_call = in_call;
}

[[noreturn]] void Hang(const char* what) {
  if (g_shared != nullptr) {
    snprintf(g_shared->fatal, sizeof(g_shared->fatal), "%s", what);
  }
  _exit(kExitHang);
}

inline void OnAccess(uintptr_t addr) {
  if (!tls.in_call) return;
  if (++g_edges > kAccessBudget) Hang("no progress: access budget of the run exhausted inside a call");
  if (!tls.sched) return;
  if (addr >= tls.lo && addr < tls.hi) return;
  if (++tls.at >= tls.next_at) Preempt();
}

// Decision at an op boundary. op: index of the op about to start.
void Boundary(int op, bool finished) {
  int cand[kMaxClients];
  const int n = Runnable(cand);
  int next;
  if (n == 0) {
    next = kMain;
  } else if (g_replaying) {
    auto it = g_replay->find(std::make_tuple(tls.id, op, static_cast<uint64_t>(0)));
    if (it != g_replay->end() && it->second < g_run->num_clients && !g_slot[it->second].done) {
      next = it->second;
    } else {
      next = finished ? cand[0] : tls.id;
    }
  } else {
    next = cand[g_sched->Below(n)];
  }
  if (next == tls.id) return;
  if (next != kMain && !(finished && n == 1)) Record(tls.id, op, 0, next);
  Hand(tls.id, next, !finished);
}

void RunClient(int id) {
  Run& run = *g_run;
  int idx = 0;
  for (Op& op : run.ops) {
    if (op.client != id) continue;
    if (op.enabled) {
      tls.op_idx = idx;
      Boundary(idx, false);
      tls.op = &op;
      tls.at = 0;
      tls.alloc_n = 0;
      tls.alloc_c = 0;
      tls.alloc_fired = false;
      for (const Fault& f : op.faults) {
        if (!f.enabled) continue;
        run.result.faults_planned[f.kind]++;
        if (f.kind == kAllocFail) tls.alloc_n = static_cast<uint64_t>(f.arg);
      }
      Replan(0);
      run.result.ops_run++;
      run.Log(HashStr(op.label));
      if (run.tracing) {
        std::string faults;
        for (const Fault& f : op.faults)
          if (f.enabled)
            faults += std::string(" [fault ") + kFaultNames[f.kind] + " " + std::to_string(f.arg) + "]";
        run.Trace("client " + std::to_string(id) + " op " + std::to_string(idx) + ": " +
                                   op.label + faults);
      }
      if (g_shared != nullptr) {
        g_shared->client = id;
        snprintf(g_shared->op, sizeof(g_shared->op), "%s", op.label.c_str());
      }
      try {
        op.fn();
      } catch (const std::exception& e) {
        tls.in_call = false;
        run.Violate("unexpected-exception", "op '" + op.label + "' let an exception escape: " + e.what());
      } catch (...) {
        tls.in_call = false;
        run.Violate("unexpected-exception", "op '" + op.label + "' let an unknown exception escape");
      }
      tls.in_call = false;
      tls.alloc_n = 0;
      run.result.accesses += tls.at;
      tls.op = nullptr;
    }
    idx++;
  }
  tls.op_idx = idx;
}

void* ThreadMain(void* arg) {
  const int id = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  pthread_attr_t attr;
  void* base = nullptr;
  size_t size = 0;
  pthread_getattr_np(pthread_self(), &attr);
  pthread_attr_getstack(&attr, &base, &size);
  pthread_attr_destroy(&attr);
  tls.lo = reinterpret_cast<uintptr_t>(base);
  tls.hi = tls.lo + size;
  tls.id = id;
  for (;;) {
    FutexWait(&g_slot[id].baton);
    tls.sched = true;
    RunClient(id);
    tls.sched = false;
    g_slot[id].done = true;
    Boundary(tls.op_idx, true);
  }
  return nullptr;
}

// ---- simulated files
struct OpenFile {
  FileSpec spec;
  int64_t pos = 0;
  int64_t reads = 0;
};
std::map<std::string, FileSpec>* g_fs = nullptr;
std::map<int, OpenFile>* g_open = nullptr;
uint64_t g_fs_fired[kNumFaultKinds];

bool IsSim(const char* path) { return path != nullptr && strncmp(path, kFsPrefix, 7) == 0; }

void FsFire(FaultKind k) {
  g_fs_fired[k]++;
  if (g_run != nullptr) g_run->result.faults_fired[k]++;
}

// Returns a descriptor for a simulated file or -1 with errno set.
int SimOpen(const char* path) {
  const bool in_call = tls.in_call;
  tls.in_call = false;
  int fd = -1;
  auto it = g_fs == nullptr ? decltype(g_fs->begin()){} : g_fs->find(path);
  int err = 0;
  if (g_fs == nullptr || it == g_fs->end()) {
    err = ENOENT;
  } else if (it->second.open_errno != 0) {
    err = it->second.open_errno;
    FsFire(kOpenError);
  } else {
    fd = memfd_create("simfs", 0);
    if (fd < 0) {
      err = errno;
    } else {
      if (g_open == nullptr) g_open = new std::map<int, OpenFile>;
      OpenFile f;
      f.spec = it->second;
      if (f.spec.truncate_at >= 0 && f.spec.truncate_at < static_cast<int64_t>(f.spec.content.size())) {
        f.spec.content.resize(f.spec.truncate_at);
        FsFire(kTruncate);
      }
      // The descriptor holds the content too, for readers that do not go through read().
      size_t done = 0;
      while (done < f.spec.content.size()) {
        const ssize_t n = ::write(fd, f.spec.content.data() + done, f.spec.content.size() - done);
        if (n <= 0) break;
        done += static_cast<size_t>(n);
      }
      ::lseek(fd, 0, SEEK_SET);
      (*g_open)[fd] = f;
    }
  }
  tls.in_call = in_call;
  errno = err;
  return fd;
}

template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

}  // namespace

// ---- public API
Run::Run(const RunSpec& s) : spec(s), rng(Mix(s.seed, 0x5eed)) {}

Op& Run::AddOp(int client, std::string label, std::function<void()> fn) {
  ops.push_back(Op{});
  Op& op = ops.back();
  op.client = client;
  op.label = std::move(label);
  op.fn = std::move(fn);
  return op;
}

void Run::Trace(const std::string& line) {
  result.trace.push_back(line);
  if (g_trace_fd >= 0) {
    const std::string l = line + "\n";
    if (::write(g_trace_fd, l.data(), l.size()) < 0) return;
  }
}

void Run::Violate(const std::string& sig, const std::string& msg) {
  const bool in_call = tls.in_call;
  tls.in_call = false;
  Log(HashStr(sig));
  if (tracing) Trace("    ** VIOLATION " + sig + ": " + msg);
  if (result.violations.size() < 8) result.violations.push_back({sig, msg});
  tls.in_call = in_call;
}

const Op* CurrentOp() { return tls.op; }
Run* CurrentRun() { return g_run; }
const Fault* OpFault(FaultKind kind) {
  if (tls.op == nullptr) return nullptr;
  for (const Fault& f : tls.op->faults)
    if (f.kind == kind && f.enabled) return &f;
  return nullptr;
}

Call::Call() { tls.in_call = true; }
Call::~Call() { tls.in_call = false; }
Outside::Outside() : was_(tls.in_call) { tls.in_call = false; }
Outside::~Outside() { tls.in_call = was_; }

void ArmAlloc(uint64_t n) {
  tls.alloc_n = n;
  tls.alloc_c = 0;
  tls.alloc_fired = false;
}
bool AllocFired() { return tls.alloc_fired; }
uint64_t AllocCount() { return tls.alloc_c; }
int64_t LiveBlocks() { return g_live; }

uint64_t NowMono() { return g_mono; }
int64_t NowWall() { return static_cast<int64_t>(g_mono) + g_wall_off; }
void Advance(uint64_t ns) { g_mono += ns; }
void JumpWall(int64_t ns) { g_wall_off += ns; }
void SetReadCost(uint64_t ns) { g_read_cost = ns; }
void SetClockHook(std::function<void()> hook) {
  if (g_clock_hook == nullptr) g_clock_hook = new std::function<void()>;
  *g_clock_hook = std::move(hook);
}

void FsPut(const std::string& path, const FileSpec& spec) {
  if (g_fs == nullptr) g_fs = new std::map<std::string, FileSpec>;
  (*g_fs)[path] = spec;
}
void FsClear() {
  if (g_fs != nullptr) g_fs->clear();
  memset(g_fs_fired, 0, sizeof(g_fs_fired));
}
uint64_t FsFired(FaultKind k) { return g_fs_fired[k]; }

int ClientId() { return tls.sched ? tls.id : -1; }
void YieldPoint() {
  if (!tls.sched) return;
  tls.at++;
  if (g_replaying ? tls.at >= tls.next_at : true) Preempt();
}

RunResult Execute(const RunSpec& spec, bool tracing) {
  const Workload& w = Workloads().at(spec.property);
  g_edges = 0;
  g_mono = 1000000000ull;
  g_wall_off = 1600000000ll * 1000000000ll;
  g_read_cost = 50;
  if (g_clock_hook != nullptr) *g_clock_hook = nullptr;
  FsClear();
  memset(&tls, 0, sizeof(tls));
  if (g_shared != nullptr) {
    g_shared->hash = 0;
    g_shared->client = -1;
    snprintf(g_shared->op, sizeof(g_shared->op), "%s", "(setup)");
    g_shared->fatal[0] = 0;
    g_shared->num_switches = 0;
    g_shared->num_ops = g_shared->num_faults = 0;
  }
  g_alloc_bytes = 0;

  RunResult result;
  {
    Run run(spec);
    run.tracing = tracing;
    g_run = &run;
    Rng sched(Mix(Mix(spec.seed, 0x5c4ed), spec.sched_salt));
    g_sched = &sched;
    std::map<std::tuple<int, int, uint64_t>, int> replay;
    for (const Switch& s : spec.schedule) replay[std::make_tuple(s.client, s.op, s.at)] = s.next;
    g_replay = &replay;
    g_replaying = spec.replay;

    // Swarm: how finely this run is preempted.
    {
      static const uint64_t kGaps[] = {0, 3, 8, 25, 80, 300, 1500};
      Rng knob(Mix(spec.seed, 0x9a9));
      run.gap_ = kGaps[knob.Below(7)];
    }

    w.build(run);

    int fault_idx = 0;
    for (size_t i = 0; i < run.ops.size(); i++) {
      Op& op = run.ops[i];
      if (std::find(spec.ops_off.begin(), spec.ops_off.end(), static_cast<int>(i)) != spec.ops_off.end())
        op.enabled = false;
      run.result.op_labels.push_back("client " + std::to_string(op.client) + ": " + op.label);
      for (Fault& f : op.faults) {
        if (std::find(spec.faults_off.begin(), spec.faults_off.end(), fault_idx) != spec.faults_off.end())
          f.enabled = false;
        run.result.fault_labels.push_back(std::string(kFaultNames[f.kind]) + " " + std::to_string(f.arg) +
                                          " in op " + std::to_string(i));
        fault_idx++;
      }
    }

    if (g_shared != nullptr) {
      g_shared->num_ops = run.ops.size();
      g_shared->num_faults = fault_idx;
    }
    if (run.num_clients > 0 && !run.ops.empty()) {
      for (int i = 0; i < run.num_clients; i++) {
        g_slot[i].done = false;
        g_slot[i].blocked = 0;
        if (!g_slot[i].created) {
          g_slot[i].created = true;
          pthread_attr_t attr;
          pthread_attr_init(&attr);
          pthread_attr_setstacksize(&attr, 8 << 20);
          pthread_create(&g_slot[i].th, &attr, ThreadMain, reinterpret_cast<void*>(static_cast<intptr_t>(i)));
          pthread_attr_destroy(&attr);
        }
      }
      int first = 0;
      if (g_replaying) {
        auto it = replay.find(std::make_tuple(-1, -1, static_cast<uint64_t>(0)));
        if (it != replay.end() && it->second < run.num_clients) first = it->second;
      } else {
        first = static_cast<int>(sched.Below(run.num_clients));
      }
      Record(-1, -1, 0, first);
      FutexWake(&g_slot[first].baton);
      FutexWait(&g_slot[kMain].baton);
    }
    tls.in_call = false;
    if (g_shared != nullptr) snprintf(g_shared->op, sizeof(g_shared->op), "%s", "(end of run)");
    for (auto& fn : run.at_end) {
      try {
        fn();
      } catch (const std::exception& e) {
        tls.in_call = false;
        run.Violate("unexpected-exception", std::string("end-of-run check: ") + e.what());
      }
      tls.in_call = false;
    }
    run.at_end.clear();
    if (g_edges > 20 * 1000 * 1000) run.Probe("run of over 20 million accesses");
    if (g_edges > 80 * 1000 * 1000) run.Probe("run of over 80 million accesses");
    run.result.sim_ns = g_mono - 1000000000ull;
    run.Log(run.result.sim_ns);
    run.Log(run.result.violations.size());
    run.ops.clear();
    if (g_clock_hook != nullptr) *g_clock_hook = nullptr;
    result = std::move(run.result);
    g_run = nullptr;
  }
  if (g_shared != nullptr) g_shared->hash = result.hash;
  return result;
}

}  // namespace sim

// ---- coverage callbacks
using sim::OnAccess;
extern "C" {
void __sanitizer_cov_load1(uint8_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_load2(uint16_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_load4(uint32_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_load8(uint64_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_load16(__int128* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_store1(uint8_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_store2(uint16_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_store4(uint32_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_store8(uint64_t* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_store16(__int128* a) { OnAccess(reinterpret_cast<uintptr_t>(a)); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  static uint32_t n = 0;
  for (uint32_t* p = start; p < stop; p++)
    if (*p == 0) *p = ++n;
}
static uint8_t g_edge_seen[1 << 20];
static uint32_t g_edge_count;
void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  if (!sim::tls.in_call) return;
  if (++sim::g_edges > sim::kAccessBudget)
    sim::Hang("no progress: step budget of the run exhausted inside a call");
  const uint32_t g = *guard & ((1u << 20) - 1);
  if (g_edge_seen[g] == 0) {
    g_edge_seen[g] = 1;
    g_edge_count++;
  }
}
uint32_t sim_edges_seen() { return g_edge_count; }
}

// ---- allocator
namespace {
inline void* SimAlloc(size_t n, size_t align, bool nothrow) {
  sim::Tls& t = sim::tls;
  if (t.in_call) {
    t.alloc_c++;
    if (t.alloc_n != 0 && t.alloc_c == t.alloc_n) {
      t.alloc_fired = true;
      if (sim::g_run != nullptr) sim::g_run->result.faults_fired[sim::kAllocFail]++;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    sim::g_alloc_bytes += n;
    if (sim::g_alloc_bytes > sim::kAllocBudget)
      sim::Hang("no progress: memory budget of the run exhausted inside a call");
  }
  if (n > sim::kMaxAlloc) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (p == nullptr) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  sim::g_live++;
  return p;
}
inline void SimFree(void* p) {
  if (p == nullptr) return;
  sim::g_live--;
  free(p);
}
}  // namespace

void* operator new(size_t n) { return SimAlloc(n, 0, false); }
void* operator new[](size_t n) { return SimAlloc(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return SimAlloc(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return SimAlloc(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return SimAlloc(n, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return SimAlloc(n, static_cast<size_t>(a), false); }
void operator delete(void* p) noexcept { SimFree(p); }
void operator delete[](void* p) noexcept { SimFree(p); }
void operator delete(void* p, size_t) noexcept { SimFree(p); }
void operator delete[](void* p, size_t) noexcept { SimFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { SimFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { SimFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { SimFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { SimFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { SimFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { SimFree(p); }

// ---- clocks
namespace sim {
static void ClockRead() {
  g_mono += g_read_cost;
  if (g_clock_hook != nullptr && *g_clock_hook && !g_in_hook) {
    const bool in_call = tls.in_call;
    tls.in_call = false;
    g_in_hook = true;
    (*g_clock_hook)();
    g_in_hook = false;
    tls.in_call = in_call;
  }
}
}  // namespace sim

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (!sim::tls.in_call) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
  }
  sim::ClockRead();
  return time_point(duration(chrono::nanoseconds(sim::NowWall())));
}
steady_clock::time_point steady_clock::now() noexcept {
  if (!sim::tls.in_call) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
  }
  sim::ClockRead();
  return time_point(duration(chrono::nanoseconds(sim::NowMono())));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!sim::tls.in_call) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  sim::ClockRead();
  const int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? sim::NowWall()
                                                                         : static_cast<int64_t>(sim::NowMono());
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out != nullptr) *out = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock() noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / 1000;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
  if (!sim::tls.in_call) return static_cast<int>(syscall(SYS_nanosleep, req, rem));
  sim::Advance(static_cast<uint64_t>(req->tv_sec) * 1000000000ull + req->tv_nsec);
  sim::YieldPoint();
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem) {
  if (!sim::tls.in_call) return static_cast<int>(syscall(SYS_clock_nanosleep, id, flags, req, rem));
  const int64_t t = req->tv_sec * 1000000000ll + req->tv_nsec;
  const int64_t now = id == CLOCK_REALTIME ? sim::NowWall() : static_cast<int64_t>(sim::NowMono());
  const int64_t d = (flags & TIMER_ABSTIME) ? t - now : t;
  if (d > 0) sim::Advance(static_cast<uint64_t>(d));
  sim::YieldPoint();
  return 0;
}
int sched_yield() noexcept {
  if (sim::tls.in_call && sim::tls.sched) {
    sim::YieldPoint();
    return 0;
  }
  return static_cast<int>(syscall(SYS_sched_yield));
}

// ---- locks: a client that would block gives way to another client instead.
static void BlockedYield(uint32_t* spins) {
  if (++*spins > 20000) sim::Hang("deadlock: clients wait for locks that nobody releases");
  int cand[sim::kMaxClients];
  const int n = sim::Runnable(cand);
  int next = sim::tls.id;
  for (int i = 0; i < n; i++) {
    if (cand[i] > sim::tls.id) {
      next = cand[i];
      break;
    }
  }
  if (next == sim::tls.id && n > 0) next = cand[0];
  const bool in_call = sim::tls.in_call;
  sim::tls.in_call = false;
  sim::Hand(sim::tls.id, next, true);
  sim::tls.in_call = in_call;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  static int (*real)(pthread_mutex_t*) = sim::Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  static int (*real_try)(pthread_mutex_t*) = sim::Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!sim::tls.sched) return real(m);
  uint32_t spins = 0;
  int r;
  while ((r = real_try(m)) == EBUSY) BlockedYield(&spins);
  return r;
}
#define SIM_RWLOCK(NAME, TRY)                                                             \
  int NAME(pthread_rwlock_t* m) noexcept {                                                \
    static int (*real)(pthread_rwlock_t*) = sim::Real<int (*)(pthread_rwlock_t*)>(#NAME); \
    static int (*real_try)(pthread_rwlock_t*) = sim::Real<int (*)(pthread_rwlock_t*)>(#TRY); \
    if (!sim::tls.sched) return real(m);                             \
    uint32_t spins = 0;                                                                   \
    int r;                                                                                \
    while ((r = real_try(m)) == EBUSY) BlockedYield(&spins);                              \
    return r;                                                                             \
  }
SIM_RWLOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
SIM_RWLOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)

int pthread_once(pthread_once_t* once, void (*fn)(void)) {
  // 0: fresh, 1: running, 2: done.
  int* o = reinterpret_cast<int*>(once);
  uint32_t spins = 0;
  while (*o == 1) {
    if (!sim::tls.sched) return 0;
    BlockedYield(&spins);
  }
  if (*o == 2) return 0;
  *o = 1;
  try {
    fn();
  } catch (...) {
    *o = 0;
    throw;
  }
  *o = 2;
  return 0;
}

}
namespace __cxxabiv1 {
extern "C" {
int __cxa_guard_acquire(__cxxabiv1::__guard* guard) {
  uint8_t* g = reinterpret_cast<uint8_t*>(guard);
  if (g[0] != 0) return 0;
  uint32_t spins = 0;
  while (g[1] != 0) {
    if (!sim::tls.sched) break;
    BlockedYield(&spins);
    if (g[0] != 0) return 0;
  }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* guard) noexcept {
  uint8_t* g = reinterpret_cast<uint8_t*>(guard);
  g[1] = 0;
  g[0] = 1;
}
void __cxa_guard_abort(__cxxabiv1::__guard* guard) noexcept {
  uint8_t* g = reinterpret_cast<uint8_t*>(guard);
  g[1] = 0;
}
}
}  // namespace __cxxabiv1

// ---- files
extern "C" {
FILE* fopen(const char* path, const char* mode) {
  static FILE* (*real)(const char*, const char*) = sim::Real<FILE* (*)(const char*, const char*)>("fopen");
  if (!sim::IsSim(path)) return real(path, mode);
  const int fd = sim::SimOpen(path);
  if (fd < 0) return nullptr;
  return fdopen(fd, "r");
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
ssize_t read(int fd, void* buf, size_t n) {
  static ssize_t (*real)(int, void*, size_t) = sim::Real<ssize_t (*)(int, void*, size_t)>("read");
  if (sim::g_open == nullptr) return real(fd, buf, n);
  auto it = sim::g_open->find(fd);
  if (it == sim::g_open->end()) return real(fd, buf, n);
  sim::OpenFile& f = it->second;
  f.reads++;
  if (f.spec.eintr_every > 0 && f.reads % f.spec.eintr_every == 0) {
    sim::FsFire(sim::kEintr);
    errno = EINTR;
    return -1;
  }
  int64_t left = static_cast<int64_t>(f.spec.content.size()) - f.pos;
  int64_t want = std::min<int64_t>(left, static_cast<int64_t>(n));
  if (f.spec.error_at >= 0) {
    if (f.pos >= f.spec.error_at && left >= 0) {
      sim::FsFire(sim::kReadError);
      errno = EIO;
      return -1;
    }
    want = std::min(want, f.spec.error_at - f.pos);
  }
  if (f.spec.max_read > 0 && want > f.spec.max_read) {
    want = f.spec.max_read;
    sim::FsFire(sim::kShortReads);
  }
  if (want <= 0) return 0;
  memcpy(buf, f.spec.content.data() + f.pos, static_cast<size_t>(want));
  f.pos += want;
  return want;
}
off64_t lseek64(int fd, off64_t offset, int whence) noexcept {
  static off64_t (*real)(int, off64_t, int) = sim::Real<off64_t (*)(int, off64_t, int)>("lseek64");
  const off64_t at = real(fd, offset, whence);
  if (sim::g_open == nullptr || at < 0) return at;
  auto it = sim::g_open->find(fd);
  if (it == sim::g_open->end()) return at;
  // Relative to where the simulated reader is.
  if (whence == SEEK_CUR) return real(fd, it->second.pos = it->second.pos + offset, SEEK_SET);
  return it->second.pos = at;
}
off_t lseek(int fd, off_t offset, int whence) noexcept { return lseek64(fd, offset, whence); }
int fclose(FILE* f) {
  static int (*real)(FILE*) = sim::Real<int (*)(FILE*)>("fclose");
  if (sim::g_open != nullptr) {
    const bool in_call = sim::tls.in_call;
    sim::tls.in_call = false;
    sim::g_open->erase(fileno(f));
    sim::tls.in_call = in_call;
  }
  return real(f);
}
}
