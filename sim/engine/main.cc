// Driver: spreads seeds over worker processes, confirms, minimises and replays violations, writes
// the evidence file.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <optional>
#include <set>
#include <sstream>

#include "shared.h"
#include "sim.h"

extern "C" uint32_t sim_edges_seen();

using namespace sim;

extern "C" const char* __asan_default_options() {
  return "exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "abort_on_error=0:handle_abort=0:quarantine_size_mb=8:malloc_context_size=12:"
         "detect_odr_violation=0:print_legend=0:replace_intrin=1:max_malloc_fill_size=4096:"
         "malloc_fill_byte=190:max_free_fill_size=0";
}

namespace {

struct Options {
  std::string mode, property, tier = "quick", out, known, replay_dir = ".", file, scratch = "/tmp";
  uint64_t seed = 1;
  double secs = 20;
  uint64_t max_runs = ~0ull;
  uint64_t min_runs = 0;
  int jobs = 8;
  uint64_t one_seed = 0;
  bool trace = false;
  uint64_t count = 200;
  double build_s = 0;
  uint64_t batch = 64;  // runs per worker process
  bool reuse = false;   // for `one`
  std::string base;     // prefix of a process's files
};

// Memory that was freed is either kept back for a while, so that using it is noticed, or handed out
// again at once, so that mistaking a new value for the one that lay there before is noticed.
const char* const kReuse[2] = {"quarantine_size_mb=8:thread_local_quarantine_size_kb=64",
                               "quarantine_size_mb=0:thread_local_quarantine_size_kb=00"};

// Starts this program again as a process of its own, whose heap depends on its runs alone.
[[noreturn]] void Become(const Options& opt, const char* mode, const std::string& base, bool reuse) {
  setenv("ASAN_OPTIONS", kReuse[reuse], 1);
  std::vector<const char*> args = {"symsim", mode,         "--prop",  opt.property.c_str(), "--seed", nullptr,
                                   "--known", opt.known.c_str(), "--base", base.c_str(), nullptr};
  char seed[24];
  snprintf(seed, sizeof(seed), "%020llu", static_cast<unsigned long long>(opt.seed));
  args[5] = seed;
  execv("/proc/self/exe", const_cast<char**>(args.data()));
  _exit(98);
}

Shared* MapShared(const std::string& base, bool create) {
  const int fd = open((base + ".shm").c_str(), O_RDWR | (create ? O_CREAT | O_TRUNC : 0), 0600);
  if (fd < 0 || (create && ftruncate(fd, sizeof(Shared)) != 0)) {
    perror("shared memory");
    exit(2);
  }
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p == MAP_FAILED) {
    perror("shared memory");
    exit(2);
  }
  return static_cast<Shared*>(p);
}
std::string Base(const Options& opt, int slot) {
  char buf[32];
  snprintf(buf, sizeof(buf), "/p%08d.%03d", getpid(), slot);
  return opt.scratch + buf;
}


double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Known {
  std::string property, sig, text;
};

std::vector<Known> ReadKnown(const std::string& path) {
  // known: property=<id> sig=<signature> <what fails>
  std::vector<Known> out;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("known: ", 0) != 0) continue;
    std::stringstream ss(line.substr(7));
    Known k;
    std::string a, b;
    ss >> a >> b;
    if (a.rfind("property=", 0) != 0 || b.rfind("sig=", 0) != 0) continue;
    k.property = a.substr(9);
    k.sig = b.substr(4);
    std::getline(ss, k.text);
    if (!k.text.empty() && k.text[0] == ' ') k.text = k.text.substr(1);
    out.push_back(k);
  }
  return out;
}

bool IsKnown(const std::vector<Known>& known, const std::string& property, const std::string& sig) {
  for (const Known& k : known)
    if (k.property == property && k.sig == sig) return true;
  return false;
}

// ---- one run in a child process
struct Outcome {
  std::string sig;  // empty: held
  std::string msg;
  uint64_t hash = 0;
  uint64_t runs_ok = 0;
  RunResult result;  // only schedule, labels and trace are carried over
  bool crashed = false;
};

void Put(std::string& s, uint64_t v) { s.append(reinterpret_cast<const char*>(&v), 8); }
void PutS(std::string& s, const std::string& v) {
  Put(s, v.size());
  s += v;
}
struct Reader {
  const std::string& s;
  size_t p = 0;
  bool ok = true;
  uint64_t U() {
    if (p + 8 > s.size()) {
      ok = false;
      return 0;
    }
    uint64_t v;
    memcpy(&v, s.data() + p, 8);
    p += 8;
    return v;
  }
  std::string S() {
    uint64_t n = U();
    if (!ok || p + n > s.size()) {
      ok = false;
      return "";
    }
    std::string v = s.substr(p, n);
    p += n;
    return v;
  }
};

std::string ReadAll(const std::string& path, size_t max = 1 << 20) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > max) s.resize(max);
  return s;
}

std::string CrashSummary(const std::string& err, int status, std::string* sig) {
  std::string what;
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    p += 25;
    size_t e = err.find_first_of(" \n", p);
    what = err.substr(p, e - p);
    *sig = "crash:" + what;
  } else if (WIFSIGNALED(status)) {
    *sig = "crash:signal-" + std::to_string(WTERMSIG(status));
  } else {
    *sig = "crash:exit-" + std::to_string(WEXITSTATUS(status));
  }
  // First frames inside the code under test.
  std::stringstream ss(err);
  std::string line, frames;
  int n = 0;
  while (std::getline(ss, line) && n < 6) {
    if (line.find("    #") != std::string::npos &&
        (line.find("/src/") != std::string::npos || line.find("symbolic/") != std::string::npos)) {
      size_t q = line.find(" in ");
      frames += (frames.empty() ? "" : " <- ") + line.substr(q == std::string::npos ? 0 : q + 4);
      n++;
    }
  }
  if (err.find("terminate called") != std::string::npos) {
    size_t q = err.find("terminate called");
    frames = err.substr(q, 200) + " " + frames;
    std::replace(frames.begin(), frames.end(), '\n', ' ');
  }
  return *sig + (frames.empty() ? "" : " at " + frames);
}

void Quiet(const std::string& errfile) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  dup2(e, 2);
  close(n);
  close(e);
}

Outcome RunChild(const Options& opt, const RunSpec& spec, const std::vector<Known>& known,
                 bool trace = false) {
  Outcome out;
  const std::string base = Base(opt, 999);
  const std::string errfile = base + ".err";
  const std::string outfile = base + ".out";
  Shared* sh = MapShared(base, true);
  sh->num_prelude = static_cast<uint32_t>(spec.prelude.size());
  std::copy(spec.prelude.begin(), spec.prelude.end(), sh->prelude);
  sh->final_seed = spec.seed;
  sh->replay = spec.replay;
  sh->trace = trace;
  sh->num_ops_off = static_cast<uint32_t>(spec.ops_off.size());
  std::copy(spec.ops_off.begin(), spec.ops_off.end(), sh->ops_off);
  sh->num_faults_off = static_cast<uint32_t>(spec.faults_off.size());
  std::copy(spec.faults_off.begin(), spec.faults_off.end(), sh->faults_off);
  sh->num_schedule = static_cast<uint32_t>(spec.schedule.size());
  for (size_t i = 0; i < spec.schedule.size(); i++)
    sh->schedule[i] = {spec.schedule[i].client, spec.schedule[i].op, spec.schedule[i].next, spec.schedule[i].at};
  unlink(outfile.c_str());
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    Quiet(errfile);
    Become(opt, "child", base, spec.reuse);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    const std::string s = ReadAll(outfile, 64 << 20);
    Reader r{s};
    out.sig = r.S();
    out.msg = r.S();
    out.hash = r.U();
    uint64_t n = r.U();
    for (uint64_t i = 0; i < n && r.ok; i++) {
      Switch w;
      w.client = static_cast<int>(static_cast<int64_t>(r.U()));
      w.op = static_cast<int>(static_cast<int64_t>(r.U()));
      w.at = r.U();
      w.next = static_cast<int>(static_cast<int64_t>(r.U()));
      out.result.schedule.push_back(w);
    }
    n = r.U();
    for (uint64_t i = 0; i < n && r.ok; i++) out.result.op_labels.push_back(r.S());
    n = r.U();
    for (uint64_t i = 0; i < n && r.ok; i++) out.result.fault_labels.push_back(r.S());
    n = r.U();
    for (uint64_t i = 0; i < n && r.ok; i++) out.result.trace.push_back(r.S());
    if (!r.ok) {
      out.sig = "crash:bad-output";
      out.crashed = true;
    }
  } else {
    out.crashed = true;
    out.hash = sh->hash;
    for (uint32_t i = 0; i < sh->num_switches; i++)
      out.result.schedule.push_back(
          {sh->switches[i].client, sh->switches[i].op, sh->switches[i].at, sh->switches[i].next});
    out.result.op_labels.resize(sh->num_ops);
    out.result.fault_labels.resize(sh->num_faults);
    if (trace) {
      std::ifstream tf(base + ".trace");
      std::string line;
      while (std::getline(tf, line)) out.result.trace.push_back(line);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == kExitHang) {
      out.sig = "hang";
      out.msg = sh->fatal;
    } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
      out.sig = "hang";
      out.msg = "a call did not return";
    } else {
      out.msg = CrashSummary(ReadAll(errfile), status, &out.sig);
    }
    out.msg += std::string(" (during: ") + sh->op + ")";
  }
  unlink(errfile.c_str());
  unlink(outfile.c_str());
  unlink((base + ".trace").c_str());
  unlink((base + ".shm").c_str());
  munmap(sh, sizeof(Shared));
  return out;
}

// ---- replay files
std::string SpecText(const RunSpec& spec, const Outcome& o) {
  std::stringstream ss;
  ss << "symsim-replay 1\n";
  ss << "property " << spec.property << "\n";
  ss << "seed " << spec.seed << "\n";
  ss << "heap " << (spec.reuse ? "reuse" : "keep") << "\n";
  if (!spec.prelude.empty()) {
    ss << "prelude";
    for (uint64_t v : spec.prelude) ss << " " << v;
    ss << "\n";
  }
  ss << "ops-off";
  for (int i : spec.ops_off) ss << " " << i;
  ss << "\nfaults-off";
  for (int i : spec.faults_off) ss << " " << i;
  ss << "\n";
  for (const Switch& w : spec.schedule)
    ss << "switch " << w.client << " " << w.op << " " << w.at << " " << w.next << "\n";
  ss << "sig " << o.sig << "\n";
  char buf[32];
  snprintf(buf, sizeof(buf), "%016llx", static_cast<unsigned long long>(o.hash));
  ss << "hash " << buf << "\n";
  ss << "# " << o.msg << "\n";
  return ss.str();
}

bool ReadSpec(const std::string& path, RunSpec* spec, std::string* sig, uint64_t* hash) {
  std::ifstream f(path);
  std::string line;
  if (!std::getline(f, line) || line != "symsim-replay 1") return false;
  spec->replay = true;
  while (std::getline(f, line)) {
    std::stringstream ss(line);
    std::string key;
    ss >> key;
    int i;
    if (key == "property") ss >> spec->property;
    if (key == "seed") ss >> spec->seed;
    if (key == "heap") {
      std::string how;
      ss >> how;
      spec->reuse = how == "reuse";
    }
    uint64_t u;
    if (key == "prelude")
      while (ss >> u) spec->prelude.push_back(u);
    if (key == "ops-off")
      while (ss >> i) spec->ops_off.push_back(i);
    if (key == "faults-off")
      while (ss >> i) spec->faults_off.push_back(i);
    if (key == "switch") {
      Switch w;
      ss >> w.client >> w.op >> w.at >> w.next;
      spec->schedule.push_back(w);
    }
    if (key == "sig") ss >> *sig;
    if (key == "hash") {
      std::string h;
      ss >> h;
      *hash = strtoull(h.c_str(), nullptr, 16);
    }
  }
  return !spec->property.empty();
}

// Violation classes that count as the same while shrinking.
bool SameClass(const std::string& a, const std::string& b) {
  if (a == b) return true;
  return a.rfind("crash", 0) == 0 && b.rfind("crash", 0) == 0;
}

RunSpec Minimise(const Options& opt, RunSpec spec, Outcome* best, const std::vector<Known>& known,
                 double budget_s, std::string* note) {
  const double t0 = Now();
  int attempts = 0;
  auto attempt = [&](RunSpec cand) -> bool {
    if (Now() - t0 > budget_s || attempts > 600) return false;
    attempts++;
    Outcome o = RunChild(opt, cand, known);
    if (o.sig.empty() || !SameClass(o.sig, best->sig)) return false;
    *best = o;
    spec = cand;
    return true;
  };
  const size_t num_ops = best->result.op_labels.size();
  const size_t num_faults = best->result.fault_labels.size();
  // Earlier runs of the process.
  for (size_t chunk = spec.prelude.size(); chunk >= 1; chunk /= 2) {
    for (size_t i = 0; i < spec.prelude.size();) {
      RunSpec cand = spec;
      cand.prelude.erase(cand.prelude.begin() + i, cand.prelude.begin() + std::min(cand.prelude.size(), i + chunk));
      if (!attempt(cand)) i += chunk;
    }
    if (chunk == 1) break;
  }
  // Operations: chunks, then one by one; try the recorded schedule, then a few fresh ones.
  auto try_ops = [&](const std::vector<int>& drop) {
    RunSpec cand = spec;
    for (int d : drop) cand.ops_off.push_back(d);
    if (attempt(cand)) return true;
    return false;
  };
  for (size_t chunk = std::max<size_t>(1, num_ops / 2); chunk >= 1; chunk /= 2) {
    for (size_t i = 0; i < num_ops; i += chunk) {
      std::vector<int> drop;
      for (size_t j = i; j < std::min(num_ops, i + chunk); j++)
        if (std::find(spec.ops_off.begin(), spec.ops_off.end(), static_cast<int>(j)) == spec.ops_off.end())
          drop.push_back(static_cast<int>(j));
      if (!drop.empty()) try_ops(drop);
    }
    if (chunk == 1) break;
  }
  // Faults.
  for (size_t i = 0; i < num_faults; i++) {
    RunSpec cand = spec;
    cand.faults_off.push_back(static_cast<int>(i));
    attempt(cand);
  }
  // Schedule: drop switches.
  for (size_t chunk = std::max<size_t>(1, spec.schedule.size() / 2); chunk >= 1; chunk /= 2) {
    for (size_t i = 0; i < spec.schedule.size();) {
      RunSpec cand = spec;
      cand.schedule.erase(cand.schedule.begin() + i,
                          cand.schedule.begin() + std::min(cand.schedule.size(), i + chunk));
      if (!attempt(cand)) i += chunk;
    }
    if (chunk == 1) break;
  }
  std::stringstream ss;
  ss << attempts << " attempts; ops " << num_ops << " -> " << num_ops - spec.ops_off.size() << ", faults "
     << num_faults << " -> " << num_faults - spec.faults_off.size() << ", switches -> "
     << spec.schedule.size();
  *note = ss.str();
  return spec;
}

// ---- worker
struct WorkerStats {
  uint64_t runs = 0, nontrivial = 0, preemptions = 0, accesses = 0, ops = 0, sim_ns = 0, switches = 0;
  uint64_t planned[kNumFaultKinds] = {}, fired[kNumFaultKinds] = {};
  uint64_t rechecked = 0;
  uint64_t edges = 0;
  std::map<std::string, uint64_t> probes;
  std::map<std::string, uint64_t> known_hits;
  std::vector<uint64_t> hashes, sched_hashes, all;
  std::vector<std::string> samples;
};

void Dump(const WorkerStats& st, const std::string& path) {
  std::string s;
  for (uint64_t v : {st.runs, st.nontrivial, st.preemptions, st.accesses, st.ops, st.sim_ns, st.switches,
                     st.rechecked, st.edges})
    Put(s, v);
  for (int i = 0; i < kNumFaultKinds; i++) {
    Put(s, st.planned[i]);
    Put(s, st.fired[i]);
  }
  Put(s, st.probes.size());
  for (auto& p : st.probes) {
    PutS(s, p.first);
    Put(s, p.second);
  }
  Put(s, st.known_hits.size());
  for (auto& p : st.known_hits) {
    PutS(s, p.first);
    Put(s, p.second);
  }
  Put(s, st.hashes.size());
  for (uint64_t h : st.hashes) Put(s, h);
  Put(s, st.sched_hashes.size());
  for (uint64_t h : st.sched_hashes) Put(s, h);
  Put(s, st.all.size());
  for (uint64_t h : st.all) Put(s, h);
  Put(s, st.samples.size());
  for (auto& p : st.samples) PutS(s, p);
  std::ofstream f(path + ".tmp", std::ios::binary);
  f << s;
  f.close();
  rename((path + ".tmp").c_str(), path.c_str());
}

bool Load(WorkerStats* st, const std::string& path) {
  const std::string s = ReadAll(path, 1u << 30);
  if (s.empty()) return false;
  Reader r{s};
  uint64_t* f[] = {&st->runs, &st->nontrivial, &st->preemptions, &st->accesses, &st->ops,
                   &st->sim_ns, &st->switches, &st->rechecked};
  for (auto* p : f) *p += r.U();
  st->edges = std::max(st->edges, r.U());
  for (int i = 0; i < kNumFaultKinds; i++) {
    st->planned[i] += r.U();
    st->fired[i] += r.U();
  }
  uint64_t n = r.U();
  for (uint64_t i = 0; i < n && r.ok; i++) {
    std::string k = r.S();
    st->probes[k] += r.U();
  }
  n = r.U();
  for (uint64_t i = 0; i < n && r.ok; i++) {
    std::string k = r.S();
    st->known_hits[k] += r.U();
  }
  n = r.U();
  for (uint64_t i = 0; i < n && r.ok; i++) st->hashes.push_back(r.U());
  n = r.U();
  for (uint64_t i = 0; i < n && r.ok; i++) st->sched_hashes.push_back(r.U());
  st->all.clear();
  n = r.U();
  for (uint64_t i = 0; i < n && r.ok; i++) st->all.push_back(r.U());
  n = r.U();
  for (uint64_t i = 0; i < n && r.ok; i++) {
    std::string k = r.S();
    if (st->samples.size() < 6) st->samples.push_back(k);
  }
  return r.ok;
}

uint64_t RunSeed(const Options& opt, uint64_t index) {
  return Mix(Mix(opt.seed, HashStr(opt.property)), index) >> 1;
}

std::string SampleText(uint64_t seed, const RunResult& r) {
  std::stringstream ss;
  ss << "seed " << seed << ": " << r.op_labels.size() << " ops, " << r.schedule.size() << " switches ("
     << r.preemptions << " inside calls); ";
  for (size_t i = 0; i < r.op_labels.size() && i < 8; i++) ss << (i ? " | " : "") << r.op_labels[i];
  if (!r.fault_labels.empty()) {
    ss << "; faults: ";
    for (size_t i = 0; i < r.fault_labels.size() && i < 5; i++) ss << (i ? ", " : "") << r.fault_labels[i];
  }
  std::string s = ss.str();
  if (s.size() > 900) s.resize(900);
  return s;
}

// What one process executes: a batch of runs, or the runs before one run and then that one. Both do
// the same for each run, so that its memory looks the same in both.
struct Executor {
  const Options& opt;
  const std::vector<Known>& known;
  Shared* sh;
  WorkerStats st;
  const Workload& wl;

  Executor(const Options& o, const std::vector<Known>& k, Shared* s) : opt(o), known(k), sh(s), wl(Workloads().at(o.property)) {
    for (auto* v : {&st.hashes, &st.sched_hashes, &st.all}) v->reserve(1024);
  }
  bool IsKnownViolation(const Violation& v) const { return IsKnown(known, opt.property, v.sig); }
  void Account(uint64_t seed, const RunResult& r) {
    st.runs++;
    st.preemptions += r.preemptions;
    st.accesses += r.accesses;
    st.ops += r.ops_run;
    st.sim_ns += r.sim_ns;
    st.switches += r.schedule.size();
    for (int i = 0; i < kNumFaultKinds; i++) {
      st.planned[i] += r.faults_planned[i];
      st.fired[i] += r.faults_fired[i];
    }
    for (auto& p : r.probes) st.probes[p.first] += p.second;
    if (wl.nontrivial(r)) {
      st.nontrivial++;
      st.hashes.push_back(r.hash);
      if (st.samples.size() < 2) st.samples.push_back(SampleText(seed, r));
    }
    st.sched_hashes.push_back(r.sched_hash);
    st.all.push_back(r.hash);
  }
  // Returns the first violation that is not listed, if there is one.
  std::optional<Violation> Before(uint64_t seed, bool trace) {
    RunSpec spec;
    spec.property = opt.property;
    spec.seed = seed;
    RunResult r = Execute(spec, trace);
    if (trace) {
      for (const Switch& x : r.schedule)
        dprintf(g_trace_fd, "switch client %d op %d at %llu next %d\n", x.client, x.op, (unsigned long long)x.at, x.next);
      close(g_trace_fd);
      g_trace_fd = -1;
    }
    Account(seed, r);
    for (const Violation& v : r.violations) {
      if (!IsKnownViolation(v)) return v;
      st.known_hits[v.sig]++;
    }
    return {};
  }
};

// Runs one batch: [start, start + batch), always from the state of a freshly started process.
[[noreturn]] void Worker(const Options& opt) {
  Shared* sh = MapShared(opt.base, false);
  const std::vector<Known> known = ReadKnown(opt.known);
  g_shared = sh;
  Executor ex(opt, known, sh);
  for (uint64_t index = sh->start; index < std::min<uint64_t>(sh->max_runs, sh->start + sh->batch); index++) {
    if (Now() > sh->deadline && index >= sh->min_runs) break;
    const uint64_t seed = RunSeed(opt, index);
    sh->index = index;
    sh->seed = seed;
    alarm(60);
    // Debugging aid: SYMSIM_TRACE=index:directory keeps the trace of one run of each worker.
    const char* want = getenv("SYMSIM_TRACE");
    const bool trace = want != nullptr && strtoull(want, nullptr, 10) == index && strchr(want, ':') != nullptr;
    if (trace) g_trace_fd = open((std::string(strchr(want, ':') + 1) + "/" + std::to_string(getpid())).c_str(), O_CREAT | O_WRONLY, 0644);
    if (const auto v = ex.Before(seed, trace)) {
      snprintf(sh->violation_sig, sizeof(sh->violation_sig), "%s", v->sig.c_str());
      snprintf(sh->violation_msg, sizeof(sh->violation_msg), "%s", v->msg.c_str());
      Dump(ex.st, opt.base + ".stats");
      _exit(kExitViolation);
    }
    sh->runs = sh->runs + 1;
  }
  ex.st.edges = sim_edges_seen();
  Dump(ex.st, opt.base + ".stats");
  _exit(kExitDone);
}

// Runs one run, after the ones that come before it.
[[noreturn]] void Child(const Options& opt) {
  Shared* sh = MapShared(opt.base, false);
  const std::vector<Known> known = ReadKnown(opt.known);
  g_shared = sh;
  Executor ex(opt, known, sh);
  for (uint32_t i = 0; i < sh->num_prelude; i++) {
    alarm(60);
    ex.Before(sh->prelude[i], false);
  }
  alarm(60);
  const bool trace = sh->trace;
  RunSpec spec;
  spec.property = opt.property;
  spec.seed = sh->final_seed;
  spec.replay = sh->replay;
  spec.ops_off.assign(sh->ops_off, sh->ops_off + sh->num_ops_off);
  spec.faults_off.assign(sh->faults_off, sh->faults_off + sh->num_faults_off);
  for (uint32_t i = 0; i < sh->num_schedule; i++)
    spec.schedule.push_back({sh->schedule[i].client, sh->schedule[i].op, sh->schedule[i].at, sh->schedule[i].next});
  if (trace) g_trace_fd = open((opt.base + ".trace").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  RunResult r = Execute(spec, trace);
  std::string s;
  std::string sig, msg;
  for (const Violation& v : r.violations) {
    if (IsKnown(known, spec.property, v.sig)) continue;
    sig = v.sig;
    msg = v.msg;
    break;
  }
  PutS(s, sig);
  PutS(s, msg);
  Put(s, r.hash);
  Put(s, r.schedule.size());
  for (const Switch& w : r.schedule) {
    Put(s, static_cast<uint64_t>(static_cast<int64_t>(w.client)));
    Put(s, static_cast<uint64_t>(static_cast<int64_t>(w.op)));
    Put(s, w.at);
    Put(s, static_cast<uint64_t>(static_cast<int64_t>(w.next)));
  }
  Put(s, r.op_labels.size());
  for (auto& l : r.op_labels) PutS(s, l);
  Put(s, r.fault_labels.size());
  for (auto& l : r.fault_labels) PutS(s, l);
  Put(s, r.trace.size());
  for (auto& l : r.trace) PutS(s, l);
  std::ofstream f(opt.base + ".out", std::ios::binary);
  f << s;
  f.close();
  _exit(0);
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}
std::string JsonList(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + JsonStr(v[i]);
  return o + "]";
}

uint64_t CountUnique(std::vector<uint64_t>* v) {
  std::sort(v->begin(), v->end());
  return static_cast<uint64_t>(std::unique(v->begin(), v->end()) - v->begin());
}

void WriteEvidence(const Options& opt, WorkerStats& st, double wall, int violations,
                   const std::vector<std::string>& extra_notes) {
  if (opt.out.empty()) return;
  const Workload& wl = Workloads().at(opt.property);
  std::stringstream o;
  const uint64_t distinct = CountUnique(&st.hashes);
  const uint64_t distinct_sched = CountUnique(&st.sched_hashes);
  o << "{\n \"property\": " << JsonStr(opt.property) << ",\n \"tier\": " << JsonStr(opt.tier)
    << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
  o << "  \"evaluations\": " << st.runs << ",\n  \"distinct_nontrivial\": " << distinct << ",\n";
  o << "  \"rule\": " << JsonStr(wl.rule + " Distinct: different hash over every operation, result, fault and scheduling decision of the run.") << ",\n";
  o << "  \"samples\": " << JsonList(st.samples) << ",\n";
  char buf[128];
  snprintf(buf, sizeof(buf), "%.0f", st.runs / std::max(1e-9, wall) * 3600);
  o << "  \"simulated_runs_and_seeds_per_hour\": " << buf << ",\n";
  o << "  \"operations\": " << st.ops << ",\n";
  snprintf(buf, sizeof(buf), "%.6f", st.sim_ns * 1e-9);
  o << "  \"simulated_seconds\": " << buf << ",\n";
  o << "  \"preemptions_inside_calls\": " << st.preemptions << ",\n";
  o << "  \"context_switches\": " << st.switches << ",\n";
  o << "  \"instrumented_accesses\": " << st.accesses << ",\n";
  o << "  \"distinct_schedules\": " << distinct_sched << ",\n";
  o << "  \"code_edges_reached\": " << st.edges << ",\n";
  o << "  \"runs_repeated_for_determinism\": " << st.rechecked << ",\n";
  o << "  \"faults\": {";
  bool first = true;
  for (int i = 0; i < kNumFaultKinds; i++) {
    if (st.planned[i] == 0 && st.fired[i] == 0) continue;
    o << (first ? "" : ", ") << JsonStr(kFaultNames[i]) << ": {\"planned\": " << st.planned[i]
      << ", \"fired\": " << st.fired[i] << "}";
    first = false;
  }
  o << "},\n  \"probes\": {";
  first = true;
  for (auto& p : st.probes) {
    o << (first ? "" : ", ") << JsonStr(p.first) << ": " << p.second;
    first = false;
  }
  o << "},\n  \"known_findings_hit\": {";
  first = true;
  for (auto& p : st.known_hits) {
    o << (first ? "" : ", ") << JsonStr(p.first) << ": " << p.second;
    first = false;
  }
  o << "},\n  \"real_components\": " << JsonList(wl.real) << ",\n  \"stub_components\": " << JsonList(wl.stubs);
  if (!extra_notes.empty()) o << ",\n  \"notes\": " << JsonList(extra_notes);
  o << "\n },\n \"assumptions\": " << JsonList(wl.assumptions) << ",\n";
  snprintf(buf, sizeof(buf), "%.2f", wall + opt.build_s);
  o << " \"wall_s\": " << buf << ",\n \"violations\": " << violations << "\n}\n";
  std::ofstream f(opt.out + ".tmp");
  f << o.str();
  f.close();
  rename((opt.out + ".tmp").c_str(), opt.out.c_str());
}

bool Reuses(const Options& opt, uint64_t batch) { return batch / opt.batch % 2 == 1; }

int Report(const Options& opt, const std::vector<Known>& known, uint64_t seed, bool reuse,
           const std::vector<uint64_t>& before, const std::string& first_sig, const std::string& first_msg,
           std::string* note) {
  RunSpec spec;
  spec.property = opt.property;
  spec.seed = seed;
  spec.reuse = reuse;
  // Gate: the same seed twice, in fresh processes, with the same events. A violation that needs
  // earlier runs in the same process (state left behind in globals) gets those as its prelude.
  Outcome a, b;
  std::vector<size_t> tries = {0, 1, 4, 16, before.size()};
  bool ok = false;
  for (size_t n : tries) {
    if (n > before.size()) continue;
    spec.prelude.assign(before.end() - n, before.end());
    a = RunChild(opt, spec, known);
    if (a.sig.empty()) continue;
    b = RunChild(opt, spec, known);
    ok = !b.sig.empty() && a.hash == b.hash && SameClass(a.sig, b.sig);
    if (ok) break;
  }
  if (!ok) {
    printf("ERROR: violation (%s: %s) of seed %llu did not reproduce: [%s %016llx] [%s %016llx]\n",
           first_sig.c_str(), first_msg.c_str(), (unsigned long long)seed, a.sig.c_str(),
           (unsigned long long)a.hash, b.sig.c_str(), (unsigned long long)b.hash);
    return 2;
  }
  // Switch to an explicit schedule when the run finished (a crashed run keeps its seed schedule).
  Outcome best = a;
  RunSpec cur = spec;
  cur.replay = true;
  cur.schedule = a.result.schedule;
  Outcome c = RunChild(opt, cur, known);
  if (c.sig.empty() || !SameClass(c.sig, a.sig)) {
    cur = spec;
  } else {
    best = c;
  }
  std::string mnote;
  cur = Minimise(opt, cur, &best, known, 45, &mnote);
  Outcome fin = RunChild(opt, cur, known);
  Outcome fin2 = RunChild(opt, cur, known);
  // Writing a trace takes memory: with it, what depends on addresses may turn out differently.
  fin.result.trace = RunChild(opt, cur, known, true).result.trace;
  if (fin.sig.empty() || fin.hash != fin2.hash) {
    printf("ERROR: minimised run of seed %llu did not replay exactly\n", (unsigned long long)seed);
    return 2;
  }
  mkdir(opt.replay_dir.c_str(), 0755);
  const std::string path = opt.replay_dir + "/" + opt.property + "-" + std::to_string(seed) + ".replay";
  {
    std::ofstream f(path);
    std::string text = SpecText(cur, fin);
    if (!cur.replay) text += "seed-schedule 1\n";
    f << text << "# minimised: " << mnote << "\n# trace:\n";
    for (auto& l : fin.result.trace) f << "# " << l << "\n";
    f << "# operations of the unreduced run:\n";
    for (size_t i = 0; i < a.result.op_labels.size(); i++) f << "#  op " << i << " " << a.result.op_labels[i] << "\n";
    for (size_t i = 0; i < a.result.fault_labels.size(); i++)
      f << "#  fault " << i << " " << a.result.fault_labels[i] << "\n";
  }
  printf("violation: [%s] %s\n", fin.sig.c_str(), fin.msg.c_str());
  printf("seed: %llu; minimised: %s\n", (unsigned long long)seed, mnote.c_str());
  for (size_t i = 0; i < fin.result.trace.size() && i < 40; i++) printf("| %s\n", fin.result.trace[i].c_str());
  printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str());
  *note = fin.sig + ": " + fin.msg;
  return 1;
}

std::string Hex(uint64_t v) {
  char b[20];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
  return b;
}

int Check(const Options& opt) {
  const double t0 = Now();
  const std::vector<Known> known = ReadKnown(opt.known);
  struct W {
    pid_t pid = -1;
    Shared* sh = nullptr;
    std::string base;
    uint64_t start = 0;  // first run of this process
    uint64_t batch = 0;  // first run of its batch
    bool verify = false;
    std::vector<uint64_t> expect;
  };
  std::vector<W> ws(opt.jobs);
  const double deadline = t0 + opt.secs;
  int result = 0;
  uint64_t bad_seed = 0, bad_from = 0, bad_index = 0;
  bool bad_reuse = false;
  std::string bad_sig, bad_msg, error;
  std::vector<std::string> notes;
  WorkerStats total;
  uint64_t next_index = 0, batches = 0, unstable = 0;
  fflush(stdout);
  auto spawn = [&](int i, uint64_t start, uint64_t batch, double until) {
    ws[i].sh->violation_sig[0] = 0;
    ws[i].sh->fatal[0] = 0;
    ws[i].start = start;
    ws[i].batch = batch;
    Shared* sh = ws[i].sh;
    sh->start = start;
    sh->batch = batch + opt.batch - start;
    sh->max_runs = opt.max_runs;
    sh->min_runs = opt.min_runs;
    sh->deadline = until;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      Quiet(ws[i].base + ".err");
      Become(opt, "worker", ws[i].base, Reuses(opt, batch));
    }
    ws[i].pid = pid;
  };
  auto more = [&]() { return next_index < opt.max_runs && (Now() < deadline || next_index < opt.min_runs); };
  int alive = 0;
  for (int i = 0; i < opt.jobs; i++) {
    ws[i].base = Base(opt, i);
    ws[i].sh = MapShared(ws[i].base, true);
    if (i == 0 || more()) {
      spawn(i, next_index, next_index, deadline);
      next_index += opt.batch;
      alive++;
    }
  }
  while (alive > 0) {
    int status = 0;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) break;
    int i = 0;
    for (; i < opt.jobs; i++)
      if (ws[i].pid == pid) break;
    if (i == opt.jobs) continue;
    W& w = ws[i];
    w.pid = -1;
    alive--;
    const std::string stats = w.base + ".stats";
    if (w.verify) {
      // A repetition of the batch before, in another fresh process: compare event hashes.
      WorkerStats again;
      Load(&again, stats);
      unlink(stats.c_str());
      const size_t n = std::min(again.all.size(), w.expect.size());
      total.rechecked += n;
      for (size_t k = 0; k < n; k++) {
        if (again.all[k] != w.expect[k]) {
          unstable++;
          if (notes.size() < 3)
            notes.push_back("run " + std::to_string(w.batch + k) + " gave different events when repeated (" +
                            Hex(w.expect[k]) + ", then " + Hex(again.all[k]) + ")");
          break;
        }
      }
      w.verify = false;
    } else {
      Load(&total, stats);
      unlink(stats.c_str());
      batches++;
      if (WIFEXITED(status) && WEXITSTATUS(status) == kExitDone) {
        if (batches % 12 == 1 && !total.all.empty() && w.start == w.batch) {
          w.verify = true;
          w.expect = total.all;
          spawn(i, w.start, w.batch, Now() + 100);
          alive++;
          continue;
        }
      } else {
        // Violation or crash.
        std::string sig, msg;
        if (WIFEXITED(status) && WEXITSTATUS(status) == kExitViolation) {
          sig = w.sh->violation_sig;
          msg = w.sh->violation_msg;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == kExitHang) {
          sig = "hang";
          msg = w.sh->fatal;
        } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
          sig = "hang";
          msg = "a call did not return";
        } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
          error = "worker was killed";
          break;
        } else {
          msg = CrashSummary(ReadAll(w.base + ".err"), status, &sig);
        }
        if (!IsKnown(known, opt.property, sig)) {
          bad_seed = w.sh->seed;
          bad_index = w.sh->index;
          bad_from = w.start;
          bad_reuse = Reuses(opt, w.batch);
          bad_sig = sig;
          bad_msg = msg;
          result = 1;
          break;
        }
        total.known_hits[sig]++;
        total.runs++;
        if (w.sh->index + 1 < w.batch + opt.batch) {
          spawn(i, w.sh->index + 1, w.batch, deadline);
          alive++;
          continue;
        }
      }
    }
    if (more()) {
      spawn(i, next_index, next_index, deadline);
      next_index += opt.batch;
      alive++;
    }
  }
  for (int i = 0; i < opt.jobs; i++) {
    if (ws[i].pid > 0) {
      kill(ws[i].pid, SIGKILL);
      waitpid(ws[i].pid, nullptr, 0);
    }
    if (!ws[i].verify) Load(&total, ws[i].base + ".stats");
    unlink((ws[i].base + ".stats").c_str());
    unlink((ws[i].base + ".stats.tmp").c_str());
    unlink((ws[i].base + ".err").c_str());
    unlink((ws[i].base + ".shm").c_str());
  }
  if (unstable > 0)
    printf("note: %llu repeated batches gave different events\n", (unsigned long long)unstable);
  if (!error.empty()) {
    printf("ERROR: %s\n", error.c_str());
    WriteEvidence(opt, total, Now() - t0, 0, {error});
    return 2;
  }
  const double wall = Now() - t0;
  if (result == 1) {
    std::string note;
    std::vector<uint64_t> before;
    for (uint64_t k = bad_from; k < bad_index; k++) before.push_back(RunSeed(opt, k));
    result = Report(opt, known, bad_seed, bad_reuse, before, bad_sig, bad_msg, &note);
    notes.push_back(note);
  }
  WriteEvidence(opt, total, wall, result == 1 ? 1 : 0, notes);
  for (const Known& k : known) {
    if (k.property != opt.property) continue;
    printf("KNOWN-FINDING: property=%s %s (signature %s, met %llu times in this run)\n", k.property.c_str(),
           k.text.c_str(), k.sig.c_str(), (unsigned long long)total.known_hits[k.sig]);
  }
  std::vector<uint64_t> h = total.hashes;
  printf("%s %s: %llu runs (%llu non-trivial, %llu distinct), %llu preemptions, %.1f s, exit %d\n",
         opt.property.c_str(), opt.tier.c_str(), (unsigned long long)total.runs,
         (unsigned long long)total.nontrivial, (unsigned long long)CountUnique(&h),
         (unsigned long long)total.preemptions, wall, result);
  for (int i = 0; i < kNumFaultKinds; i++)
    if (total.planned[i] || total.fired[i])
      printf("  fault %-16s planned %llu fired %llu\n", kFaultNames[i], (unsigned long long)total.planned[i],
             (unsigned long long)total.fired[i]);
  for (auto& p : total.probes) printf("  probe %-40s %llu\n", p.first.c_str(), (unsigned long long)p.second);
  return result;
}

int Replay(const Options& opt) {
  RunSpec spec;
  std::string sig;
  uint64_t hash = 0;
  if (!ReadSpec(opt.file, &spec, &sig, &hash)) {
    printf("ERROR: cannot read %s\n", opt.file.c_str());
    return 2;
  }
  {
    std::ifstream f(opt.file);
    std::string line;
    while (std::getline(f, line))
      if (line == "seed-schedule 1") spec.replay = false;
  }
  const std::vector<Known> known;
  Outcome o = RunChild(opt, spec, known);
  const Outcome traced = RunChild(opt, spec, known, true);
  for (auto& l : traced.result.trace) printf("| %s\n", l.c_str());
  printf("recorded: %s %016llx\nreplayed: %s %016llx %s\n", sig.c_str(), (unsigned long long)hash,
         o.sig.c_str(), (unsigned long long)o.hash, o.msg.c_str());
  if (o.sig.empty()) return 0;
  printf("VIOLATION property=%s replay=%s\n", spec.property.c_str(), opt.file.c_str());
  return 1;
}

int One(const Options& opt) {
  RunSpec spec;
  spec.property = opt.property;
  spec.seed = opt.one_seed;
  spec.reuse = opt.reuse;
  const std::vector<Known> known = ReadKnown(opt.known);
  Outcome o = RunChild(opt, spec, known, true);
  for (auto& l : o.result.trace) printf("| %s\n", l.c_str());
  printf("seed %llu: %s %s hash %016llx\n", (unsigned long long)spec.seed,
         o.sig.empty() ? "held" : o.sig.c_str(), o.msg.c_str(), (unsigned long long)o.hash);
  return o.sig.empty() ? 0 : 1;
}

// Prints "seed hash" for `count` runs, executed in this process, for the determinism proof.
int Hashes(const Options& opt) {
  for (uint64_t i = 0; i < opt.count; i++) {
    RunSpec spec;
    spec.property = opt.property;
    spec.seed = RunSeed(opt, i);
    RunResult r = Execute(spec);
    printf("%llu %016llx\n", (unsigned long long)spec.seed, (unsigned long long)r.hash);
  }
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  // Fixed address space layout, where permitted: removes one source of variation for free.
  const int persona = personality(0xffffffff);
  if (persona != -1 && !(persona & ADDR_NO_RANDOMIZE) && getenv("SYMSIM_REEXEC") == nullptr) {
    setenv("SYMSIM_REEXEC", "1", 1);
    if (personality(persona | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  Options opt;
  if (argc < 2) return 2;
  opt.mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") opt.property = v;
    else if (k == "--tier") opt.tier = v;
    else if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--secs") opt.secs = atof(v.c_str());
    else if (k == "--max-runs") opt.max_runs = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--min-runs") opt.min_runs = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--jobs") opt.jobs = atoi(v.c_str());
    else if (k == "--out") opt.out = v;
    else if (k == "--known") opt.known = v;
    else if (k == "--replay-dir") opt.replay_dir = v;
    else if (k == "--scratch") opt.scratch = v;
    else if (k == "--file") opt.file = v;
    else if (k == "--run") opt.one_seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--count") opt.count = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--base") opt.base = v;
    else if (k == "--reuse") opt.reuse = v == "1";
    else if (k == "--batch") opt.batch = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--build-s") opt.build_s = atof(v.c_str());
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
  }
  if (opt.property.empty() && !Workloads().empty()) opt.property = Workloads().begin()->first;
  if (opt.mode != "replay" && Workloads().count(opt.property) == 0) {
    fprintf(stderr, "no workload for %s\n", opt.property.c_str());
    return 2;
  }
  if (opt.mode == "check") return Check(opt);
  if (opt.mode == "worker") Worker(opt);
  if (opt.mode == "child") Child(opt);
  if (opt.mode == "replay") return Replay(opt);
  if (opt.mode == "one") return One(opt);
  if (opt.mode == "hashes") return Hashes(opt);
  return 2;
}
