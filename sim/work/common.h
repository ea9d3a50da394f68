// Helpers shared by the workloads.
#ifndef SIM_WORK_COMMON_H_
#define SIM_WORK_COMMON_H_

#include <new>
#include <sstream>
#include <string>
#include <vector>

#include "engine/sim.h"

// Harness code itself is not instrumented (library templates it instantiates are).
#define SIM_HARNESS_BEGIN                                                            \
  _Pragma("clang attribute push(__attribute__((no_sanitize(\"address\", \"coverage\"))), apply_to = function)")
#define SIM_HARNESS_END _Pragma("clang attribute pop")

SIM_HARNESS_BEGIN
namespace simw {

using sim::Fault;
using sim::Op;
using sim::Rng;
using sim::Run;

enum class End { kOk, kNoMem, kThrew };

struct Outcome {
  End end = End::kOk;
  std::string what;
  bool fault = false;  // the op's allocation fault hit this call
  bool ok() const { return end == End::kOk; }
};

// One call into the library. The op's allocation fault, if any, applies to the first Try of the op
// only; later calls of the op observe the effects without faults.
template <typename F>
Outcome Try(F&& f) {
  Outcome o;
  try {
    sim::Call call;
    f();
  } catch (const std::bad_alloc& e) {
    o.end = End::kNoMem;
    o.what = "bad_alloc";
  } catch (const std::exception& e) {
    o.end = End::kThrew;
    o.what = e.what();
  } catch (...) {
    o.end = End::kThrew;
    o.what = "(unknown exception)";
  }
  o.fault = sim::AllocFired();
  sim::ArmAlloc(0);
  return o;
}

// A call that must succeed. Returns false after reporting otherwise.
template <typename F>
bool Must(const char* sig, const std::string& what, F&& f) {
  Outcome o = Try(std::forward<F>(f));
  if (o.ok()) return true;
  sim::CurrentRun()->Violate(sig, what + " raised: " + o.what);
  return false;
}

// A call that must succeed or, when the op's allocation fault hit it, fail with bad_alloc.
// Returns 1: done, 0: failed for the injected fault, -1: violation reported.
template <typename F>
int Attempt(const std::string& what, F&& f) {
  Outcome o = Try(std::forward<F>(f));
  if (o.ok()) return 1;
  if (o.end == End::kNoMem && o.fault) return 0;
  sim::CurrentRun()->Violate("unexpected-error", what + " raised: " + o.what);
  return -1;
}

inline void Bad(const std::string& sig, const std::string& msg) { sim::CurrentRun()->Violate(sig, msg); }
inline void LogS(const std::string& s) { sim::CurrentRun()->Log(s); }
inline void LogN(uint64_t v) { sim::CurrentRun()->Log(v); }

// Which allocation of an op fails: mostly early ones, sometimes deep.
inline int64_t PickAlloc(Rng& rng, int hi = 12, int deep = 3) {
  if (!rng.Chance(1, deep)) return rng.Range(1, hi);
  int64_t n = 1;
  while (n < 4096 && rng.Chance(3, 4)) n = n * 2 + static_cast<int64_t>(rng.Below(2));
  return n;
}
inline void AddAllocFault(Run& run, Op& op, Rng& rng, int hi = 12, int deep = 3) {
  op.faults.push_back({sim::kAllocFail, PickAlloc(rng, hi, deep)});
  run.Planned(sim::kAllocFail);
}

template <typename C>
std::string Join(const C& c, const char* sep = ", ") {
  std::stringstream ss;
  bool first = true;
  for (const auto& x : c) {
    if (!first) ss << sep;
    ss << x;
    first = false;
  }
  return ss.str();
}

}  // namespace simw
SIM_HARNESS_END

#endif  // SIM_WORK_COMMON_H_
