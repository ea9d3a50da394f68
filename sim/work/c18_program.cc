// SIM_PROGRAM apps/pddl.cc
// C18: the planner program prints exactly the plans of the files it is given, or fails.
#include <cstdlib>
#include <streambuf>

#include "work/search.h"

extern "C" int sim_program_main(int argc, char* argv[]);

SIM_HARNESS_BEGIN
namespace {
using namespace simw;

// The terminal or file the program writes to. It may be full after `room` characters, and a reader
// may look at it at any time.
class Device : public std::streambuf {
 public:
  explicit Device(size_t room) : room_(room) {}
  std::string text;
  bool refused = false;

 protected:
  int overflow(int c) override {
    sim::Outside outside;
    if (c == EOF) return 0;
    if (text.size() >= room_) {
      refused = true;
      return EOF;
    }
    text.push_back(static_cast<char>(c));
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    sim::Outside outside;
    const size_t fit = std::min<size_t>(n, room_ - text.size());
    if (fit < static_cast<size_t>(n)) refused = true;
    text.append(s, fit);
    return static_cast<std::streamsize>(fit);
  }

 private:
  size_t room_;
};

struct World {
  std::vector<std::unique_ptr<Planning>> plannings;
  int reads_left = -1;  // until the fault of the clock
};

std::string Plain(const std::string& t) {
  std::string s;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == '\x1b') {
      while (i < t.size() && t[i] != 'm') i++;
      continue;
    }
    s.push_back(t[i]);
  }
  return s;
}

bool IsTime(const std::string& line) {
  if (line.size() < 2 || line.back() != 's') return false;
  char* end = nullptr;
  const std::string n = line.substr(0, line.size() - 1);
  strtod(n.c_str(), &end);
  return end != n.c_str() && *end == 0;
}

std::set<std::string> Facts(const std::string& t) {
  std::set<std::string> facts;
  size_t from = 0;
  for (;;) {
    while (from < t.size() && (t[from] == '{' || t[from] == ' ' || t[from] == ',')) from++;
    const size_t close = t.find(')', from);
    if (close == std::string::npos) break;
    facts.insert(t.substr(from, close + 1 - from));
    from = close + 1;
  }
  return facts;
}

struct Printed {
  std::vector<std::string> plans;  // keys, complete ones only
  bool counted = false;
  long count = -1;
};

// Reads what the program has written as far as it is there. Returns false after reporting.
bool ReadOutput(const Planning& pl, const std::string& d, const std::string& p, size_t depth, bool verbose, const std::string& text,
                Printed* out, const std::string& where) {
  std::vector<std::string> lines;
  for (size_t from = 0;;) {
    const size_t nl = text.find('\n', from);
    if (nl == std::string::npos) break;
    lines.push_back(Plain(text.substr(from, nl - from)));
    from = nl + 1;
  }
  const std::string head[] = {"Domain: " + d, "Problem: " + p, "Depth: " + std::to_string(depth)};
  for (size_t k = 0; k < 3 && k < lines.size(); k++)
    if (lines[k] != head[k]) {
      Bad("header", where + ": it printed '" + lines[k] + "' instead of '" + head[k] + "'");
      return false;
    }
  size_t at = std::find(lines.begin(), lines.end(), "Planning:") - lines.begin();
  if (at == lines.size()) return true;
  std::set<std::string> seen;
  size_t longest = 0;
  for (at++; at < lines.size();) {
    const std::string& line = lines[at];
    if (out->counted) {
      Bad("after-count", where + ": it printed '" + line + "' after the number of plans");
      return false;
    }
    if (line.compare(0, 6, "Found ") == 0 && line.find(" plans in ") != std::string::npos) {
      char* end = nullptr;
      out->count = strtol(line.c_str() + 6, &end, 10);
      out->counted = true;
      at++;
      continue;
    }
    if (!IsTime(line)) {
      if (!verbose) {
        Bad("unexpected-line", where + ": it printed '" + line + "'");
        return false;
      }
      at++;
      continue;
    }
    // A plan, up to an empty line.
    size_t end = at + 1;
    while (end < lines.size() && !lines[end].empty()) end++;
    std::string key;
    for (size_t k = at + 1; k < end; k++) {
      const size_t arrow = lines[k].find(" -> ");
      std::string step = lines[k].substr(0, arrow);
      size_t dashes = 0;
      while (dashes < step.size() && step[dashes] == '-') dashes++;
      const size_t n = k - at - 1;
      if (arrow == std::string::npos || dashes != n) {
        Bad("step", where + ": step " + std::to_string(n) + " of a plan is '" + lines[k] + "'");
        return false;
      }
      step = step.substr(dashes);
      if (!step.empty() && step[0] == ' ') step = step.substr(1);
      key = n == 0 ? (step.empty() ? "root" : "root?" + step) : key + "/" + step;
      const auto it = pl.state_of.find(key);
      if (it == pl.state_of.end()) {
        Bad("not-a-path", where + ": it printed a plan that does not exist: " + key);
        return false;
      }
      const auto want = pl.p.Strings(it->second);
      if (Facts(lines[k].substr(arrow + 4)) != want) {
        Bad("wrong-state", where + ": after " + key + " it printed " + lines[k].substr(arrow + 4) + " instead of {" + Join(want) + "}");
        return false;
      }
    }
    if (end == lines.size()) break;  // not finished yet
    bool goal = false;
    for (const auto& n : pl.tree.nodes)
      if (n.key == key) goal = n.goal;
    if (!goal) {
      Bad("not-a-plan", where + ": it printed " + key + ", which does not reach the goal");
      return false;
    }
    const size_t length = end - at - 2;
    if (length > depth || length < longest || !seen.insert(key).second) {
      Bad(length > depth ? "too-deep" : length < longest ? "order" : "twice", where + ": it printed " + key + " after " + Join(out->plans));
      return false;
    }
    longest = length;
    out->plans.push_back(key);
    at = end + 1;
  }
  return true;
}

enum How { kRight = 0, kTooFew, kUnknownFlag, kNoValue, kNoNumber, kNoFile, kNotFiles };

void RunProgram(World* w, uint64_t sub) {
  Rng r(sub);
  const Planning& pl = *w->plannings[r.Below(w->plannings.size())];
  const How how = r.Chance(4, 5) ? kRight : static_cast<How>(r.Range(1, 6));
  const bool verbose = r.Chance(1, 5), given = r.Chance(7, 8);
  // Without one, five steps, if the reference knows that far.
  const size_t depth = given || (pl.depth < 5 && !pl.tree.whole) ? r.Chance(1, 2) ? pl.tree.Deeper(r, pl.depth) : r.Below(pl.depth + 1) : 5;
  // The files' names stay, what is in them changes.
  const std::string d = "/simfs/domain.pddl", p = "/simfs/problem.pddl";
  sim::FileSpec df{pl.p.DomainText()}, pf{pl.p.ProblemText()};
  sim::FileSpec& f = r.Chance(1, 2) ? df : pf;
  bool must_fail = how != kRight, may_fail = false;
  if (const sim::Fault* x = sim::OpFault(sim::kOpenError)) {
    f.open_errno = static_cast<int>(x->arg);
    must_fail = true;
  }
  if (const sim::Fault* x = sim::OpFault(sim::kTruncate)) {
    f.truncate_at = x->arg % static_cast<int64_t>(f.content.size() + 1);
    if (static_cast<size_t>(f.truncate_at) <= f.content.rfind(')')) must_fail = true;
  }
  if (const sim::Fault* x = sim::OpFault(sim::kReadError)) {
    f.error_at = x->arg % static_cast<int64_t>(f.content.size() + 1);
    may_fail = true;
    if (static_cast<size_t>(f.error_at) <= f.content.rfind(')') && f.truncate_at < 0) must_fail = true;
  }
  if (const sim::Fault* x = sim::OpFault(sim::kShortReads)) df.max_read = pf.max_read = x->arg;
  if (const sim::Fault* x = sim::OpFault(sim::kEintr)) df.eintr_every = pf.eintr_every = x->arg;
  size_t room = ~size_t{0} >> 1;
  if (const sim::Fault* x = sim::OpFault(sim::kFullDevice)) room = static_cast<size_t>(x->arg);
  std::vector<std::string> args{"pddl", d, how == kNoFile ? "/simfs/nowhere.pddl" : p};
  const bool flags_swapped = r.Chance(1, 2);
  if (verbose && flags_swapped) args.push_back("--verbose");
  if (given || depth != 5) {
    args.push_back("--depth");
    // Leading zeros do not change a decimal number.
    const char* const kZeros[] = {"", "", "", "", "0", "00"};
    args.push_back(kZeros[r.Below(6)] + std::to_string(depth));
  }
  if (verbose && !flags_swapped) args.push_back("--verbose");
  switch (how) {
    case kTooFew: args.resize(r.Range(1, 2)); break;
    case kUnknownFlag: {
      const char* const kUnknown[] = {"--deep", "verbose", "--depths", "--verboser", "-depth", "--Depth", "--depth=3", "3", "--", "", "--dept"};
      const size_t at = args.insert(args.begin() + r.Range(3, static_cast<int>(args.size())), kUnknown[r.Below(11)]) - args.begin();
      if (args[at] == "3" && args[at - 1] == "--depth") args[at] = "-";
      if (r.Chance(1, 2)) args.insert(args.begin() + at + 1, "2");
      break;
    }
    case kNoValue: args.push_back("--depth"); break;
    case kNoNumber:
      args.push_back("--depth");
      args.push_back(r.Chance(1, 2) ? "far" : "99999999999999999999");
      break;
    case kNotFiles: args[1] = args[2]; break;
    default: break;
  }
  if (how != kRight) sim::CurrentRun()->Fired(sim::kBadArgument);
  std::string label;
  for (const std::string& a : args) label += (label.empty() ? "" : " ") + a;
  LogS(label);
  sim::FsPut(d, df);
  sim::FsPut(p, pf);
  std::vector<char*> argv;
  for (std::string& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  Device device(room);
  std::streambuf* before = std::cout.rdbuf(&device);
  std::cout.clear();
  w->reads_left = r.Range(0, 1 << r.Range(0, 5));
  int code = -1;
  const Outcome o = Try([&] { code = sim_program_main(static_cast<int>(args.size()), argv.data()); });
  w->reads_left = -1;
  std::cout.rdbuf(before);
  std::cout.clear();
  if (device.refused) sim::CurrentRun()->Fired(sim::kFullDevice);
  const bool ok = o.ok() && code == 0;
  LogS(ok ? "done" : "failed");
  if (!ok && !must_fail && !may_fail && !o.fault && !device.refused) {
    Bad("refused", label + " failed: " + (o.ok() ? "status " + std::to_string(code) : o.what));
    return;
  }
  if (ok && must_fail) {
    Bad("accepted", label + " succeeded and printed: " + Plain(device.text));
    return;
  }
  if (how != kRight && how != kNoFile && how != kNotFiles) {
    // It says how to use it, no more.
    if (device.text.find("Planning:") != std::string::npos || device.text.find("Found ") != std::string::npos)
      Bad("accepted", label + " printed: " + Plain(device.text));
    return;
  }
  Printed out;
  if (!ReadOutput(pl, args[1], args[2], depth, verbose, device.text, &out, label)) return;
  const Expected want = pl.tree.ByLength(static_cast<int>(depth));
  if (out.counted && (!ok || must_fail)) {
    Bad("accepted", label + " failed, and counted " + std::to_string(out.count) + " plans");
    return;
  }
  if (out.plans.size() > want.plans.size()) {
    Bad("too-many", label + " printed " + Join(out.plans));
    return;
  }
  if (ok && !device.refused) {
    if (out.plans.size() != want.plans.size()) {
      std::string missing;
      for (auto& x : want.plans)
        if (std::find(out.plans.begin(), out.plans.end(), x.first) == out.plans.end()) missing = x.first;
      Bad("missing", label + " printed " + std::to_string(out.plans.size()) + " of " + std::to_string(want.plans.size()) + " plans, not " + missing);
      return;
    }
    if (!out.counted || out.count != static_cast<long>(want.plans.size())) {
      Bad("count", label + (out.counted ? " counted " + std::to_string(out.count) : " counted no") + " plans of " + std::to_string(want.plans.size()));
      return;
    }
    sim::CurrentRun()->Probe(want.plans.empty() ? "no plans" : want.plans.size() < 4 ? "1-3 plans" : want.plans.size() < 256 ? "4-255 plans" : "256 plans or more");
  }
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  Silence();
  sim::SetReadCost(rng.Chance(1, 2) ? 0 : rng.Range(1, 5000000));
  sim::SetClockHook([p = w.get()] {
    if (p->reads_left < 0 || p->reads_left-- != 0) return;
    if (const Fault* f = sim::OpFault(sim::kStall)) {
      sim::Advance(static_cast<uint64_t>(f->arg));
      sim::CurrentRun()->Fired(sim::kStall);
    }
    if (const Fault* f = sim::OpFault(sim::kWallJump)) {
      sim::JumpWall(f->arg);
      sim::CurrentRun()->Fired(sim::kWallJump);
    }
  });
  for (int k = rng.Range(1, 3); k > 0; k--) {
    auto pl = std::make_unique<Planning>();
    if (rng.Chance(1, 24) ? !pl->Fan(rng, rng.Range(1, 3), 24, 1500) : !pl->Draw(rng, PlanningOptions(rng), rng.Range(1, 5), 60)) continue;
    w->plannings.push_back(std::move(pl));
  }
  if (w->plannings.empty()) {
    run.Probe("no usable problem drawn");
    return;
  }
  run.AddClient();
  for (int k = rng.Range(3, 9); k > 0; k--) {
    const uint64_t sub = rng.Next();
    sim::Op& op = run.AddOp(0, "program", [=] { RunProgram(w.get(), sub); });
    auto add = [&](sim::FaultKind kind, int64_t arg) {
      op.faults.push_back({kind, arg});
      run.Planned(kind);
    };
    if (rng.Chance(1, 12)) {
      static const int64_t errnos[] = {2, 13, 5, 23, 24, 12};
      add(sim::kOpenError, errnos[rng.Below(6)]);
    }
    if (rng.Chance(1, 10)) add(sim::kTruncate, static_cast<int64_t>(rng.Below(1 << 20)));
    if (rng.Chance(1, 10)) add(sim::kReadError, static_cast<int64_t>(rng.Below(1 << 20)));
    if (rng.Chance(1, 5)) add(sim::kShortReads, rng.Range(1, 300));
    if (rng.Chance(1, 6)) add(sim::kEintr, rng.Range(2, 4));
    if (rng.Chance(1, 5)) add(sim::kFullDevice, static_cast<int64_t>(rng.Below(uint64_t{1} << rng.Range(3, 13))));
    if (rng.Chance(1, 4)) add(sim::kAllocFail, static_cast<int64_t>(1 + rng.Below(uint64_t{1} << rng.Range(4, 15))));
    if (rng.Chance(1, 4)) {
      static const int64_t jumps[] = {1000000, 5000000000ll, 3600000000000ll, -1000000, -5000000000ll, -3600000000000ll};
      add(sim::kWallJump, jumps[rng.Below(6)]);
    }
    if (rng.Chance(1, 4)) {
      static const int64_t stalls[] = {1000, 50000, 3000000, 60000000000ll, 864000000000000ll};
      add(sim::kStall, stalls[rng.Below(5)]);
    }
  }
}

sim::Register reg({"C18", Build,
                   "One run: the planner program runs 3-9 times, one after the other, over 1-3 random problems whose files change under "
                   "the same names, with depths, flags and ill-formed command lines, missing, cut and unreadable files, short and "
                   "interrupted reads, a full output, failing allocations, clock jumps and stalls; what it prints is compared with "
                   "all plans of the reference interpreter. Non-trivial: at least 3 runs of the program.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"apps/pddl.cc", "src/pddl.cc", "src/planning/planner.cc", "include/symbolic/planning/breadth_first_search.h",
                    "src/action.cc", "src/formula.cc", "src/state.cc", "src/axiom.cc", "src/derived_predicate.cc", "libstdc++ streams"},
                   {"files (simulated, fault-injecting)", "output device (full after any character)", "clocks (simulated)",
                    "allocator (fault-injecting)", "VAL parser (stand-in)"},
                   {"the program's main is called rather than started as a process, so static data lives on between its runs",
                    "text before the line 'Planning:' other than the first three lines, and what --verbose adds, is not judged"}});
}  // namespace
SIM_HARNESS_END
