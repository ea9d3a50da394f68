// C11: loading a problem is all-or-nothing whatever the files do.
#include <algorithm>
#include <cctype>

#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;

// One domain and problem that gets loaded.
struct Source {
  model::Problem p;       // as described by both texts
  model::Problem domain;  // as described by the domain text alone
  std::string domain_text, problem_text;
  model::State init, closed;
  bool no_goal = false;
};
struct World {
  QWorld resident;
  std::vector<Source> sources;
};

// Length of the text up to the end of its first form; 0 if it has no complete one.
size_t FormEnd(const std::string& t) {
  int depth = 0;
  bool comment = false;
  for (size_t i = 0; i < t.size(); i++) {
    const char c = t[i];
    if (comment) {
      comment = c != '\n';
    } else if (c == ';') {
      comment = true;
    } else if (c == '(') {
      depth++;
    } else if (c == ')') {
      if (depth == 0) return 0;
      if (--depth == 0) return i + 1;
    } else if (depth == 0 && !isspace(static_cast<unsigned char>(c))) {
      return 0;
    }
  }
  return 0;
}

std::string Decorate(Rng& rng, std::string t, bool string) {
  if (rng.Chance(1, 3)) t = "; a comment (with brackets\n" + t;
  if (rng.Chance(1, 3)) t = "\n\n  \t" + t;
  if (!string && rng.Chance(1, 3)) t += "; the end";
  if (rng.Chance(1, 3)) t += std::string(static_cast<size_t>(rng.Range(1, 700)), rng.Chance(1, 2) ? '\n' : ' ');
  if (rng.Chance(1, 4)) {  // lines as another system ends them
    std::string crlf;
    for (char c : t) crlf += c == '\n' ? "\r\n" : std::string(1, c);
    t = crlf + (rng.Chance(1, 2) ? "\r\n" : "");
  }
  // Longer than one buffer of the reader.
  if (rng.Chance(1, 8)) t = "; " + std::string(static_cast<size_t>(rng.Range(5000, 20000)), 'x') + "\n" + t;
  return t;
}

void Replace(std::string* t, const std::string& what, const std::string& by) {
  const size_t at = t->find(what);
  if (at != std::string::npos) t->replace(at, what.size(), by);
}

Source MakeSource(Rng& rng) {
  Source s;
  model::Options o;
  o.max_objects = 4;
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 24;
  o.max_preds = 4;
  o.max_actions = 3;
  o.max_depth = 1;
  o.max_facts = 24;
  if (rng.Chance(1, 3)) o.max_axioms = 2;
  if (rng.Chance(1, 4)) o.max_rules = 2;
  if (rng.Chance(1, 12)) o.no_preds = true, o.no_actions = true, o.max_axioms = o.max_rules = 0;
  for (int tries = 0;; tries++) {
    s.p = model::Problem::Random(rng, o);
    auto c = s.p.Closure(s.p.init);
    if (c) {
      s.closed = s.p.Derive(*c);
      break;
    }
    if (tries > 10) o.max_axioms = 0;
  }
  s.init = s.p.init;
  s.domain_text = s.p.DomainText();
  s.problem_text = s.p.ProblemText();
  // Empty sections may be left out.
  if (rng.Chance(1, 2)) {
    Replace(&s.problem_text, "(:objects)", "");
    Replace(&s.problem_text, "(:init)", "");
    Replace(&s.domain_text, "(:predicates)", "");
    Replace(&s.domain_text, "(:constants)", "");
    Replace(&s.domain_text, "(:types)", "");
  }
  s.domain = s.p;
  s.domain.objects.resize(s.p.constants);
  s.domain.type_of.resize(s.p.constants);
  s.domain.init.clear();
  return s;
}

std::vector<std::string> Typed(const model::Problem& p, size_t from, size_t to) {
  std::vector<std::string> v;
  for (size_t o = from; o < to; o++) v.push_back(p.objects[o] + " - " + p.TypeName(p.type_of[o]));
  return v;
}
std::vector<std::string> Typed(const std::vector<symbolic::Object>& objects) {
  std::vector<std::string> v;
  for (const symbolic::Object& o : objects) v.push_back(o.name() + " - " + o.type().name());
  return v;
}
std::vector<std::string> ParamTypes(const model::Problem& p, const std::vector<int>& params) {
  std::vector<std::string> v;
  for (int t : params) v.push_back(p.TypeName(t));
  return v;
}
std::vector<std::string> ParamTypes(const std::vector<symbolic::Object>& objects) {
  std::vector<std::string> v;
  for (const symbolic::Object& o : objects) v.push_back(o.type().name());
  return v;
}

// Is it exactly the problem described? Returns false after reporting otherwise.
bool CheckLoaded(const symbolic::Pddl& pddl, const Source& s, bool with_problem, bool axioms, const std::string& where) {
  const model::Problem& p = with_problem ? s.p : s.domain;
  auto same = [&](const std::string& what, const std::vector<std::string>& have, const std::vector<std::string>& want) {
    if (have == want) return true;
    Bad("not-as-described", where + ": its " + what + " are [" + Join(have, "; ") + "] instead of [" + Join(want, "; ") + "]");
    return false;
  };
  if (!same("constants", Typed(pddl.constants()), Typed(p, 0, p.constants))) return false;
  if (!same("objects", Typed(pddl.objects()), Typed(p, 0, p.objects.size()))) return false;
  for (int t = -1; t < static_cast<int>(p.parent.size()); t++) {
    std::vector<std::string> want, have;
    for (int o : p.ObjectsOf(t)) want.push_back(p.objects[o]);
    const auto it = pddl.object_map().find(p.TypeName(t));
    if (it != pddl.object_map().end())
      for (const symbolic::Object& o : it->second) have.push_back(o.name());
    if (!same("objects of type " + p.TypeName(t), have, want)) return false;
  }
  std::vector<std::string> have, want;
  for (const symbolic::Predicate& x : pddl.predicates()) have.push_back(x.name() + "(" + Join(ParamTypes(x.parameters())) + ")");
  for (const model::Pred& x : p.preds) want.push_back(x.name + "(" + Join(ParamTypes(p, x.params)) + ")");
  if (!same("predicates", have, want)) return false;
  have.clear();
  want.clear();
  for (const symbolic::Action& x : pddl.actions()) have.push_back(x.name() + "(" + Join(ParamTypes(x.parameters())) + ")");
  for (const model::Action& x : p.actions) want.push_back(x.name + "(" + Join(ParamTypes(p, x.params)) + ")");
  if (!same("actions", have, want)) return false;
  if (!same("numbers of axioms and rules",
            {std::to_string(pddl.axioms().size()), std::to_string(pddl.derived_predicates().size())},
            {std::to_string(p.axioms.size()), std::to_string(p.rules.size())}))
    return false;
  const model::State init = !with_problem ? model::State() : axioms ? s.closed : s.init;
  const auto facts = FactsOf(pddl.initial_state(), where);
  if (facts != p.Strings(init)) {
    Bad("not-as-described", where + ": its initial state is {" + Join(facts) + "} instead of " + p.Show(init));
    return false;
  }
  // What it answers.
  size_t index = 0;
  std::vector<std::string> actions;
  bool goal = false;
  if (!Must("answers", where + ": asking it", [&] {
        index = pddl.state_index().size();
        actions = pddl.ListValidActions(pddl.initial_state());
        if (with_problem) goal = pddl.IsGoalSatisfied(pddl.initial_state());
      }))
    return false;
  std::vector<std::string> applicable;
  for (auto& a : p.Applicable(init)) applicable.push_back(p.Call(p.actions[a.first], a.second));
  std::sort(applicable.begin(), applicable.end());
  std::sort(actions.begin(), actions.end());
  if (!same("valid actions", actions, applicable)) return false;
  if (index != p.AllAtoms().size()) {
    Bad("not-as-described", where + ": its index has " + std::to_string(index) + " facts instead of " + std::to_string(p.AllAtoms().size()));
    return false;
  }
  if (with_problem && goal != p.Holds(p.goal, {}, init)) {
    Bad("not-as-described", where + ": its goal test says " + (goal ? "yes" : "no"));
    return false;
  }
  int n = 0;
  for (auto& a : p.Applicable(init)) {
    const auto next = p.Next(init, p.actions[a.first], a.second);
    if (!next || n++ >= 2) continue;
    symbolic::State r;
    const std::string call = p.Call(p.actions[a.first], a.second);
    if (!Must("answers", where + ": " + call, [&] { r = pddl.NextState(pddl.initial_state(), call); })) return false;
    const auto got = FactsOf(r, where);
    if (got != p.Strings(*next)) {
      Bad("not-as-described", where + ": " + call + " gives {" + Join(got) + "} instead of " + p.Show(*next));
      return false;
    }
  }
  return true;
}

enum Mode { kString = 0, kFile, kAlone, kEmptyString, kNoDomainFile, kNoProblemFile, kEmptyDomain, kEmptyProblem, kMixed, kNumModes };

void Load(World* w, int client, uint64_t sub) {
  Rng r(sub);
  const Source& s = w->sources[r.Below(w->sources.size())];
  const Mode mode = r.Chance(1, 2) ? (r.Chance(1, 2) ? kString : kFile) : static_cast<Mode>(r.Below(kNumModes));
  const bool axioms = r.Chance(2, 3);
  const bool problem_side = r.Chance(1, 2);  // which of the two texts a fault of the files hits
  const std::string dn = "/simfs/load_d" + std::to_string(client) + ".pddl", pn = "/simfs/load_p" + std::to_string(client) + ".pddl";
  std::string domain = Decorate(r, s.domain_text, false), problem = Decorate(r, s.problem_text, mode != kFile);
  const bool with_problem = mode != kAlone && mode != kEmptyString;
  const bool problem_file = mode == kFile || mode == kNoProblemFile || mode == kEmptyProblem;
  if (mode == kEmptyDomain) domain = r.Chance(1, 2) ? "" : " \n";
  if (mode == kEmptyProblem) problem = r.Chance(1, 2) ? "" : " \n";
  if (mode == kMixed) {
    if (r.Chance(1, 2)) problem = domain;  // not a problem at all
    else std::swap(domain, problem);
  }
  // The faults.
  bool must_fail = mode == kNoDomainFile || mode == kNoProblemFile || mode == kEmptyDomain || mode == kEmptyProblem || mode == kMixed;
  bool may_fail = false;
  sim::FileSpec df{domain}, pf{problem};
  const bool hit_problem = problem_side && problem_file;
  sim::FileSpec& f = hit_problem ? pf : df;
  if (sim::OpFault(sim::kOpenError) != nullptr) {
    f.open_errno = static_cast<int>(sim::OpFault(sim::kOpenError)->arg);
    must_fail = true;
  }
  if (const sim::Fault* x = sim::OpFault(sim::kTruncate)) {
    if (problem_side && with_problem && !problem_file) {
      // The caller's string is cut.
      const size_t n = static_cast<size_t>(x->arg) % (problem.size() + 1);
      sim::CurrentRun()->Fired(sim::kTruncate);
      problem.resize(n);
      if (n == 0) return;  // that is a request without a problem
      if (FormEnd(problem) == 0) must_fail = true;
    } else {
      f.truncate_at = x->arg % static_cast<int64_t>(f.content.size() + 1);
      if (FormEnd(f.content.substr(0, static_cast<size_t>(f.truncate_at))) == 0) must_fail = true;
    }
  }
  if (const sim::Fault* x = sim::OpFault(sim::kReadError)) {
    f.error_at = x->arg % static_cast<int64_t>(f.content.size() + 1);
    // Whoever has seen the whole form need not read on.
    if (static_cast<size_t>(f.error_at) < FormEnd(f.content) && f.truncate_at < 0) must_fail = true;
    may_fail = true;
  }
  if (const sim::Fault* x = sim::OpFault(sim::kShortReads)) df.max_read = pf.max_read = x->arg;
  if (const sim::Fault* x = sim::OpFault(sim::kEintr)) df.eintr_every = pf.eintr_every = x->arg;
  // A string that does not end in a bracket names a file.
  if (with_problem && !problem_file && problem.find_last_not_of(" \t\n\r") != std::string::npos &&
      problem[problem.find_last_not_of(" \t\n\r")] != ')')
    must_fail = true;
  const std::string label = "loading source " + std::to_string(&s - w->sources.data()) + " (" +
                            (mode == kString ? "string" : mode == kFile ? "file" : mode == kAlone ? "domain" : mode == kEmptyString ? "no problem text"
                             : mode == kNoDomainFile ? "no domain file" : mode == kNoProblemFile ? "no problem file" : mode == kEmptyDomain ? "empty domain"
                             : mode == kEmptyProblem ? "empty problem" : "wrong text") + (axioms ? ")" : ", as written)");
  LogS(label);
  auto publish = [&](const sim::FileSpec& d, const sim::FileSpec& p) {
    sim::FsPut(dn, d);
    sim::FsPut(pn, p);
  };
  const std::string d_arg = mode == kNoDomainFile ? "/simfs/nowhere.pddl" : dn;
  const std::string p_arg = mode == kEmptyString ? "" : mode == kNoProblemFile ? "/simfs/nowhere.pddl" : problem_file ? pn : problem;
  std::unique_ptr<symbolic::Pddl> loaded;
  auto load = [&] {
    if (mode == kAlone) loaded = std::make_unique<symbolic::Pddl>(d_arg);
    else loaded = std::make_unique<symbolic::Pddl>(d_arg, p_arg, axioms);
  };
  publish(df, pf);
  const Outcome o = Try(load);
  if (!o.ok()) {
    LogS(o.end == End::kNoMem ? "no memory" : o.what);
    if (!must_fail && !may_fail && !o.fault) {
      Bad("refused", label + " raised: " + o.what);
      return;
    }
    if (loaded != nullptr) {
      Bad("partial", label + " raised an error and yielded a problem");
      return;
    }
  } else {
    LogS("loaded");
    if (must_fail) {
      Bad("accepted", label + " succeeded although the text is not all there");
      return;
    }
    if (!CheckLoaded(*loaded, s, with_problem, axioms, label)) return;
    if (loaded->domain_pddl() != d_arg || loaded->problem_pddl() != (mode == kAlone ? "" : p_arg)) {
      Bad("not-as-described", label + ": it names other texts than those it was given");
      return;
    }
  }
  // Problems loaded before go on as if nothing had happened.
  CheckUntouched(w->resident, client, "after " + label);
  if (sim::CurrentRun()->failed()) return;
  static const Kinds kinds = {{kIsValidAction, 1}, {kNextState, 2}, {kListActions, 2}, {kGoal, 1}, {kPlan, 1}, {kClosure, 1}, {kTupleText, 1}, {kNormal, 1}};
  const Query q = DrawQuery(r, w->resident, client, kinds, false);
  if (q && !Answer(q, "after " + label)) return;
  // And the next load without a fault succeeds.
  const bool faulty = o.fault || must_fail || may_fail || f.open_errno != 0;
  if (!faulty) return;
  loaded.reset();
  publish({s.domain_text}, {s.problem_text});
  const std::string again = "after " + label + ": loading it whole";
  if (!Must("refused", again, [&] { loaded = std::make_unique<symbolic::Pddl>(dn, problem_file ? pn : s.problem_text, axioms); })) return;
  CheckLoaded(*loaded, s, true, axioms, again);
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  model::Options o;
  o.max_objects = 4;
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 24;
  o.max_preds = 4;
  o.max_actions = 3;
  o.max_depth = 1;
  o.max_facts = 24;
  if (rng.Chance(1, 3)) o.max_axioms = 2;
  if (rng.Chance(1, 3)) o.max_rules = 2;
  if (!BuildQWorld(run, &w->resident, o, rng.Range(1, 2))) return;
  for (int k = rng.Range(1, 2); k > 0; k--) w->sources.push_back(MakeSource(rng));
  // One client loads, the others use the problem that is already there.
  const int users = rng.Chance(2, 3) ? 0 : rng.Range(1, 2);
  NewOwn(&w->resident, 1 + users);
  run.AddClient();
  for (int k = users == 0 ? rng.Range(3, 8) : rng.Range(2, 4); k > 0; k--) {
    const uint64_t sub = rng.Next();
    sim::Op& op = run.AddOp(0, "load", [=] { Load(w.get(), 0, sub); });
    auto add = [&](sim::FaultKind kind, int64_t arg) {
      op.faults.push_back({kind, arg});
      run.Planned(kind);
    };
    if (rng.Chance(1, 5)) {
      static const int64_t errnos[] = {2, 13, 5, 23, 24, 12};  // ENOENT EACCES EIO ENFILE EMFILE ENOMEM
      add(sim::kOpenError, errnos[rng.Below(6)]);
    } else {
      if (rng.Chance(1, 3)) add(sim::kTruncate, static_cast<int64_t>(rng.Below(1 << 20)));
      if (rng.Chance(1, 4)) add(sim::kReadError, rng.Chance(1, 5) ? 0 : static_cast<int64_t>(rng.Below(1 << 20)));
      if (rng.Chance(1, 4)) add(sim::kShortReads, rng.Range(1, 300));
      if (rng.Chance(1, 5)) add(sim::kEintr, rng.Range(2, 4));
    }
    if (rng.Chance(1, 3)) add(sim::kAllocFail, static_cast<int64_t>(1 + rng.Below(uint64_t{1} << rng.Range(2, 12))));
  }
  static const Kinds kinds = {{kIsValidAction, 2}, {kNextState, 3}, {kListActions, 3}, {kGoal, 1}, {kPlan, 2}, {kClosure, 2}, {kOwnStep, 3}, {kTuple, 1}, {kDerived, 1}};
  for (int c = 1; c <= users; c++) {
    run.AddClient();
    for (int k = rng.Range(2, 5); k > 0; k--) {
      const uint64_t sub = rng.Next();
      run.AddOp(c, "query", [=] {
        Rng r(sub);
        const Query q = DrawQuery(r, w->resident, c, kinds, false);
        if (!q) return;
        LogS(q.label);
        if (!Answer(q)) return;
        if (q.commit) q.commit();
      });
    }
  }
  run.AtEnd([=] { CheckUntouched(w->resident, -1, "at the end"); });
}

sim::Register reg({"C11", Build,
                   "One run: one client loads 2-8 domains and problems (from files or strings, with and without a problem, whole, cut, "
                   "empty, missing, swapped) with open errors, read errors, short and interrupted reads, cuts at any byte and failing "
                   "allocations; each load must yield exactly the problem described or raise an error, and the next one without a "
                   "fault must succeed; up to two other clients query a problem loaded before meanwhile. Non-trivial: a fault fired.",
                   [](const sim::RunResult& r) {
                     uint64_t n = 0;
                     for (uint64_t f : r.faults_fired) n += f;
                     return n > 0;
                   },
                   {"src/pddl.cc", "src/object.cc", "src/action.cc", "src/axiom.cc", "src/derived_predicate.cc", "src/formula.cc",
                    "src/predicate.cc", "src/state.cc", "src/utils/parameter_generator.cc", "libstdc++ file streams"},
                   {"files (simulated, fault-injecting)", "allocator (fault-injecting)", "thread scheduler (seeded)", "VAL parser (stand-in)"},
                   {"the stand-in parser sets the domain and the problem only after a complete form without errors, and ends the "
                    "process on a failed read as flex does",
                    "one thread loads at a time"}});
}  // namespace
SIM_HARNESS_END
