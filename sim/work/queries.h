// Queries about one loaded problem, each with the answer the reference model gives. Shared by the
// checks of C01, C09, C10, C12 and C14.
#ifndef SIM_WORK_QUERIES_H_
#define SIM_WORK_QUERIES_H_

#include <algorithm>
#include <map>
#include <optional>

#include "model/model.h"
#include "symbolic/normal_form.h"
#include "symbolic/pddl.h"
#include "symbolic/planning/planner.h"
#include "work/common.h"

SIM_HARNESS_BEGIN
namespace simw {

inline std::string ShowFact(const symbolic::PropositionBase& f) {
  std::string s = f.name() + "(";
  for (size_t i = 0; i < f.arguments().size(); i++) s += (i ? ", " : "") + f.arguments()[i].name();
  return s + ")";
}
// Facts of a library state; empty and reported when it lists one twice.
inline std::set<std::string> FactsOf(const symbolic::State& s, const std::string& where) {
  std::set<std::string> t;
  for (const symbolic::Proposition& f : s) {
    const std::string x = ShowFact(f);
    if (!t.insert(x).second) Bad("twice", where + ": the state lists " + x + " twice");
    if (!s.contains(f)) Bad("lost", where + ": the state lists " + x + " but says it does not hold");
  }
  if (t.size() != s.size())
    Bad("count", where + ": a state of " + std::to_string(t.size()) + " facts has size " + std::to_string(s.size()));
  return t;
}

enum QueryKind {
  kIsValidAction = 0, kNextState, kApplyActions, kTuple, kTupleText, kPlan, kGoal, kGoalText, kListActions,
  kListActionsText, kListArguments, kListArgumentsText, kClosure, kValid, kPartialClosure, kPartialValid, kDerived,
  kActionValid, kActionApply, kActionPartialValid, kActionPartialApply, kGoalPartial, kNormal, kPrint, kFactText,
  kExpand, kCopyAction, kOwnStep, kOwnDerive, kAxiomApply, kParameters, kIndex, kSingleAxiom, kWalk, kNumQueryKinds
};

// One normalised condition, computed by a client that is alone.
struct Normal {
  int what = 0;  // 0: both conditions, 1: pre, 2: post, 3: goal
  std::string call;
  bool axioms = false;
  std::string answer;
};

struct QWorld {
  model::Problem p;
  std::unique_ptr<symbolic::Pddl> pddl;
  model::State init;
  std::vector<model::State> ms;  // shared states and what they contain
  std::vector<symbolic::State> rs;
  std::vector<model::Partial> mp;
  std::vector<symbolic::PartialState> rp;
  struct Own {
    model::State m;
    symbolic::State r;
  };
  std::vector<Own> own;  // per client: a state with a history
  std::vector<Normal> normals;

  symbolic::Proposition Fact(const model::Atom& a) const { return symbolic::Proposition(p.preds[a.pred].name, Objects(a.args)); }
  std::vector<symbolic::Object> Objects(const std::vector<int>& args) const {
    std::vector<symbolic::Object> v;
    for (int o : args) v.emplace_back(*pddl, p.objects[o]);
    return v;
  }
  symbolic::State Real(const model::State& s, Rng& rng) const {
    std::vector<model::Atom> order(s.begin(), s.end());
    rng.Shuffle(order);
    symbolic::State r;
    for (const model::Atom& a : order) r.insert(Fact(a));
    return r;
  }
  symbolic::PartialState Real(const model::Partial& s) const {
    symbolic::PartialState r;
    for (auto& f : s) {
      if (f.second) r.insert(Fact(f.first));
      else r.erase(Fact(f.first));
    }
    return r;
  }
  // The basic facts of a partial state in the model's terms; false if it is not one.
  bool Read(const symbolic::PartialState& s, const std::string& where, model::Partial* out) const {
    for (int neg = 0; neg < 2; neg++)
      for (const std::string& f : FactsOf(neg ? s.neg() : s.pos(), where)) {
        model::Atom a;
        if (!p.Parse(f, &a)) {
          Bad("fact", where + ": " + f + " is no fact of the problem");
          return false;
        }
        if (!out->emplace(a, neg == 0).second) {
          Bad("both", where + ": " + f + " is both true and false");
          return false;
        }
      }
    return true;
  }
  std::string Show(const model::Partial& s) const {
    std::string t;
    for (auto& f : s) t += (t.empty() ? "" : ", ") + std::string(f.second ? "" : "not ") + p.Show(f.first);
    return "{" + t + "}";
  }
};

struct Query {
  std::string label;
  bool bad = false;  // ill-formed: it must raise an error
  std::function<void()> call;   // inside the library
  std::function<void()> check;  // afterwards, outside; reports violations
  std::function<void()> drop;   // forgets the results
  std::function<void()> commit;  // moves the client's own state on, once the query is done with
  explicit operator bool() const { return static_cast<bool>(call); }
};

// ---- building the world
inline bool BuildQWorld(Run& run, QWorld* w, model::Options o, int shared_states) {
  Rng& rng = run.rng;
  for (int tries = 0;; tries++) {
    w->p = model::Problem::Random(rng, o);
    auto c = w->p.Closure(w->p.init);
    for (int again = 0; !c && again < 5; again++) {
      w->p.init.clear();
      for (const model::Atom& a : w->p.BasicAtoms())
        if (rng.Chance(1, 2 + again)) w->p.init.insert(a);
      c = w->p.Closure(w->p.init);
    }
    if (c) {
      w->init = w->p.Derive(*c);
      break;
    }
    if (tries > 30) o.max_axioms = 0;
  }
  if (rng.Chance(1, 3)) {
    // A goal that holds in some reachable state rather than a random one.
    model::State s = w->init;
    for (int steps = rng.Range(0, 3); steps > 0; steps--) {
      auto app = w->p.Applicable(s);
      if (app.empty()) break;
      auto& a = rng.Pick(app);
      auto n = w->p.Next(s, w->p.actions[a.first], a.second);
      if (!n) break;
      s = *n;
    }
    model::Goal g;
    g.kind = model::Goal::kAnd;
    for (const model::Atom& a : w->p.AllAtoms()) {
      if (!rng.Chance(1, 4)) continue;
      model::Goal k;
      k.kind = model::Goal::kAtom;
      k.pred = a.pred;
      for (int x : a.args) {
        model::Term t;
        t.obj = x;
        k.terms.push_back(t);
      }
      if (s.count(a) > 0) {
        g.kids.push_back(k);
      } else {
        model::Goal n;
        n.kind = model::Goal::kNot;
        n.kids.push_back(k);
        g.kids.push_back(n);
      }
    }
    w->p.goal = g;
  }
  sim::FsPut("/simfs/d.pddl", {w->p.DomainText()});
  const bool file = rng.Chance(1, 4);
  if (file) sim::FsPut("/simfs/p.pddl", {w->p.ProblemText()});
  if (!Must("load", "loading the problem", [&] {
        w->pddl = std::make_unique<symbolic::Pddl>("/simfs/d.pddl", file ? "/simfs/p.pddl" : w->p.ProblemText());
      }))
    return false;
  const auto init = FactsOf(w->pddl->initial_state(), "the initial state");
  if (init != w->p.Strings(w->init)) {
    Bad("initial-state", "the initial state is {" + Join(init) + "} instead of " + w->p.Show(w->init));
    return false;
  }
  for (int k = 0; k < shared_states; k++) {
    model::State s = w->init;
    if (k > 0 && rng.Chance(1, 2)) {
      s = w->p.RandomState(rng, rng.Chance(1, 2));
    } else if (k > 0) {
      for (int steps = rng.Range(1, 5); steps > 0; steps--) {
        auto app = w->p.Applicable(s);
        if (app.empty()) break;
        auto& a = rng.Pick(app);
        auto n = w->p.Next(s, w->p.actions[a.first], a.second);
        if (!n) break;
        s = *n;
      }
    }
    w->ms.push_back(s);
    w->rs.push_back(w->Real(s, rng));
    model::Partial ps;
    const int known = rng.Chance(1, 4) ? 100 : rng.Range(20, 95);
    for (const model::Atom& a : w->p.BasicAtoms())
      if (rng.Range(0, 99) < known) ps[a] = s.count(a) > 0;
    if (known == 100)
      for (const model::Atom& a : w->p.AllAtoms()) ps[a] = s.count(a) > 0;
    w->mp.push_back(ps);
    w->rp.push_back(w->Real(ps));
  }
  return true;
}

// Size of the disjunctive normal form the library would build, before simplification.
struct DnfSize {
  double c = 1, l = 1;
};
inline DnfSize SizeOf(const model::Problem& p, const model::Goal& g) {
  DnfSize s;
  switch (g.kind) {
    case model::Goal::kAtom:
    case model::Goal::kEq:
    case model::Goal::kType:
      return s;
    case model::Goal::kNot: {
      const DnfSize k = SizeOf(p, g.kids[0]);
      s.c = std::pow(std::max(1.0, k.l), k.c);
      s.l = k.c;
      return s;
    }
    case model::Goal::kAnd:
      s.l = 0;
      for (const model::Goal& k : g.kids) {
        const DnfSize t = SizeOf(p, k);
        s.c *= std::max(1.0, t.c);
        s.l += t.l;
      }
      return s;
    case model::Goal::kOr:
      s.c = 0;
      for (const model::Goal& k : g.kids) {
        const DnfSize t = SizeOf(p, k);
        s.c += t.c;
        s.l = std::max(s.l, t.l);
      }
      return s;
    case model::Goal::kForall:
    case model::Goal::kExists: {
      double n = 1;
      for (int t : g.vars) n *= static_cast<double>(p.ObjectsOf(t).size());
      const DnfSize t = SizeOf(p, g.kids[0]);
      if (g.kind == model::Goal::kForall) {
        s.c = std::pow(std::max(1.0, t.c), n);
        s.l = t.l * n;
      } else {
        s.c = t.c * n;
        s.l = t.l;
      }
      return s;
    }
  }
  return s;
}
inline DnfSize SizeOf(const model::Problem& p, const std::vector<model::Effect>& es) {
  DnfSize s;
  s.l = 0;
  for (const model::Effect& e : es) {
    DnfSize t;
    if (e.kind == model::Effect::kForall) {
      const DnfSize k = SizeOf(p, e.kids);
      const double n = static_cast<double>(p.ObjectsOf(e.vars[0]).size());
      t.c = std::pow(std::max(1.0, k.c), n);
      t.l = k.l * n;
    } else if (e.kind == model::Effect::kWhen) {
      const DnfSize k = SizeOf(p, e.kids), q = SizeOf(p, e.cond);
      t.c = k.c + std::pow(std::max(1.0, q.l), q.c);
      t.l = std::max(k.l, q.c);
    }
    s.c *= std::max(1.0, t.c);
    s.l += t.l;
  }
  return s;
}
inline bool Small(const DnfSize& s) { return s.c <= 48 && s.l <= 24; }

inline std::string Normalise(const symbolic::Pddl& pddl, const Normal& n) {
  using symbolic::DisjunctiveFormula;
  auto show = [](const std::optional<DisjunctiveFormula>& d) -> std::string {
    if (!d) return "never";
    std::set<std::string> terms;
    for (const auto& conj : d->conjunctions) {
      std::set<std::string> facts;
      for (const auto& f : conj.pos()) facts.insert(ShowFact(f));
      for (const auto& f : conj.neg()) facts.insert("not " + ShowFact(f));
      terms.insert("[" + Join(facts) + "]");
    }
    return std::to_string(d->conjunctions.size()) + ": " + Join(terms, " or ");
  };
  std::optional<DisjunctiveFormula> a, b;
  std::string extra;
  std::optional<std::pair<DisjunctiveFormula, DisjunctiveFormula>> both;
  try {
    if (n.what == 0) both = DisjunctiveFormula::NormalizeConditions(pddl, n.call, n.axioms);
    if (n.what == 1) a = DisjunctiveFormula::NormalizePreconditions(pddl, n.call, n.axioms);
    if (n.what == 2) a = DisjunctiveFormula::NormalizePostconditions(pddl, n.call, n.axioms);
    if (n.what == 3) a = DisjunctiveFormula::NormalizeGoal(pddl, n.axioms);
  } catch (const std::bad_alloc&) {
    throw;
  } catch (const std::runtime_error& e) {
    // Contradictory conditions are refused; who asks when makes no difference.
    return "refused";
  }
  sim::Outside out;
  if (n.what == 0) return !both ? "never" : show(both->first) + " | " + show(both->second);
  return show(a);
}

inline bool AddNormals(Run& run, QWorld* w, int count) {
  Rng& rng = run.rng;
  for (int k = 0; k < count; k++) {
    Normal n;
    n.what = rng.Range(0, 3);
    n.axioms = rng.Chance(1, 3);
    if (n.what == 3) {
      if (!Small(SizeOf(w->p, w->p.goal))) continue;
    } else {
      if (w->p.actions.empty()) continue;
      const model::Action& a = rng.Pick(w->p.actions);
      const auto args = w->p.Args(a.params);
      if (args.empty() || !Small(SizeOf(w->p, a.pre)) || !Small(SizeOf(w->p, a.effects))) continue;
      n.call = w->p.Call(a, args[rng.Below(args.size())]);
    }
    if (!Must("normalise", "normalising conditions alone", [&] { n.answer = Normalise(*w->pddl, n); })) return false;
    w->normals.push_back(n);
  }
  return true;
}

// ---- action calls, well-formed and ill-formed
struct CallText {
  std::string text;
  int action = -1;
  std::vector<int> args;
  bool bad = false;
  std::string Name() const { return text.substr(0, text.find('(')); }
};
inline bool SomeCall(Rng& r, const QWorld& w, bool bad, const model::State* prefer, CallText* out) {
  const model::Problem& p = w.p;
  *out = CallText();
  if (!bad && prefer != nullptr && r.Chance(2, 3)) {
    auto app = p.Applicable(*prefer);
    if (!app.empty()) {
      auto& a = r.Pick(app);
      out->action = a.first;
      out->args = a.second;
      out->text = p.Call(p.actions[a.first], a.second);
      return true;
    }
  }
  if (p.actions.empty()) return false;
  out->action = static_cast<int>(r.Below(p.actions.size()));
  const model::Action& a = p.actions[out->action];
  const auto all = p.Args(a.params);
  if (all.empty() && !bad) return false;
  if (!all.empty()) out->args = all[r.Below(all.size())];
  std::string name = a.name;
  std::vector<std::string> words;
  for (int o : out->args) words.push_back(p.objects[o]);
  if (bad) {
    out->bad = true;
    int how = r.Range(0, 4);
    if (how == 3) {
      // An object of another type, if there is one.
      std::vector<std::pair<size_t, std::string>> wrong;
      for (size_t k = 0; k < words.size(); k++)
        for (size_t o = 0; o < p.objects.size(); o++)
          if (!p.IsA(static_cast<int>(o), a.params[k])) wrong.push_back({k, p.objects[o]});
      if (wrong.empty()) {
        how = 4;
      } else {
        auto& x = r.Pick(wrong);
        words[x.first] = x.second;
      }
    }
    if (how == 0 || (words.size() != a.params.size() && how < 4)) {
      static const char* const names[] = {"no_such_action", "", "a", "p0"};
      name = names[r.Below(4)];
      if (r.Chance(1, 3)) name = a.name + "x";
      for (const model::Action& other : p.actions)
        if (name == other.name) name = "no_such_action";
    } else if (how == 1) {
      if (words.empty()) words.push_back("nobody");
      else words[r.Below(words.size())] = r.Chance(1, 2) ? "nobody" : "p0";
    } else if (how == 2) {
      if (words.empty()) words.push_back(p.objects[0]);
      else words.pop_back();
    } else if (how == 4) {
      words.push_back(p.objects[r.Below(p.objects.size())]);
      if (words.size() == a.params.size()) words.push_back(p.objects[0]);
    }
  }
  static const char* const seps[] = {", ", ",", " , ", " "};
  const char* sep = seps[r.Chance(1, 2) ? 0 : r.Below(4)];
  out->text = name + "(" + Join(words, sep) + ")";
  return true;
}

// A set of fact strings with one that cannot be read.
inline std::set<std::string> BadFacts(Rng& r, const QWorld& w, std::set<std::string> facts) {
  const std::string pred = w.p.preds.empty() ? "p0" : w.p.preds[r.Below(w.p.preds.size())].name;
  facts.insert(pred + "(nobody)");
  if (r.Chance(1, 2)) facts.insert("zzz(nobody, " + w.p.objects[0] + ")");
  return facts;
}

inline std::string Code(int c) { return c == 0 ? "no change" : c == 1 ? "facts became known" : c == 2 ? "facts flipped" : std::to_string(c); }

// What a query asks in place of the problem's own things, if set.
struct Instead {
  const symbolic::Action* action = nullptr;
  int number = 0;  // which action it is
  const symbolic::Formula* goal = nullptr;
  const symbolic::StateIndex* index = nullptr;
  const std::vector<symbolic::DerivedPredicate>* rules = nullptr;
  std::string name;  // for messages
};

// Makes a query for a client. Nothing (an empty one) if the kind does not apply here.
inline Query MakeQuery(Rng& r, QWorld& w, int client, int kind, bool bad, const Instead& instead = Instead()) {
  using symbolic::Action;
  using symbolic::Object;
  using symbolic::PartialState;
  using symbolic::Proposition;
  using symbolic::State;
  const model::Problem& p = w.p;
  const symbolic::Pddl& pddl = *w.pddl;
  Query q;
  const bool asked_bad = bad;
  const size_t k = r.Below(w.ms.size() + 1);
  const bool own = k == w.ms.size() && client >= 0 && client < static_cast<int>(w.own.size());
  const size_t at = k == w.ms.size() ? 0 : k;
  const model::State& ms = own ? w.own[client].m : w.ms[at];
  const State& rs = own ? w.own[client].r : w.rs[at];
  const model::Partial& mp = w.mp[at];
  const PartialState& rp = w.rp[at];
  const std::string on = own ? "its own state" : "state " + std::to_string(at);

  auto facts = [](const State& s, const std::string& where) { return FactsOf(s, where); };
  // A state as answer.
  auto state_query = [&](const std::string& label, std::function<State()> f, const model::State& want) {
    auto got = std::make_shared<std::optional<State>>();
    const auto want_facts = p.Strings(want);
    q.label = label;
    q.call = [=] { *got = f(); };
    q.check = [=] {
      const auto have = facts(**got, label);
      LogS(Join(have));
      if (have != want_facts) Bad("state", label + " gives {" + Join(have) + "} instead of {" + Join(want_facts) + "}");
    };
    q.drop = [=] { got->reset(); };
  };
  auto bool_query = [&](const std::string& label, std::function<bool()> f, bool want) {
    auto got = std::make_shared<bool>(false);
    q.label = label;
    q.call = [=] { *got = f(); };
    q.check = [=] {
      LogN(*got);
      if (*got != want) Bad("answer", label + " says " + (*got ? "yes" : "no") + " instead of " + (want ? "yes" : "no"));
    };
  };
  // A listing as answer, in any order.
  auto list_query = [&](const std::string& label, std::function<std::vector<std::string>()> f, std::vector<std::string> want) {
    auto got = std::make_shared<std::vector<std::string>>();
    std::sort(want.begin(), want.end());
    q.label = label;
    q.call = [=] { *got = f(); };
    q.check = [=] {
      std::vector<std::string> have = *got;
      std::sort(have.begin(), have.end());
      LogS(Join(have));
      if (have != want) Bad("listing", label + " lists {" + Join(have) + "} instead of {" + Join(want) + "}");
    };
    q.drop = [=] { std::vector<std::string>().swap(*got); };
  };
  // For the evidence: steps in which axioms or rules had something to do.
  auto note = [&](const model::Action& a, const std::vector<int>& args, const model::State& from, const model::State& to) {
    if (p.axioms.empty() && p.rules.empty()) return;
    model::Problem bare = p;
    bare.axioms.clear();
    const auto n = bare.ApplyBasic(from, a, args);
    const auto m = p.ApplyBasic(from, a, args);
    if (n && m && *n != *m) sim::CurrentRun()->Probe("step in which axioms changed facts");
    size_t gone = 0, come = 0;
    for (const model::Atom& x : from) gone += p.preds[x.pred].stratum > 0 && to.count(x) == 0;
    for (const model::Atom& x : to) come += p.preds[x.pred].stratum > 0 && from.count(x) == 0;
    if (gone > 0) sim::CurrentRun()->Probe("step that ended derived facts");
    if (come > 0) sim::CurrentRun()->Probe("step that brought derived facts");
  };
  auto any_args = [&](const model::Action& a, std::vector<int>* args) {
    const auto all = p.Args(a.params);
    if (all.empty()) return false;
    *args = all[r.Below(all.size())];
    return true;
  };
  auto some_action = [&] { return instead.action != nullptr ? instead.number : static_cast<int>(r.Below(p.actions.size())); };
  const symbolic::Formula* goal_formula = instead.goal != nullptr ? instead.goal : &pddl.goal();
  const symbolic::StateIndex* index = instead.index != nullptr ? instead.index : &pddl.state_index();
  auto real_action = [&](int a) -> const Action* {
    if (instead.action != nullptr) return instead.action;
    for (const Action& x : pddl.actions())
      if (x.name() == p.actions[a].name) return &x;
    Bad("actions", "the problem has no action " + p.actions[a].name);
    return nullptr;
  };
  auto names = [](const std::vector<std::vector<Object>>& v) {
    std::vector<std::string> s;
    for (auto& args : v) {
      std::string t;
      for (auto& o : args) t += (t.empty() ? "" : ", ") + o.name();
      s.push_back(t);
    }
    return s;
  };
  auto model_names = [&](const std::vector<int>& args) {
    std::string t;
    for (int o : args) t += (t.empty() ? "" : ", ") + p.objects[o];
    return t;
  };
  CallText c;

  switch (kind) {
    case kIsValidAction: {
      if (!SomeCall(r, w, bad, r.Chance(1, 2) ? &ms : nullptr, &c)) return q;
      bool_query("validity of " + c.text + " in " + on, [=, &pddl, &rs] { return pddl.IsValidAction(rs, c.text); },
                 !bad && p.IsApplicable(ms, p.actions[c.action], c.args));
      break;
    }
    case kNextState: {
      if (!SomeCall(r, w, bad, &ms, &c)) return q;
      model::State want;
      if (!bad) {
        auto n = p.Next(ms, p.actions[c.action], c.args, &bad);
        if (!n && !bad) return q;
        if (n) {
          want = *n;
          note(p.actions[c.action], c.args, ms, want);
        }
      }
      state_query("next state after " + c.text + " in " + on, [=, &pddl, &rs] { return pddl.NextState(rs, c.text); }, want);
      break;
    }
    case kApplyActions: {
      std::vector<std::string> calls;
      model::State s = ms;
      const int n = r.Range(bad ? 1 : 0, 4), bad_at = bad ? r.Range(0, n - 1) : -1;
      for (int i = 0; i < n; i++) {
        if (!SomeCall(r, w, i == bad_at, &s, &c)) return q;
        calls.push_back(c.text);
        if (i == bad_at) break;
        bool forbidden = false;
        auto x = p.Next(s, p.actions[c.action], c.args, &forbidden);
        if (!x && !forbidden) return q;
        if (!x) {
          bad = true;
          break;
        }
        s = *x;
      }
      state_query("state after [" + Join(calls) + "] from " + on, [=, &pddl, &rs] { return pddl.ApplyActions(rs, calls); }, s);
      break;
    }
    case kTuple:
    case kTupleText: {
      const bool text = kind == kTupleText;
      const bool bad_state = bad && text && r.Chance(1, 2);
      if (!SomeCall(r, w, bad && !bad_state, &ms, &c)) return q;
      model::State next = ms;
      bool want = false;
      if (!c.bad) {
        auto n = p.Next(ms, p.actions[c.action], c.args);
        if (!n) return q;
        next = *n;
        want = p.IsApplicable(ms, p.actions[c.action], c.args);
        const auto all = p.AllAtoms();
        if (r.Chance(1, 3) && !all.empty()) {
          const model::Atom& x = all[r.Below(all.size())];
          if (!next.insert(x).second) next.erase(x);
          want = false;
        }
      }
      if (!text) {
        auto rn = std::make_shared<State>(w.Real(next, r));
        bool_query("validity of the step " + c.text + " from " + on, [=, &pddl, &rs] { return pddl.IsValidTuple(rs, c.text, *rn); }, want);
      } else {
        std::set<std::string> a = p.Strings(ms), b = p.Strings(next);
        if (bad_state) (r.Chance(1, 2) ? a : b) = BadFacts(r, w, a);
        bool_query("validity of the written step " + c.text + " from " + on, [=, &pddl] { return pddl.IsValidTuple(a, c.text, b); }, want);
      }
      break;
    }
    case kPlan: {
      std::vector<std::string> plan;
      model::State s = w.init;
      bool valid = true, throws = false;
      const int n = r.Range(bad ? 1 : 0, 5), bad_at = bad ? r.Range(0, n - 1) : -1;
      for (int i = 0; i < n; i++) {
        if (!SomeCall(r, w, i == bad_at, r.Chance(7, 8) ? &s : nullptr, &c)) return q;
        plan.push_back(c.text);
        if (!valid || throws) continue;
        if (c.bad) {
          throws = true;
          continue;
        }
        valid = p.IsApplicable(s, p.actions[c.action], c.args);
        if (!valid) continue;
        auto x = p.Next(s, p.actions[c.action], c.args);
        if (!x) return q;
        s = *x;
      }
      bad = throws;  // an ill-formed step after an invalid one need not be looked at
      if (bad_at >= 0 && !throws) return q;
      bool_query("validity of the plan [" + Join(plan) + "]", [=, &pddl] { return pddl.IsValidPlan(plan); },
                 valid && p.Holds(p.goal, {}, s));
      break;
    }
    case kGoal:
      if (bad) return q;
      if (instead.goal != nullptr)
        bool_query(instead.name + " in " + on, [=, &rs] { return (*goal_formula)(rs); }, p.Holds(p.goal, {}, ms));
      else
        bool_query("goal in " + on, [=, &pddl, &rs] { return pddl.IsGoalSatisfied(rs); }, p.Holds(p.goal, {}, ms));
      break;
    case kGoalText: {
      std::set<std::string> s = p.Strings(ms);
      if (bad) s = BadFacts(r, w, s);
      bool_query("goal in the written " + on, [=, &pddl] { return pddl.IsGoalSatisfied(s); }, p.Holds(p.goal, {}, ms));
      break;
    }
    case kListActions:
    case kListActionsText: {
      if (bad && kind == kListActions) return q;
      std::vector<std::string> want;
      for (auto& a : p.Applicable(ms)) want.push_back(p.Call(p.actions[a.first], a.second));
      if (kind == kListActions) {
        list_query("valid actions in " + on, [=, &pddl, &rs] { return pddl.ListValidActions(rs); }, want);
      } else {
        std::set<std::string> s = p.Strings(ms);
        if (bad) s = BadFacts(r, w, s);
        list_query("valid actions in the written " + on, [=, &pddl] { return pddl.ListValidActions(s); }, want);
      }
      break;
    }
    case kListArguments:
    case kListArgumentsText: {
      if (p.actions.empty() || (bad && kind == kListArguments)) return q;
      const int a = static_cast<int>(r.Below(p.actions.size()));
      std::vector<std::string> want;
      for (auto& args : p.Args(p.actions[a].params))
        if (p.IsApplicable(ms, p.actions[a], args)) want.push_back(model_names(args));
      if (kind == kListArguments) {
        const Action* action = real_action(a);
        if (action == nullptr) return q;
        list_query("valid arguments of " + p.actions[a].name + " in " + on,
                   [=, &pddl, &rs] {
                     const auto v = pddl.ListValidArguments(rs, *action);
                     sim::Outside out;
                     return names(v);
                   },
                   want);
      } else {
        std::set<std::string> s = p.Strings(ms);
        std::string name = p.actions[a].name;
        if (bad && r.Chance(1, 2)) name = r.Chance(1, 2) ? "no_such_action" : "";
        else if (bad) s = BadFacts(r, w, s);
        list_query("valid arguments of " + name + " in the written " + on,
                   [=, &pddl] {
                     const auto v = pddl.ListValidArguments(s, name);
                     sim::Outside out;
                     std::vector<std::string> t;
                     for (auto& x : v) t.push_back(Join(x));
                     return t;
                   },
                   want);
      }
      break;
    }
    case kClosure: {
      if (bad) return q;
      auto cl = p.Closure(ms, &bad);
      if (!cl && !bad) return q;
      state_query("axiom closure of " + on, [=, &pddl, &rs] { return pddl.ConsistentState(rs); }, cl ? *cl : ms);
      break;
    }
    case kValid:
      if (bad) return q;
      bool_query("axiom validity of " + on, [=, &pddl, &rs] { return pddl.IsValidState(rs); }, p.SatisfiesAxioms(ms));
      break;
    case kPartialClosure: {
      if (bad) return q;
      const auto want = p.Chase(mp);
      auto got = std::make_shared<std::optional<PartialState>>();
      const std::string label = "axiom closure of partial state " + std::to_string(at);
      q.label = label;
      q.bad = !want.has_value();
      q.call = [=, &pddl, &rp] { *got = pddl.ConsistentState(rp); };
      q.check = [=, &w] {
        model::Partial have;
        if (!w.Read(**got, label, &have)) return;
        LogS(w.Show(have));
        if (have != *want) Bad("partial", label + " gives " + w.Show(have) + " instead of " + w.Show(*want));
      };
      q.drop = [=] { got->reset(); };
      return q;
    }
    case kPartialValid:
      if (bad) return q;
      bool_query("axiom validity of partial state " + std::to_string(at), [=, &pddl, &rp] { return pddl.IsValidState(rp); },
                 p.Chase(mp).has_value());
      break;
    case kDerived:
      if (bad) return q;
      if (const auto* rules = instead.rules) {
        state_query("derived facts of " + on, [=, &rs] {
          State copy = rs;
          const bool told = symbolic::DerivedPredicate::Apply(*rules, &copy);
          if (told != (copy != rs)) throw std::logic_error("it is reported as the opposite of what it did");
          return copy;
        }, p.Derive(ms));
        break;
      }
      if (!p.rules.empty() && pddl.derived_predicates().size() == p.rules.size() && r.Chance(1, 4)) {
        // One rule on its own, which takes all other facts as they are.
        const size_t i = r.Below(p.rules.size());
        const model::Rule& rule = p.rules[i];
        model::State n = ms;
        for (bool more = true; more;) {
          more = false;
          for (const auto& args : p.Args(p.preds[rule.pred].params))
            if (n.count({rule.pred, args}) == 0 && p.Holds(rule.body, args, n)) more = n.insert({rule.pred, args}).second;
        }
        state_query("rule " + std::to_string(i) + " alone on " + on, [=, &pddl, &rs] {
          State copy = rs;
          const bool told = pddl.derived_predicates()[i].Apply(&copy);
          if (told != (copy != rs)) throw std::logic_error("it is reported as the opposite of what it did");
          return copy;
        }, n);
        break;
      }
      state_query("derived facts of " + on, [=, &pddl, &rs] { return pddl.DerivedState(rs); }, p.Derive(ms));
      break;
    case kActionValid:
    case kActionApply: {
      if (bad || p.actions.empty()) return q;
      const int a = some_action();
      std::vector<int> args;
      if (!any_args(p.actions[a], &args)) return q;
      const Action* action = real_action(a);
      if (action == nullptr) return q;
      auto objs = std::make_shared<std::vector<Object>>(w.Objects(args));
      const std::string call = p.Call(p.actions[a], args);
      if (kind == kActionValid) {
        bool_query("precondition of " + call + " in " + on, [=, &rs] { return action->IsValid(rs, *objs); },
                   p.IsApplicable(ms, p.actions[a], args));
        break;
      }
      auto n = p.ApplyBasic(ms, p.actions[a], args, &bad);
      if (!n && !bad) return q;
      if (!n) n = ms;
      if (r.Chance(1, 2)) {
        state_query("effect of " + call + " on " + on, [=, &rs] { return action->Apply(rs, *objs); }, *n);
        break;
      }
      const bool want = *n != ms;
      const auto want_facts = p.Strings(*n);
      auto got = std::make_shared<std::optional<State>>();
      auto changed = std::make_shared<bool>(false);
      const std::string label = "effect of " + call + " in place on a copy of " + on;
      q.label = label;
      q.call = [=, &rs] {
        *got = rs;
        *changed = action->Apply(*objs, &**got);
      };
      q.check = [=] {
        const auto have = facts(**got, label);
        LogS(Join(have));
        LogN(*changed);
        if (have != want_facts) Bad("state", label + " gives {" + Join(have) + "} instead of {" + Join(want_facts) + "}");
        if (*changed != want) Bad("changed", label + (want ? " changes the state but says it does not" : " changes nothing but says it does"));
      };
      q.drop = [=] { got->reset(); };
      break;
    }
    case kActionPartialValid:
    case kGoalPartial: {
      if (bad) return q;
      const model::Goal* goal = &p.goal;
      std::vector<int> args;
      std::function<std::optional<bool>()> f;
      std::string what = "the goal";
      if (kind == kActionPartialValid) {
        if (p.actions.empty()) return q;
        const int a = some_action();
        if (!any_args(p.actions[a], &args)) return q;
        const Action* action = real_action(a);
        if (action == nullptr) return q;
        auto objs = std::make_shared<std::vector<Object>>(w.Objects(args));
        goal = &p.actions[a].pre;
        what = "the precondition of " + p.Call(p.actions[a], args);
        f = [=, &rp] { return action->IsValid(rp, *objs); };
      } else {
        f = [=, &rp] { return (*goal_formula)(rp); };
      }
      const std::string label = what + " in partial state " + std::to_string(at);
      // Sample completions; with everything known there is only one.
      bool some_true = false, some_false = false, total = true;
      // Facts about removed objects may still be asked for; they are known to no one.
      for (size_t o = 0; o < p.objects.size(); o++) total = total && p.Alive(static_cast<int>(o));
      for (int n = 0; n < 6; n++) {
        model::State s;
        for (const model::Atom& x : p.AllAtoms()) {
          auto it = mp.find(x);
          if (it == mp.end()) total = false;
          if (it == mp.end() ? n > 1 ? r.Chance(1, 2) : n == 1 : it->second) s.insert(x);
        }
        (p.Holds(*goal, args, s) ? some_true : some_false) = true;
        if (total) break;
      }
      auto got = std::make_shared<std::optional<bool>>();
      q.label = label;
      q.call = [=] { *got = f(); };
      q.check = [=] {
        LogN(got->has_value() ? **got : 2);
        if (!got->has_value()) {
          if (total) Bad("unknown", label + " is unknown although every fact is known");
        } else if (**got ? some_false : some_true) {
          Bad("unsound", label + " is " + (**got ? "true" : "false") + " although a completion makes it " + (**got ? "false" : "true"));
        }
      };
      break;
    }
    case kActionPartialApply: {
      if (bad || p.actions.empty()) return q;
      const int a = some_action();
      std::vector<int> args;
      if (!any_args(p.actions[a], &args)) return q;
      auto n = p.ApplyPartial(mp, p.actions[a], args, &bad);
      const Action* action = real_action(a);
      if ((!n && !bad) || action == nullptr) return q;
      if (!n) n = mp;
      int want_code = 0;
      for (auto& f : *n) {
        auto it = mp.find(f.first);
        if (it == mp.end()) want_code = std::max(want_code, 1);
        else if (it->second != f.second) want_code = 2;
      }
      auto objs = std::make_shared<std::vector<Object>>(w.Objects(args));
      auto got = std::make_shared<std::optional<PartialState>>();
      auto code = std::make_shared<int>(-1);
      const bool in_place = r.Chance(2, 3);
      const std::string label = "effect of " + p.Call(p.actions[a], args) + " on partial state " + std::to_string(at);
      const model::Partial want = *n;
      q.label = label;
      q.call = [=, &rp] {
        if (in_place) {
          *got = rp;
          *code = action->Apply(*objs, &**got);
        } else {
          *got = action->Apply(rp, *objs);
        }
      };
      q.check = [=, &w] {
        model::Partial have;
        if (!w.Read(**got, label, &have)) return;
        LogS(w.Show(have));
        if (have != want) Bad("partial", label + " gives " + w.Show(have) + " instead of " + w.Show(want));
        if (in_place && *code != want_code)
          Bad("changed", label + " reports \"" + Code(*code) + "\" instead of \"" + Code(want_code) + "\"");
      };
      q.drop = [=] { got->reset(); };
      break;
    }
    case kNormal: {
      if (bad) {
        if (!SomeCall(r, w, true, nullptr, &c)) return q;
        Normal n;
        n.what = r.Range(0, 2);
        n.call = c.text;
        auto got = std::make_shared<std::string>();
        q.label = "normalised conditions of " + c.text;
        q.call = [=, &pddl] {
          if (n.what == 0) (void)symbolic::DisjunctiveFormula::NormalizeConditions(pddl, n.call);
          if (n.what == 1) (void)symbolic::DisjunctiveFormula::NormalizePreconditions(pddl, n.call);
          if (n.what == 2) (void)symbolic::DisjunctiveFormula::NormalizePostconditions(pddl, n.call);
        };
        q.check = [] {};
        break;
      }
      if (w.normals.empty()) return q;
      const Normal n = r.Pick(w.normals);
      auto got = std::make_shared<std::string>();
      const std::string label = n.what == 3 ? std::string("normalised goal") : "normalised conditions of " + n.call;
      q.label = label;
      q.call = [=, &pddl] { *got = Normalise(pddl, n); };
      q.check = [=] {
        LogS(*got);
        if (*got != n.answer) Bad("normal-form", label + ": " + *got + " instead of " + n.answer);
      };
      q.drop = [=] { std::string().swap(*got); };
      break;
    }
    case kPrint: {
      if (bad) return q;
      const int what = r.Range(0, 3);
      std::vector<std::string> want;
      if (what == 0) {
        for (auto& f : p.Strings(ms)) want.push_back(f);
        list_query("text of " + on, [=, &rs] {
          const auto s = symbolic::Stringify(rs);
          return std::vector<std::string>(s.begin(), s.end());
        }, want);
      } else if (what == 1) {
        for (auto& f : p.Strings(ms)) want.push_back(f);
        list_query("text of " + on, [=, &rs] {
          const auto s = rs.Stringify();
          return std::vector<std::string>(s.begin(), s.end());
        }, want);
      } else if (what == 2) {
        for (auto& a : p.actions) want.push_back(a.name);
        list_query("names of the actions", [=, &pddl] { return symbolic::Stringify(pddl.actions()); }, want);
      } else {
        for (int x : p.ObjectsOf(-1)) want.push_back(p.objects[x]);
        list_query("names of the objects", [=, &pddl] { return symbolic::Stringify(pddl.objects()); }, want);
      }
      break;
    }
    case kFactText: {
      const auto all = p.AllAtoms();
      if (all.empty()) return q;
      const model::Atom& a = all[r.Below(all.size())];
      std::string text = p.Show(a);
      if (bad) text = p.preds[a.pred].name + "(nobody)";
      auto got = std::make_shared<std::string>();
      auto eq = std::make_shared<bool>(false);
      auto twin = std::make_shared<Proposition>(w.Fact(a));
      const std::string want = p.Show(a), label = "reading and writing " + text;
      q.label = label;
      q.call = [=, &pddl] {
        const Proposition f(pddl, text);
        *eq = f == *twin && f.hash() == twin->hash();
        *got = f.to_string();
      };
      q.check = [=] {
        LogS(*got);
        if (*got != want || !*eq) Bad("fact-text", label + " gives " + *got + (*eq ? "" : ", a different fact"));
      };
      q.drop = [=] { std::string().swap(*got); };
      break;
    }
    case kExpand: {
      if (bad) return q;
      std::map<std::string, std::set<std::string>> want;
      // A search first makes its start consistent.
      const auto closed = p.Closure(w.init);
      if (!closed) return q;
      const model::State root = p.Derive(*closed);
      for (auto& a : p.Applicable(root)) {
        auto n = p.Next(root, p.actions[a.first], a.second);
        if (!n) return q;
        if (*n != root) want[p.Call(p.actions[a.first], a.second)] = p.Strings(*n);
      }
      auto got = std::make_shared<std::map<std::string, std::set<std::string>>>();
      auto twice = std::make_shared<bool>(false);
      const std::string label = "successors of the root of a search";
      q.label = label;
      q.call = [=, &pddl] {
        got->clear();
        *twice = false;
        symbolic::Planner planner(pddl);
        const symbolic::Planner::Node& root = planner.root();
        for (const symbolic::Planner::Node& n : root) {
          sim::Outside out;
          if (!got->emplace(n.action(), FactsOf(n.state(), label)).second) *twice = true;
        }
      };
      q.check = [=] {
        for (auto& g : *got) LogS(g.first);
        if (*twice) Bad("expand", label + ": an action is listed twice");
        for (auto& x : *got) {
          auto it = want.find(x.first);
          if (it == want.end()) Bad("expand", label + ": " + x.first + " should not be there");
          else if (it->second != x.second)
            Bad("expand", label + ": " + x.first + " leads to {" + Join(x.second) + "} instead of {" + Join(it->second) + "}");
        }
        for (auto& x : want)
          if (got->count(x.first) == 0) Bad("expand", label + ": " + x.first + " is missing");
      };
      q.drop = [=] { got->clear(); };
      break;
    }
    case kCopyAction: {
      if (bad || p.actions.empty()) return q;
      const int a = static_cast<int>(r.Below(p.actions.size()));
      std::vector<int> args;
      if (!any_args(p.actions[a], &args)) return q;
      const Action* action = real_action(a);
      auto n = p.ApplyBasic(ms, p.actions[a], args);
      if (!n || action == nullptr) return q;
      auto objs = std::make_shared<std::vector<Object>>(w.Objects(args));
      auto got = std::make_shared<std::optional<State>>();
      auto valid = std::make_shared<bool>(false);
      const bool want = p.IsApplicable(ms, p.actions[a], args);
      const auto want_facts = p.Strings(*n);
      const std::string label = "a copy of the action of " + p.Call(p.actions[a], args) + " on " + on;
      q.label = label;
      q.call = [=, &rs] {
        Action copy(*action);
        Action second;
        second = copy;
        *valid = copy.IsValid(rs, *objs);
        *got = second.Apply(rs, *objs);
      };
      q.check = [=] {
        const auto have = facts(**got, label);
        LogS(Join(have));
        if (have != want_facts) Bad("state", label + " gives {" + Join(have) + "} instead of {" + Join(want_facts) + "}");
        if (*valid != want) Bad("answer", label + " is " + (*valid ? "valid" : "invalid") + ", which is wrong");
      };
      q.drop = [=] { got->reset(); };
      break;
    }
    case kOwnStep: {
      // Moves the client's own state on; a failed step leaves it alone.
      if (client < 0 || client >= static_cast<int>(w.own.size())) return q;
      QWorld::Own& o = w.own[client];
      if (!SomeCall(r, w, bad, &o.m, &c)) return q;
      model::State want = o.m;
      if (!bad) {
        auto n = p.Next(o.m, p.actions[c.action], c.args, &bad);
        if (!n && !bad) return q;
        if (n) {
          want = *n;
          note(p.actions[c.action], c.args, o.m, want);
        }
      }
      auto got = std::make_shared<std::optional<State>>();
      const std::string label = "step " + c.text + " of its own state";
      q.label = label;
      q.call = [=, &pddl, &o] { *got = pddl.NextState(o.r, c.text); };
      q.check = [=, &w] {
        const auto have = facts(**got, label);
        LogS(Join(have));
        const auto want_facts = w.p.Strings(want);
        if (have != want_facts) Bad("state", label + " gives {" + Join(have) + "} instead of {" + Join(want_facts) + "}");
      };
      q.commit = [=, &o] {
        o.r = **got;
        o.m = want;
      };
      q.drop = [=] { got->reset(); };
      break;
    }
    case kOwnDerive: {
      // Derived facts are those of the basic ones, whatever derived ones are there already.
      if (bad) return q;
      model::State s = ms;
      const auto all = p.AllAtoms();
      for (const model::Atom& x : all)
        if (p.preds[x.pred].stratum > 0 && r.Chance(1, 3) && !s.insert(x).second) s.erase(x);
      auto in = std::make_shared<State>(w.Real(s, r));
      const bool twice = r.Chance(1, 2);
      state_query(std::string("derived facts of ") + on + " with others" + (twice ? ", twice" : ""),
                  [=, &pddl] { return twice ? pddl.DerivedState(pddl.DerivedState(*in)) : pddl.DerivedState(*in); }, p.Derive(s));
      break;
    }
    case kAxiomApply: {
      // The closure is a fixed point that satisfies the axioms.
      auto cl = p.Closure(ms);
      if (bad || !cl) return q;
      auto ok = std::make_shared<int>(0);
      const std::string label = "closure of the closure of " + on;
      q.label = label;
      q.call = [=, &pddl, &rs] {
        const State once = pddl.ConsistentState(rs);
        const State again = pddl.ConsistentState(once);
        *ok = (once == again ? 1 : 0) + (pddl.IsValidState(once) ? 2 : 0);
        for (const auto& axiom : pddl.axioms())
          if (!axiom->IsConsistent(once)) *ok |= 4;
      };
      q.check = [=] {
        LogN(*ok);
        if (*ok != 3) Bad("closure", label + (*ok & 1 ? " is not valid" : " is another state"));
      };
      break;
    }
    case kSingleAxiom: {
      // One axiom on its own: adds consequences only, and agrees with the model about validity.
      if (bad || p.axioms.empty() || pddl.axioms().size() != p.axioms.size()) return q;
      const size_t i = r.Below(p.axioms.size());
      model::Problem one = p;
      one.axioms = {p.axioms[i]};
      const bool want = one.SatisfiesAxioms(ms);
      if (r.Chance(1, 3)) {
        // Applied to a copy or in place, with the same result; to the closure, to no effect.
        if (!p.Closure(ms)) return q;
        const bool partial = p.Chase(mp).has_value();
        auto bits = std::make_shared<int>(0);
        const std::string label = "applying axiom " + std::to_string(i) + " to " + on;
        q.label = label;
        q.call = [=, &pddl, &rs, &rp] {
          const symbolic::Axiom& axiom = *pddl.axioms()[i];
          State s(rs);
          const bool told = axiom.Apply(&s);
          *bits = (axiom.Apply(rs) == s ? 1 : 0) + 2 + 4;
          if (told != (s != rs)) *bits += 8;
          const State once = pddl.ConsistentState(rs);
          if (axiom.Apply(once) != once) *bits -= 4;
          if (!partial) return;
          PartialState ps(rp);
          const int told_partial = axiom.Apply(&ps);
          if (axiom.Apply(rp) != ps) *bits -= 2;
          if ((told_partial != 0) != (ps != rp)) *bits += 8;
        };
        q.check = [=] {
          LogN(*bits);
          if (*bits >= 8) Bad("closure", label + " is not reported as what it changed");
          else if (*bits != 7) Bad("closure", label + (*bits & 4 ? ": in place it gives something else" : ": it changes the closure"));
        };
        break;
      }
      // IsConsistent tries the implication with all axioms triggered; with this one satisfied nothing changes.
      bool_query("validity of axiom " + std::to_string(i) + " in " + on,
                 [=, &pddl, &rs] { return pddl.axioms()[i]->IsConsistent(rs); }, want);
      break;
    }
    case kWalk: {
      // Down a path of search nodes: every node holds the exact successor of its parent.
      if (bad) return q;
      const int steps = r.Range(1, 4);
      auto picks = std::make_shared<std::vector<size_t>>();
      for (int i = 0; i < steps; i++) picks->push_back(r.Below(6));
      auto seen = std::make_shared<std::vector<std::pair<std::string, std::set<std::string>>>>();
      const bool root_given = r.Chance(1, 3);
      const auto closed = p.Closure(root_given ? ms : w.init);
      if (!closed) return q;
      const model::State root = p.Derive(*closed);
      const std::string label = "a walk over search nodes from " + (root_given ? on : "the initial state");
      // A step that axioms forbid ends the walk, wherever it is noticed.
      const bool may_stop = p.HasConstraints();
      q.label = label;
      const auto walk = [=, &pddl, &rs] {
        seen->clear();
        symbolic::Planner planner = root_given ? symbolic::Planner(pddl, rs) : symbolic::Planner(pddl);
        symbolic::Planner::Node node = planner.root();
        for (size_t pick : *picks) {
          size_t n = 0;
          std::optional<symbolic::Planner::Node> next;
          for (const symbolic::Planner::Node& child : node) {
            if (n <= pick) next = child;
            if (n++ >= pick) break;
          }
          if (!next) break;
          node = *next;
          sim::Outside out;
          seen->push_back({node.action(), FactsOf(node.state(), label)});
        }
      };
      q.call = [=] {
        if (!may_stop) return walk();
        try {
          walk();
        } catch (const std::runtime_error&) {
          sim::Outside out;
          sim::CurrentRun()->Probe("walk stopped by a forbidden step");
        }
      };
      q.check = [=, &w] {
        model::State s = root;
        for (auto& x : *seen) {
          LogS(x.first);
          bool found = false;
          for (auto& a : w.p.Applicable(s)) {
            if (w.p.Call(w.p.actions[a.first], a.second) != x.first) continue;
            found = true;
            auto n = w.p.Next(s, w.p.actions[a.first], a.second);
            if (!n) return;
            if (w.p.Strings(*n) != x.second) {
              Bad("walk", label + ": " + x.first + " leads to {" + Join(x.second) + "} instead of " + w.p.Show(*n));
              return;
            }
            s = *n;
            break;
          }
          if (!found) {
            Bad("walk", label + ": " + x.first + " is not applicable");
            return;
          }
        }
      };
      q.drop = [=] { std::vector<std::pair<std::string, std::set<std::string>>>().swap(*seen); };
      break;
    }
    case kParameters: {
      if (bad || p.actions.empty()) return q;
      const int a = some_action();
      const Action* action = real_action(a);
      if (action == nullptr) return q;
      std::vector<std::string> want;
      for (auto& args : p.Args(p.actions[a].params)) want.push_back(model_names(args));
      list_query("arguments of " + p.actions[a].name,
                 [=] {
                   std::vector<std::string> v;
                   for (const std::vector<Object>& args : action->parameter_generator()) {
                     sim::Outside out;
                     v.push_back(names({args})[0]);
                     if (v.size() > 100000) break;
                   }
                   return v;
                 },
                 want);
      break;
    }
    case kIndex: {
      const auto all = p.AllAtoms();
      if (bad || all.empty()) {
        if (!bad) return q;
        const int how = r.Range(0, 2);
        auto f = std::make_shared<Proposition>("no_such_predicate", std::vector<Object>());
        if (how == 1 && !all.empty()) {
          const model::Atom& x = all[r.Below(all.size())];
          std::vector<int> args = x.args;
          if (!args.empty() && r.Chance(1, 2)) args.pop_back();
          else if (!p.ObjectsOf(-1).empty()) args.push_back(p.ObjectsOf(-1)[r.Below(p.ObjectsOf(-1).size())]);
          else return q;
          f = std::make_shared<Proposition>(p.preds[x.pred].name, w.Objects(args));
        }
        const size_t beyond = all.size() + r.Below(100);
        q.label = how == 2 ? "fact number " + std::to_string(beyond) : "number of " + ShowFact(*f);
        q.call = [=] {
          if (how == 2) (void)index->GetProposition(beyond);
          else (void)index->GetPropositionIndex(*f);
        };
        q.check = [] {};
        break;
      }
      state_query("round trip of " + on + " through the index",
                  [=, &rs] { return index->GetState(index->GetIndexedState(rs)); }, ms);
      break;
    }
    default:
      return q;
  }
  q.bad = q.bad || bad;
  if (q.bad) q.commit = nullptr;
  if (q.bad && !asked_bad) sim::CurrentRun()->Probe("query that axioms forbid");
  return q;
}

// A query of one of the kinds (drawn by weight) that applies.
using Kinds = std::vector<std::pair<int, int>>;
inline Query DrawQuery(Rng& r, QWorld& w, int client, const Kinds& kinds, bool bad, const Instead& instead = Instead()) {
  int total = 0;
  for (auto& k : kinds) total += k.second;
  for (int tries = 0; tries < 12; tries++) {
    int at = r.Range(0, total - 1), kind = 0;
    for (auto& k : kinds) {
      if (at < k.second) {
        kind = k.first;
        break;
      }
      at -= k.second;
    }
    Query q = MakeQuery(r, w, client, kind, bad, instead);
    if (q && !instead.name.empty()) q.label = instead.name + ": " + q.label;
    if (q) return q;
  }
  return Query();
}

// Nothing changed that nobody asked to change.
inline void CheckUntouched(QWorld& w, int client, const std::string& where) {
  for (size_t i = 0; i < w.rs.size(); i++) {
    const auto have = FactsOf(w.rs[i], where);
    if (have != w.p.Strings(w.ms[i])) Bad("argument-changed", where + ": state " + std::to_string(i) + " has become {" + Join(have) + "}");
    model::Partial part;
    if (!w.Read(w.rp[i], where, &part)) return;
    if (part != w.mp[i]) Bad("argument-changed", where + ": partial state " + std::to_string(i) + " has become " + w.Show(part));
  }
  if (client >= 0 && client < static_cast<int>(w.own.size())) {
    const auto have = FactsOf(w.own[client].r, where);
    if (have != w.p.Strings(w.own[client].m)) Bad("argument-changed", where + ": its own state has become {" + Join(have) + "}");
  }
  const auto init = FactsOf(w.pddl->initial_state(), where);
  if (init != w.p.Strings(w.init)) Bad("problem-changed", where + ": the initial state has become {" + Join(init) + "}");
}

// Runs a query that must be answered (or, if ill-formed, refused).
inline bool Answer(const Query& q, const std::string& where = "") {
  const std::string label = (where.empty() ? "" : where + ": ") + q.label;
  Outcome o = Try(q.call);
  if (q.bad) {
    LogS(o.what.substr(0, o.what.find('\n')));  // further lines may show addresses
    if (o.ok()) Bad("made-up", label + " was answered instead of refused");
    else if (o.end == End::kNoMem) Bad("unexpected-error", label + " ran out of memory");
    return !sim::CurrentRun()->failed();
  }
  if (!o.ok()) {
    Bad("unexpected-error", label + " raised: " + o.what);
    return false;
  }
  q.check();
  return !sim::CurrentRun()->failed();
}

inline void NewOwn(QWorld* w, int clients) {
  w->own.resize(clients);
  for (auto& o : w->own) {
    o.m = w->init;
    o.r = w->pddl->initial_state();
  }
}

}  // namespace simw
SIM_HARNESS_END

#endif  // SIM_WORK_QUERIES_H_
