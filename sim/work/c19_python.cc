// SIM_PROGRAM src/python/symbolic.cc
// C19: what the Python module returns is what the library returns, and stays usable as long as
// Python refers to it.
#include <algorithm>

#include "pystub/pybind11/eigen.h"
#include "pystub/pybind11/pybind11.h"
#include "symbolic/planning/breadth_first_search.h"
#include "work/queries.h"

extern "C" void sim_py_load_module(pybind11::module_& m);

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using simpy::Ref;
using symbolic::Planner;
using Node = Planner::Node;
using Search = symbolic::BreadthFirstSearch<Node>;

// The library's own objects behind those of Python; they live until the end of the run.
struct Shadow {
  std::unique_ptr<symbolic::Pddl> pddl;
  model::Problem p, source;  // now; as written
  std::string domain, problem;  // path; path or text, empty: none
  bool apply_axioms = true, plain = false;
};
struct SearchShadow {
  std::shared_ptr<Node> root;
  size_t depth;
  std::unique_ptr<Search> bfs;
  Search::iterator it;
  bool started = false, over = false;
};
enum HKind { kPddl, kObject, kType, kAction, kPredicate, kAxiom, kDerived, kFormula, kGenerator, kIndex, kPlanner, kNode, kSearch, kDnf, kPartial,
             kGenIter, kNodeIter };
struct H {  // a Python variable
  Ref py;
  HKind kind;
  std::shared_ptr<Shadow> pddl;
  std::shared_ptr<const void> keep;
  const void* at = nullptr;
  std::string from;
  size_t next = 0;  // position of an iterator
  template <typename T>
  const T& as() const { return *static_cast<const T*>(at); }
};
struct World {
  std::vector<model::Problem> sources;  // in files of their own
  std::vector<H> vars;
  std::vector<Ref> limbo;  // unreachable, not collected yet
  int added = 0;
  uint64_t dropped_owners = 0;
};

// ---- what values look like
std::string Quote(const std::string& s) { return "'" + s + "'"; }
std::string Show(bool b) { return b ? "True" : "False"; }
std::string Show(const std::string& s) { return Quote(s); }
std::string Show(size_t n) { return std::to_string(n); }
template <typename C>
std::string ShowSet(const C& c) {
  std::set<std::string> t;
  for (const std::string& s : c) t.insert(Quote(s));
  return "{" + Join(t) + "}";
}
std::string Show(const std::set<std::string>& s) { return ShowSet(s); }
std::string Show(const std::unordered_set<std::string>& s) { return ShowSet(s); }
std::string Show(const std::pair<std::unordered_set<std::string>, std::unordered_set<std::string>>& s) {
  return "(" + ShowSet(s.first) + ", " + ShowSet(s.second) + ")";
}
template <typename T>
std::string Print(const T& x) {
  std::stringstream ss;
  ss << x;
  return ss.str();
}
std::string Show(const symbolic::Object& o) { return "<Object " + o.name() + ">"; }
std::string Show(const symbolic::Object::Type& t) { return "<ObjectType " + t.name() + ">"; }
std::string Show(const symbolic::Action& a) { return "<Action " + a.to_string() + ">"; }
std::string Show(const symbolic::Predicate& a) { return "<Predicate " + a.to_string() + ">"; }
std::string Show(const symbolic::Axiom& a) { return "<Axiom " + Print(a) + ">"; }
std::string Show(const std::shared_ptr<symbolic::Axiom>& a) { return Show(*a); }
std::string Show(const symbolic::DerivedPredicate& a) { return "<DerivedPredicate " + Print(a) + ">"; }
std::string Show(const symbolic::Formula& f) { return "<Formula " + f.to_string() + ">"; }
std::string Show(const symbolic::DisjunctiveFormula& d) { return "<DisjunctiveFormula " + Print(d) + ">"; }
std::string Show(const symbolic::PartialState& s) { return "<PartialState " + Print(s) + ">"; }
std::string Show(const Node& n) { return "<PlannerNode " + Print(n) + ">"; }
std::string Show(const symbolic::ParameterGenerator&) { return "<ParameterGenerator>"; }
std::string Show(const symbolic::StateIndex&) { return "<StateIndex>"; }

template <typename T>
std::string Show(const std::vector<T>& v) {
  std::vector<std::string> t;
  for (const T& x : v) t.push_back(Show(x));
  return "[" + Join(t) + "]";
}
// repr(): may raise.
std::string ShowPy(const Ref& r) {
  switch (r->kind) {
    case simpy::kNone: return "None";
    case simpy::kBool: return Show(r->b);
    case simpy::kInt: return r->i < 0 ? "-" + Show(static_cast<size_t>(-r->i)) : Show(static_cast<size_t>(r->i));
    case simpy::kFloat: return std::to_string(r->f);
    case simpy::kStr: return Quote(r->s);
    case simpy::kList:
    case simpy::kTuple:
    case simpy::kSet: {
      std::vector<std::string> t;
      for (const Ref& i : r->items) t.push_back(ShowPy(i));
      if (r->kind == simpy::kSet) std::sort(t.begin(), t.end());
      const char* b = r->kind == simpy::kList ? "[]" : r->kind == simpy::kTuple ? "()" : "{}";
      return b[0] + Join(t) + b[1];
    }
    case simpy::kDict: {
      std::map<std::string, std::string> t;
      for (size_t i = 0; i + 1 < r->items.size(); i += 2) t[ShowPy(r->items[i])] = ShowPy(r->items[i + 1]);
      std::string s;
      for (auto& e : t) s += (s.empty() ? "" : ", ") + e.first + ": " + e.second;
      return "{" + s + "}";
    }
    case simpy::kArray: {
      std::string s = "array ";
      for (bool b : r->array) s += b ? '1' : '0';
      return s;
    }
    case simpy::kObject: {
      if (r->type->methods.count("__repr__") == 0) return "<" + r->type->name + ">";
      return "<" + r->type->name + " " + simpy::CallMethod(r, "__repr__")->s + ">";
    }
  }
  return "?";
}

// ---- calls
struct Got {
  std::string text;   // or the error
  std::string error;  // kind of Python exception; empty: none
  bool fault = false;
};
template <typename F>
Got Py(F&& f, Ref* result) {
  Got g;
  Ref r;
  try {
    sim::Call call;
    r = f();
  } catch (const simpy::PyError& e) {
    g.error = e.kind;
    g.text = e.message;
  } catch (const std::bad_alloc&) {  // in the interpreter itself
    g.error = "MemoryError";
  } catch (const std::exception& e) {
    g.error = "SystemError";
    g.text = std::string("an exception leaves the module: ") + e.what();
  }
  g.fault = sim::AllocFired();
  sim::ArmAlloc(0);
  if (g.error.empty() && r) {
    try {
      sim::Call call;
      std::string s = ShowPy(r);
      g.text = s;
    } catch (const simpy::PyError& e) {
      g.error = e.kind;
      g.text = "while it is shown: " + e.message;
    }
  }
  *result = r;
  return g;
}
template <typename F>
Got Lib(F&& f) {
  Got g;
  try {
    sim::Call call;
    g.text = f();
    return g;
  } catch (const std::bad_alloc&) {
    g.error = "MemoryError";
  } catch (const simpy::PyError& e) {  // what Python itself demands
    g.error = e.kind;
    g.text = e.message;
  } catch (const std::domain_error& e) {
    g.error = "ValueError", g.text = e.what();
  } catch (const std::invalid_argument& e) {
    g.error = "ValueError", g.text = e.what();
  } catch (const std::length_error& e) {
    g.error = "ValueError", g.text = e.what();
  } catch (const std::out_of_range& e) {
    g.error = "IndexError", g.text = e.what();
  } catch (const std::range_error& e) {
    g.error = "ValueError", g.text = e.what();
  } catch (const std::overflow_error& e) {
    g.error = "OverflowError", g.text = e.what();
  } catch (const std::exception& e) {
    g.error = "RuntimeError", g.text = e.what();
  }
  return g;
}
bool Same(const Got& a, const Got& b) {
  if (a.error != b.error) return false;
  return !a.error.empty() || a.text == b.text;  // messages may name any one of several mistakes
}
std::string Text(const Got& g) { return g.error.empty() ? g.text : g.error + ": " + g.text; }

// One call in Python and its counterpart. Gives the result when both agree and returned something.
template <typename F, typename G>
Ref Expect(const std::string& label, F&& py, G&& lib) {
  LogS(label);
  Ref r;
  Got have = Py(py, &r);
  if (have.fault && have.error == "MemoryError") {
    LogS("no memory");
    r.reset();
    have = Py(py, &r);
  }
  const Got want = Lib(lib);
  if (!Same(have, want)) {
    Bad("differs", label + " gives " + Text(have) + " instead of " + Text(want));
    return Ref();
  }
  LogS(have.error.empty() ? have.text : have.error);
  if (!have.error.empty()) sim::CurrentRun()->Probe("calls that raise in both");
  return have.error.empty() ? r : Ref();
}

// iter(x)
Ref Iter(const Ref& x, const std::string& label) {
  LogS(label);
  for (int again = 0;; again++) {
    Ref it;
    const Outcome o = Try([&] { it = simpy::CallMethod(x, "__iter__"); });
    if (o.ok()) return it;
    if (o.fault && again == 0) continue;
    Bad("iter", label + " raised: " + o.what);
    return Ref();
  }
}

void Drop(World* w, Ref* r, bool now) {
  if (now) {
    sim::Call call;
    r->reset();
  } else {
    w->limbo.push_back(std::move(*r));
    r->reset();
  }
}
void Collect(World* w) {
  sim::Call call;
  while (!w->limbo.empty()) w->limbo.pop_back();
}

bool Add(World* w, const Ref& py, HKind kind, const std::shared_ptr<Shadow>& pddl, std::shared_ptr<const void> keep, const void* at, const std::string& from) {
  if (!py || w->vars.size() >= 16) return false;
  H h;
  h.py = py;
  h.kind = kind;
  h.pddl = pddl;
  h.keep = std::move(keep);
  h.at = at;
  h.from = from;
  w->vars.push_back(std::move(h));
  return true;
}
template <typename T>
void AddSome(World* w, Rng& r, const Ref& list, HKind kind, const H& h, const std::shared_ptr<const void>& keep, const std::vector<T>& shadow, const std::string& from) {
  if (!list) return;
  for (int k = r.Range(1, 2); k > 0 && !shadow.empty(); k--) {
    const size_t i = r.Below(shadow.size());
    Add(w, list->items[i], kind, h.pddl, keep, &shadow[i], from + "[" + std::to_string(i) + "]");
  }
}

// ---- arguments
std::set<std::string> SomeFacts(Rng& r, const model::Problem& p, bool bad) {
  std::set<std::string> s = r.Chance(1, 3) ? p.Strings(p.init) : p.Strings(p.RandomState(r, r.Chance(1, 2)));
  if (bad) {
    const char* const kBad[] = {"nothing(nobody)", "", "p0(", "nothing", "p0(nobody, nobody, nobody)"};
    s.insert(kBad[r.Below(5)]);
  }
  return s;
}
std::string SomeAction(Rng& r, const model::Problem& p, bool bad) {
  if (p.actions.empty() || bad) {
    const char* const kBad[] = {"nothing(nobody)", "", "nothing", "(", "a0(nobody)"};
    return kBad[r.Below(5)];
  }
  const model::Action& a = r.Pick(p.actions);
  const auto all = p.Args(a.params);
  if (all.empty()) return a.name + "(nobody)";
  return p.Call(a, all[r.Below(all.size())]);
}
std::unordered_set<std::string> U(const std::set<std::string>& s) { return {s.begin(), s.end()}; }
Ref PySet(const std::set<std::string>& s, Rng& r) {
  std::vector<std::string> v(s.begin(), s.end());
  r.Shuffle(v);
  return simpy::Strs(simpy::kSet, v);
}

std::unique_ptr<symbolic::Pddl> Load(const Shadow& s) {
  if (s.plain) return std::make_unique<symbolic::Pddl>(s.domain);
  return std::make_unique<symbolic::Pddl>(s.domain, s.problem, s.apply_axioms);
}
void NewPddl(World* w, Rng& r) {
  auto s = std::make_shared<Shadow>();
  const size_t source = r.Below(w->sources.size());
  s->p = s->source = w->sources[source];
  s->plain = r.Chance(1, 12);
  s->apply_axioms = !r.Chance(1, 5);
  s->domain = "/simfs/d" + std::to_string(source) + ".pddl";
  s->problem = r.Chance(1, 2) ? "/simfs/p" + std::to_string(source) + ".pddl" : s->p.ProblemText();
  if (s->plain) s->problem.clear();
  simpy::Args args = {simpy::Str(s->domain)};
  simpy::Kwargs kw;
  if (!s->plain) {
    args.push_back(simpy::Str(s->problem));
    if (!s->apply_axioms || r.Chance(1, 2)) {
      if (r.Chance(1, 2)) kw["apply_axioms"] = simpy::Bool(s->apply_axioms);
      else args.push_back(simpy::Bool(s->apply_axioms));
    }
  }
  Ref py = Expect(
      "Pddl(...)", [&] { return simpy::Construct("Pddl", args, kw); },
      [&] {
        s->pddl = Load(*s);
        return "<Pddl symbolic.Pddl('" + s->pddl->domain_pddl() + "', '" + s->pddl->problem_pddl() + "')>";
      });
  Add(w, py, kPddl, s, s, s->pddl.get(), "Pddl(...)");
}

void Forget(World* w, Rng& r, const std::shared_ptr<Shadow>& s) {
  for (size_t i = w->vars.size(); i > 0; i--)
    if (w->vars[i - 1].pddl == s && w->vars[i - 1].kind != kPddl) {
      Drop(w, &w->vars[i - 1].py, r.Chance(1, 2));
      w->vars.erase(w->vars.begin() + i - 1);
    }
}

std::shared_ptr<Node> Keep(const Node& n) { return std::make_shared<Node>(n); }

// Uses one variable in some way.
void Use(World* w, size_t index, uint64_t sub) {
  Rng r(sub);
  const H h = w->vars[index];
  const std::string& me = h.from;
  const symbolic::Pddl& P = *h.pddl->pddl;
  const model::Problem& p = h.pddl->p;
  const bool bad = r.Chance(1, 8);
  auto attr = [&](const char* name) {
    return [&h, name] { return simpy::GetAttr(h.py, name); };
  };
  auto method = [&](const char* name, simpy::Args args = {}, simpy::Kwargs kw = {}) {
    return [&h, name, args, kw] { return simpy::CallMethod(h.py, name, args, kw); };
  };
  switch (h.kind) {
    case kPddl: {
      symbolic::Pddl& M = *h.pddl->pddl;
      const auto facts = SomeFacts(r, p, bad);
      const Ref py_facts = PySet(facts, r);
      auto S = [&] { return symbolic::State(P, U(facts)); };
      const std::string call = SomeAction(r, p, bad && r.Chance(1, 2));
      switch (r.Range(0, 40)) {
        case 0:
          Expect(me + ".next_state(.., " + call + ")", method("next_state", {py_facts, simpy::Str(call)}),
                 [&] { return Show(P.NextState(S(), call).Stringify()); });
          return;
        case 1: {
          std::vector<std::string> calls;
          for (int k = r.Range(0, 3); k > 0; k--) calls.push_back(SomeAction(r, p, false));
          Expect(me + ".apply_actions(.., [" + Join(calls, "; ") + "])", method("apply_actions", {py_facts, simpy::Strs(simpy::kList, calls)}),
                 [&] { return Show(P.ApplyActions(S(), calls).Stringify()); });
          return;
        }
        case 2:
          Expect(me + ".derived_state", method("derived_state", {py_facts}), [&] { return Show(P.DerivedState(S()).Stringify()); });
          return;
        case 3:
          Expect(me + ".consistent_state", method("consistent_state", {py_facts}), [&] { return Show(P.ConsistentState(S()).Stringify()); });
          return;
        case 4:
        case 5:
        case 6: {
          std::set<std::string> pos, neg;
          for (const model::Atom& a : p.BasicAtoms())
            if (r.Chance(2, 3)) (r.Chance(1, 2) ? pos : neg).insert(p.Show(a));
          auto T = [&] { return symbolic::PartialState(P, U(pos), U(neg)); };
          if (r.Chance(1, 2))
            Expect(me + ".consistent_state(pos, neg)", method("consistent_state", {PySet(pos, r), PySet(neg, r)}),
                   [&] { return Show(P.ConsistentState(T()).Stringify()); });
          else
            Expect(me + ".is_valid_state(pos, neg)", method("is_valid_state", {PySet(pos, r), PySet(neg, r)}), [&] { return Show(P.IsValidState(T())); });
          return;
        }
        case 7:
          Expect(me + ".is_valid_action(.., " + call + ")", method("is_valid_action", {py_facts}, {{"action", simpy::Str(call)}}),
                 [&] { return Show(P.IsValidAction(S(), call)); });
          return;
        case 8:
          Expect(me + ".is_valid_state", method("is_valid_state", {py_facts}), [&] { return Show(P.IsValidState(S())); });
          return;
        case 9: {
          std::set<std::string> next = SomeFacts(r, p, false);
          if (r.Chance(2, 3)) {
            const Got g = Lib([&] {
              next = symbolic::Stringify(P.NextState(S(), call));
              return std::string();
            });
          }
          Expect(me + ".is_valid_tuple(.., " + call + ", ..)", method("is_valid_tuple", {py_facts, simpy::Str(call), PySet(next, r)}),
                 [&] { return Show(P.IsValidTuple(facts, call, next)); });
          return;
        }
        case 10:
          Expect(me + ".is_goal_satisfied", method("is_goal_satisfied", {py_facts}), [&] { return Show(P.IsGoalSatisfied(facts)); });
          return;
        case 11: {
          std::vector<std::string> plan;
          for (int k = r.Range(0, 3); k > 0; k--) plan.push_back(SomeAction(r, p, false));
          Expect(me + ".is_valid_plan([" + Join(plan, "; ") + "])", method("is_valid_plan", {simpy::Strs(simpy::kList, plan)}),
                 [&] { return Show(P.IsValidPlan(plan)); });
          return;
        }
        case 12: {
          const std::string name = call.substr(0, call.find('('));
          Expect(me + ".list_valid_arguments(.., " + name + ")", method("list_valid_arguments", {py_facts, simpy::Str(name)}),
                 [&] { return Show(P.ListValidArguments(facts, name)); });
          return;
        }
        case 13:
          Expect(me + ".list_valid_actions", method("list_valid_actions", {py_facts}), [&] { return Show(P.ListValidActions(facts)); });
          return;
        case 14:
          Expect(me + ".initial_state", attr("initial_state"), [&] { return Show(symbolic::Stringify(P.initial_state())); });
          return;
        case 15: {
          Expect(me + ".initial_state = ..",
                 [&] {
                   simpy::SetAttr(h.py, "initial_state", py_facts);
                   return simpy::GetAttr(h.py, "initial_state");
                 },
                 [&] {
                   M.set_initial_state(S());
                   return Show(symbolic::Stringify(M.initial_state()));
                 });
          return;
        }
        case 16:
          switch (r.Range(0, 3)) {
            case 0: Expect(me + ".name", attr("name"), [&] { return Show(P.name()); }); return;
            case 1: Expect(me + ".domain_pddl", attr("domain_pddl"), [&] { return Show(P.domain_pddl()); }); return;
            case 2: Expect(me + ".problem_pddl", attr("problem_pddl"), [&] { return Show(P.problem_pddl()); }); return;
            default: Expect("repr(" + me + ")", method("__repr__"), [&] { return Show("symbolic.Pddl('" + P.domain_pddl() + "', '" + P.problem_pddl() + "')"); }); return;
          }
        case 17:
        case 18: {
          const bool constants = r.Chance(1, 4);
          const auto& objects = constants ? P.constants() : P.objects();
          const char* name = constants ? "constants" : "objects";
          const Ref l = Expect(me + "." + name, attr(name), [&] { return Show(objects); });
          AddSome(w, r, l, kObject, h, h.keep, objects, me + "." + name);
          return;
        }
        case 19:
        case 20: {
          const Ref l = Expect(me + ".actions", attr("actions"), [&] { return Show(P.actions()); });
          AddSome(w, r, l, kAction, h, h.keep, P.actions(), me + ".actions");
          return;
        }
        case 21:
        case 22: {
          const Ref l = Expect(me + ".predicates", attr("predicates"), [&] { return Show(P.predicates()); });
          AddSome(w, r, l, kPredicate, h, h.keep, P.predicates(), me + ".predicates");
          return;
        }
        case 23: {
          const Ref l = Expect(me + ".axioms", attr("axioms"), [&] { return Show(P.axioms()); });
          if (!l || P.axioms().empty()) return;
          const size_t i = r.Below(P.axioms().size());
          Add(w, l->items[i], kAxiom, h.pddl, h.keep, P.axioms()[i].get(), me + ".axioms[" + std::to_string(i) + "]");
          return;
        }
        case 24: {
          const Ref l = Expect(me + ".derived_predicates", attr("derived_predicates"), [&] { return Show(P.derived_predicates()); });
          AddSome(w, r, l, kDerived, h, h.keep, P.derived_predicates(), me + ".derived_predicates");
          return;
        }
        case 25: {
          const Ref d = Expect(me + ".object_map", attr("object_map"), [&] {
            std::map<std::string, std::string> t;
            for (auto& e : P.object_map()) t[Quote(e.first)] = Show(e.second);
            std::string s;
            for (auto& e : t) s += (s.empty() ? "" : ", ") + e.first + ": " + e.second;
            return "{" + s + "}";
          });
          if (!d || d->items.empty()) return;
          std::vector<std::string> keys;
          for (auto& e : P.object_map())
            if (!e.second.empty()) keys.push_back(e.first);
          std::sort(keys.begin(), keys.end());
          if (keys.empty()) return;
          const std::string key = r.Pick(keys);
          for (size_t i = 0; i + 1 < d->items.size(); i += 2)
            if (d->items[i]->s == key) AddSome(w, r, d->items[i + 1], kObject, h, h.keep, P.object_map().at(key), me + ".object_map[" + key + "]");
          return;
        }
        case 26:
        case 27: {
          const Ref x = Expect(me + ".state_index", attr("state_index"), [&] { return Show(P.state_index()); });
          Add(w, x, kIndex, h.pddl, h.keep, &P.state_index(), me + ".state_index");
          return;
        }
        case 28: {
          const Ref x = Expect(me + ".goal", attr("goal"), [&] { return Show(P.goal()); });
          Add(w, x, kFormula, h.pddl, h.keep, &P.goal(), me + ".goal");
          return;
        }
        case 29:
        case 30: {
          const std::string name = r.Chance(1, 5) && !p.objects.empty() ? p.objects[r.Below(p.objects.size())] : "n" + std::to_string(w->added);
          const int t = r.Range(-1, static_cast<int>(p.parent.size()) - 1);
          if (p.ObjectsOf(-1).size() >= 5) return;
          w->added++;
          Expect(me + ".add_object(" + name + ")",
                 method("add_object", {simpy::Str(name)}, {{"type", simpy::Str(p.TypeName(t))}}),
                 [&] {
                   M.AddObject(name, p.TypeName(t));
                   return std::string("None");
                 });
          Expect(me + ".objects", attr("objects"), [&] { return Show(P.objects()); });
          Forget(w, r, h.pddl);
          if (p.FindObject(name) < 0 && !h.pddl->plain) {
            h.pddl->p.objects.push_back(name);
            h.pddl->p.type_of.push_back(t);
          }
          return;
        }
        case 31: {
          std::vector<int> removable;
          for (int o : p.ObjectsOf(-1))
            if (o >= p.constants) removable.push_back(o);
          const int o = removable.empty() || r.Chance(1, 6) ? -1 : r.Pick(removable);
          const std::string name = o < 0 ? "nobody" : p.objects[o];
          Expect(me + ".remove_object(" + name + ")",
                 method("remove_object", {simpy::Str(name)}),
                 [&] {
                   M.RemoveObject(name);
                   return std::string("None");
                 });
          Expect(me + ".objects", attr("objects"), [&] { return Show(P.objects()); });
          Forget(w, r, h.pddl);
          if (o >= 0) {
            h.pddl->p.type_of[o] = model::Problem::kGone;
            h.pddl->p.objects[o] = "gone" + std::to_string(o);
            for (auto it = h.pddl->p.init.begin(); it != h.pddl->p.init.end();)
              it = std::find(it->args.begin(), it->args.end(), o) != it->args.end() ? h.pddl->p.init.erase(it) : std::next(it);
          }
          return;
        }
        case 32: {
          // A pickle names the files it was loaded from.
          auto s = std::make_shared<Shadow>();
          s->p = s->source = h.pddl->source;
          s->plain = h.pddl->plain;
          s->domain = h.pddl->domain;
          s->problem = h.pddl->problem;
          const Ref x = Expect("pickled " + me,
                               [&] {
                                 const Ref state = simpy::CallMethod(h.py, "__getstate__");
                                 return simpy::Construct("Pddl", {state}, {}, "__setstate__");
                               },
                               [&] {
                                 s->pddl = Load(*s);
                                 return "<Pddl symbolic.Pddl('" + s->pddl->domain_pddl() + "', '" + s->pddl->problem_pddl() + "')>";
                               });
          Add(w, x, kPddl, s, s, s->pddl.get(), "pickled " + me);
          return;
        }
        case 33:
        case 34:
        case 35: {
          std::shared_ptr<Planner> planner;
          const bool given = r.Chance(1, 2);
          const Ref x = Expect("Planner(" + me + ")",
                               [&] { return simpy::Construct("Planner", given ? simpy::Args{h.py, py_facts} : simpy::Args{h.py}); },
                               [&] {
                                 planner = given ? std::make_shared<Planner>(P, S()) : std::make_shared<Planner>(P);
                                 return std::string("<Planner>");
                               });
          Add(w, x, kPlanner, h.pddl, planner, planner.get(), "Planner(" + me + ")");
          return;
        }
        case 36:
        case 37: {
          std::shared_ptr<std::pair<symbolic::Action, std::vector<symbolic::Object>>> parsed;
          const Ref x = Expect("Action.parse(" + me + ", " + call + ")",
                               [&] { return simpy::CallStatic("Action", "parse", {h.py, simpy::Str(call)}); },
                               [&] {
                                 parsed = std::make_shared<std::pair<symbolic::Action, std::vector<symbolic::Object>>>(symbolic::Action::Parse(P, call));
                                 return "(" + Show(parsed->first) + ", " + Show(parsed->second) + ")";
                               });
          if (!x) return;
          Add(w, x->items[0], kAction, h.pddl, parsed, &parsed->first, "Action.parse(..)[0]");
          AddSome(w, r, x->items[1], kObject, h, parsed, parsed->second, "Action.parse(..)[1]");
          return;
        }
        default: {
          const int what = r.Range(0, 3);
          const bool axioms = r.Chance(1, 3);
          if (what == 3 && !Small(SizeOf(p, p.goal))) return;
          if (what != 3)
            for (const model::Action& a : p.actions)
              if (!Small(SizeOf(p, a.pre)) || !Small(SizeOf(p, a.effects))) return;
          simpy::Args args = {h.py};
          if (what < 3) args.push_back(simpy::Str(call));
          if (axioms || r.Chance(1, 2)) args.push_back(simpy::Bool(axioms));
          const char* const kNames[] = {"normalize_conditions", "normalize_preconditions", "normalize_postconditions", "normalize_goal"};
          using D = symbolic::DisjunctiveFormula;
          std::shared_ptr<std::vector<D>> made = std::make_shared<std::vector<D>>();
          const std::string label = std::string(kNames[what]) + "(" + me + ", " + (what < 3 ? call : "") + ")";
          const Ref x = Expect(label, [&] { return simpy::CallStatic("DisjunctiveFormula", kNames[what], args); },
                               [&]() -> std::string {
                                 if (what == 0) {
                                   auto both = D::NormalizeConditions(P, call, axioms);
                                   if (!both) return "None";
                                   made->push_back(both->first);
                                   made->push_back(both->second);
                                   return "(" + Show((*made)[0]) + ", " + Show((*made)[1]) + ")";
                                 }
                                 auto one = what == 1 ? D::NormalizePreconditions(P, call, axioms)
                                                      : what == 2 ? D::NormalizePostconditions(P, call, axioms) : D::NormalizeGoal(P, axioms);
                                 if (!one) return "None";
                                 made->push_back(*one);
                                 return Show((*made)[0]);
                               });
          if (!x || made->empty()) return;
          const size_t i = r.Below(made->size());
          Add(w, what == 0 ? x->items[i] : x, kDnf, h.pddl, made, &(*made)[i], label);
          return;
        }
      }
    }
    case kObject: {
      const auto& o = h.as<symbolic::Object>();
      if (r.Chance(1, 2)) {
        Expect(me + ".name", attr("name"), [&] { return Show(o.name()); });
      } else {
        const Ref x = Expect(me + ".type", attr("type"), [&] { return Show(o.type()); });
        if (r.Chance(1, 3)) Add(w, x, kType, h.pddl, h.keep, &o.type(), me + ".type");
      }
      return;
    }
    case kType: {
      const auto& t = h.as<symbolic::Object::Type>();
      const std::string other = bad ? "no_such_type" : p.TypeName(r.Range(-1, static_cast<int>(p.parent.size()) - 1));
      if (r.Chance(1, 3)) Expect(me + ".name", attr("name"), [&] { return Show(t.name()); });
      else Expect(me + ".is_subtype(" + other + ")", method("is_subtype", {simpy::Str(other)}), [&] { return Show(t.IsSubtype(other)); });
      return;
    }
    case kAction:
    case kPredicate: {
      auto both = [&](const auto& a) {
        switch (r.Range(0, 4)) {
          case 0: Expect(me + ".name", attr("name"), [&] { return Show(a.name()); }); return;
          case 1: {
            const Ref l = Expect(me + ".parameters", attr("parameters"), [&] { return Show(a.parameters()); });
            if (r.Chance(1, 2)) AddSome(w, r, l, kObject, h, h.keep, a.parameters(), me + ".parameters");
            return;
          }
          case 2: {
            const Ref x = Expect(me + ".parameter_generator", attr("parameter_generator"), [&] { return Show(a.parameter_generator()); });
            Add(w, x, kGenerator, h.pddl, h.keep, &a.parameter_generator(), me + ".parameter_generator");
            return;
          }
          case 3: {
            std::vector<std::string> args;
            const auto alive = p.ObjectsOf(-1);
            for (size_t k = 0; k < a.parameters().size(); k++) args.push_back(alive.empty() || bad ? "nobody" : p.objects[alive[r.Below(alive.size())]]);
            Expect(me + ".to_string([" + Join(args) + "])", method("to_string", {simpy::Strs(simpy::kList, args)}), [&] {
              std::vector<symbolic::Object> v;
              for (const std::string& s : args) v.emplace_back(P, s);
              return Show(a.to_string(v));
            });
            return;
          }
          default: Expect("repr(" + me + ")", method("__repr__"), [&] { return Show(a.to_string()); }); return;
        }
      };
      if (h.kind == kAction) both(h.as<symbolic::Action>());
      else both(h.as<symbolic::Predicate>());
      return;
    }
    case kAxiom: {
      const auto& a = h.as<symbolic::Axiom>();
      std::vector<const H*> partial;
      for (const H& v : w->vars)
        if (v.kind == kPartial && v.pddl == h.pddl) partial.push_back(&v);
      if (!partial.empty()) {
        const H s = *r.Pick(partial);
        Expect(me + ".is_consistent(" + s.from + ")", method("is_consistent", {s.py}), [&] { return Show(a.IsConsistent(s.as<symbolic::PartialState>())); });
      } else {
        Expect("repr(" + me + ")", method("__repr__"), [&] { return Show(Print(a)); });
      }
      return;
    }
    case kDerived:
      Expect("repr(" + me + ")", method("__repr__"), [&] { return Show(Print(h.as<symbolic::DerivedPredicate>())); });
      return;
    case kFormula:
      Expect("repr(" + me + ")", method("__repr__"), [&] { return Show(h.as<symbolic::Formula>().to_string()); });
      return;
    case kGenerator: {
      const auto& g = h.as<symbolic::ParameterGenerator>();
      switch (r.Range(0, 5)) {
        case 0: Expect("len(" + me + ")", method("__len__"), [&] { return Show(g.size()); }); return;
        case 1: Expect("bool(" + me + ")", [&] {
            // Truth of an object: __bool__, or its length.
            if (h.py->type->methods.count("__bool__")) return simpy::CallMethod(h.py, "__bool__");
            return simpy::Bool(simpy::CallMethod(h.py, "__len__")->i != 0);
          }, [&] { return Show(!g.empty()); });
          return;
        case 2: {
          const size_t i = r.Below(g.size() + (bad ? 3 : 0));
          std::shared_ptr<std::vector<symbolic::Object>> args;
          const std::string label = me + "[" + std::to_string(i) + "]";
          const Ref l = Expect(label, method("__getitem__", {simpy::Int(i)}), [&] {
            args = std::make_shared<std::vector<symbolic::Object>>(g.at(i));
            return Show(*args);
          });
          if (l) AddSome(w, r, l, kObject, h, args, *args, label);
          return;
        }
        case 3: {
          if (g.size() == 0) return;
          const auto args = g.at(r.Below(g.size()));
          std::vector<std::string> names;
          for (const symbolic::Object& o : args) names.push_back(o.name());
          if (bad) names.push_back("nobody");
          Expect(me + ".index([" + Join(names) + "])", method("index", {simpy::Strs(simpy::kList, names)}),
                 [&] { return Show(static_cast<size_t>(g.find(symbolic::Object::ParseArguments(P, names)))); });
          return;
        }
        case 4: {
          auto all = std::make_shared<std::vector<std::vector<symbolic::Object>>>();
          const Ref l = Expect("list(" + me + ")",
                               [&] {
                                 const Ref it = simpy::CallMethod(h.py, "__iter__");
                                 const Ref list = simpy::New(simpy::kList);
                                 try {
                                   for (;;) list->items.push_back(simpy::CallMethod(it, "__next__"));
                                 } catch (const simpy::PyError& e) {
                                   if (e.kind != "StopIteration") throw;
                                 }
                                 return list;
                               },
                               [&] {
                                 for (const std::vector<symbolic::Object>& args : g) all->push_back(args);
                                 return Show(*all);
                               });
          if (!l || all->empty()) return;
          const size_t i = r.Below(all->size());
          AddSome(w, r, l->items[i], kObject, h, all, (*all)[i], "list(" + me + ")[" + std::to_string(i) + "]");
          return;
        }
        default: {
          const Ref it = Iter(h.py, "iter(" + me + ")");
          if (it) Add(w, it, kGenIter, h.pddl, h.keep, h.at, "iter(" + me + ")");
          return;
        }
      }
    }
    case kGenIter: {
      const auto& g = h.as<symbolic::ParameterGenerator>();
      const size_t i = h.next;
      std::shared_ptr<std::vector<symbolic::Object>> args;
      const Ref l = Expect("next(" + me + ") #" + std::to_string(i), method("__next__"), [&]() -> std::string {
        if (i >= g.size()) throw simpy::PyError("StopIteration", "");
        args = std::make_shared<std::vector<symbolic::Object>>(g.at(i));
        return Show(*args);
      });
      if (!l) return;
      w->vars[index].next++;
      if (r.Chance(1, 2)) AddSome(w, r, l, kObject, h, args, *args, "next(" + me + ")");
      return;
    }
    case kIndex: {
      const auto& x = h.as<symbolic::StateIndex>();
      const auto facts = SomeFacts(r, p, bad);
      switch (r.Range(0, 4)) {
        case 0: Expect("len(" + me + ")", method("__len__"), [&] { return Show(x.size()); }); return;
        case 1: {
          const int n = static_cast<int>(x.size());
          const int i = bad ? n + r.Range(0, 2) : n == 0 ? 0 : r.Range(-n, n - 1);
          Expect(me + ".get_proposition(" + std::to_string(i) + ")", method("get_proposition", {simpy::Int(i)}),
                 [&] { return Show(x.GetProposition(static_cast<size_t>(i < 0 ? i + n : i)).to_string()); });
          return;
        }
        case 2: {
          const auto atoms = p.AllAtoms();
          const std::string f = atoms.empty() || bad ? "nothing(nobody)" : p.Show(atoms[r.Below(atoms.size())]);
          Expect(me + ".get_proposition_index(" + f + ")", method("get_proposition_index", {simpy::Str(f)}),
                 [&] { return Show(static_cast<size_t>(x.GetPropositionIndex(symbolic::Proposition(P, f)))); });
          return;
        }
        case 3: {
          const Ref a = simpy::New(simpy::kArray);
          for (size_t i = 0; i < x.size(); i++) a->array.push_back(r.Chance(1, 3));
          Expect(me + ".get_state(..)", method("get_state", {a}), [&] {
            symbolic::StateIndex::IndexedState s(x.size());
            for (size_t i = 0; i < x.size(); i++) s(i) = a->array[i];
            return Show(symbolic::Stringify(x.GetState(s)));
          });
          return;
        }
        default:
          Expect(me + ".get_indexed_state({" + Join(facts, ", ") + "})", method("get_indexed_state", {PySet(facts, r)}), [&] {
            symbolic::State s;
            for (const std::string& f : facts) s.emplace(P, f);
            const symbolic::StateIndex::IndexedState v = x.GetIndexedState(s);
            std::string t = "array ";
            for (int i = 0; i < v.size(); i++) t += v(i) ? '1' : '0';
            return t;
          });
          return;
      }
    }
    case kPlanner: {
      const auto& planner = h.as<Planner>();
      const Ref x = Expect(me + ".root", attr("root"), [&] { return Show(planner.root()); });
      Add(w, x, kNode, h.pddl, h.keep, &planner.root(), me + ".root");
      return;
    }
    case kNode: {
      const auto& n = h.as<Node>();
      switch (r.Range(0, 6)) {
        case 0: Expect(me + ".action", attr("action"), [&] { return Show(n.action()); }); return;
        case 1: Expect(me + ".state", attr("state"), [&] { return Show(symbolic::Stringify(n.state())); }); return;
        case 2: Expect(me + ".depth", attr("depth"), [&] { return Show(n.depth()); }); return;
        case 3: {
          const auto copy = Keep(n);
          const Ref x = Expect("PlannerNode(" + me + ")", [&] { return simpy::Construct("PlannerNode", {h.py}); }, [&] { return Show(*copy); });
          Add(w, x, kNode, h.pddl, copy, copy.get(), "PlannerNode(" + me + ")");
          return;
        }
        case 4: {
          auto all = std::make_shared<std::vector<Node>>();
          const Ref l = Expect("list(" + me + ")",
                               [&] {
                                 const Ref it = simpy::CallMethod(h.py, "__iter__");
                                 const Ref list = simpy::New(simpy::kList);
                                 try {
                                   for (;;) list->items.push_back(simpy::CallMethod(it, "__next__"));
                                 } catch (const simpy::PyError& e) {
                                   if (e.kind != "StopIteration") throw;
                                 }
                                 return list;
                               },
                               [&] {
                                 for (const Node& c : n) all->push_back(c);
                                 return Show(*all);
                               });
          AddSome(w, r, l, kNode, h, all, *all, "list(" + me + ")");
          return;
        }
        case 5: {
          const size_t depth = r.Range(0, 2);
          auto s = std::make_shared<SearchShadow>();
          s->root = Keep(n);
          s->depth = depth;
          // Every look at the clock takes a while, so that a time limit is a number of nodes.
          static const int64_t kMillis[] = {1, 400, 600, 750, 999, 1001, 1900, 2250, 3100, 60250, 1000250, -1500};
          const int64_t ms = r.Chance(1, 3) ? kMillis[r.Below(12)] : 0;
          s->bfs = std::make_unique<Search>(*s->root, depth, false, std::chrono::milliseconds(ms));
          const std::string label = "BreadthFirstSearch(" + me + ", " + std::to_string(depth) + (ms == 0 ? "" : ", timeout=" + std::to_string(ms) + " ms") + ")";
          simpy::Kwargs options;
          if (r.Chance(1, 2)) options["verbose"] = simpy::Bool(false);
          if (ms != 0) {
            options["timeout"] = ms == -1500 ? simpy::Int(-1) : simpy::Float(static_cast<double>(ms) / 1000);
            sim::CurrentRun()->Probe("searches with a time limit");
          } else if (r.Chance(1, 6)) {
            options["timeout"] = r.Chance(1, 2) ? simpy::Int(0) : simpy::Float(0);
          }
          const Ref x = Expect(label, [&] { return simpy::Construct("BreadthFirstSearch", {h.py, simpy::Int(depth)}, options); },
                               [&] { return std::string("<BreadthFirstSearch>"); });
          Add(w, x, kSearch, h.pddl, s, s.get(), label);
          return;
        }
        default: {
          auto all = std::make_shared<std::vector<Node>>();
          const Got g = Lib([&] {
            for (const Node& c : n) all->push_back(c);
            return std::string();
          });
          if (!g.error.empty()) return;
          const Ref it = Iter(h.py, "iter(" + me + ")");
          if (it) Add(w, it, kNodeIter, h.pddl, all, all.get(), "iter(" + me + ")");
          return;
        }
      }
    }
    case kNodeIter: {
      const auto& all = h.as<std::vector<Node>>();
      const size_t i = h.next;
      const Ref x = Expect("next(" + me + ") #" + std::to_string(i), method("__next__"), [&]() -> std::string {
        if (i >= all.size()) throw simpy::PyError("StopIteration", "");
        return Show(all[i]);
      });
      if (!x) return;
      w->vars[index].next++;
      if (r.Chance(1, 2)) Add(w, x, kNode, h.pddl, h.keep, &all[i], "next(" + me + ")");
      return;
    }
    case kSearch: {
      // Shadows are shared by the variables that name one search.
      SearchShadow& s = const_cast<SearchShadow&>(h.as<SearchShadow>());
      if (r.Chance(1, 4)) {
        // An iterator is its own iterator.
        const Ref x = Iter(h.py, "iter(" + me + ")");
        if (x) Add(w, x, kSearch, h.pddl, h.keep, h.at, "iter(" + me + ")");
        return;
      }
      auto plan = std::make_shared<std::vector<Node>>();
      const Ref l = Expect("next(" + me + ")", method("__next__"), [&]() -> std::string {
        if (!s.started) {
          s.it = s.bfs->begin();
          s.started = true;
        } else if (!s.over) {
          ++s.it;
        }
        if (s.it == s.bfs->end()) {
          s.over = true;
          throw simpy::PyError("StopIteration", "");
        }
        *plan = *s.it;
        return Show(*plan);
      });
      if (l) sim::CurrentRun()->Probe("plans found from Python");
      if (l && !plan->empty()) AddSome(w, r, l, kNode, h, plan, *plan, "next(" + me + ")");
      return;
    }
    case kDnf: {
      const auto& d = h.as<symbolic::DisjunctiveFormula>();
      if (r.Chance(1, 3)) {
        Expect("repr(" + me + ")", method("__repr__"), [&] { return Show(Print(d)); });
      } else {
        const Ref l = Expect(me + ".conjunctions", attr("conjunctions"), [&] { return Show(d.conjunctions); });
        AddSome(w, r, l, kPartial, h, h.keep, d.conjunctions, me + ".conjunctions");
      }
      return;
    }
    case kPartial: {
      const auto& s = h.as<symbolic::PartialState>();
      if (r.Chance(1, 2)) Expect(me + ".pos", attr("pos"), [&] { return Show(symbolic::Stringify(s.pos())); });
      else Expect(me + ".neg", attr("neg"), [&] { return Show(symbolic::Stringify(s.neg())); });
      return;
    }
  }
}

void Delete(World* w, size_t i, Rng& r) {
  const H gone = w->vars[i];
  w->vars.erase(w->vars.begin() + i);
  if (gone.kind == kPddl || gone.kind == kPlanner || gone.kind == kNode) sim::CurrentRun()->Probe("owners dropped while something refers to them");
  LogS("del " + gone.from);
  sim::CurrentRun()->Fired(sim::kSourceGone);
  Ref py = gone.py;
  const_cast<H&>(gone).py.reset();
  Drop(w, &py, r.Chance(2, 3));
}

// Keeps the axioms that never make a fact of one predicate both true and false: with others, the
// consequences of a state need not settle.
void Settle(model::Problem* p) {
  std::map<int, int> sign;
  std::function<bool(const std::vector<model::Effect>&, std::map<int, int>*)> collect = [&](const std::vector<model::Effect>& es, std::map<int, int>* out) {
    for (const model::Effect& e : es) {
      if (e.kind == model::Effect::kMust) return false;
      if (e.kind == model::Effect::kAdd || e.kind == model::Effect::kDel) {
        const int s = e.kind == model::Effect::kAdd ? 1 : 2;
        if (!out->emplace(e.pred, s).second && (*out)[e.pred] != s) return false;
      }
      if (!collect(e.kids, out)) return false;
    }
    return true;
  };
  std::vector<model::Axiom> keep;
  for (const model::Axiom& a : p->axioms) {
    std::map<int, int> with = sign;
    if (!collect(a.effects, &with)) continue;
    sign = with;
    keep.push_back(a);
  }
  p->axioms = keep;
}

void Build(Run& run) {
  static pybind11::module_* module = [] {
    auto* m = new pybind11::module_;
    sim_py_load_module(*m);
    return m;
  }();
  (void)module;
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  model::Options o;
  o.max_objects = 3;
  o.max_action_arity = rng.Chance(1, 8) ? 3 : 2;
  o.min_objects = 1;
  o.max_preds = 3;
  o.max_actions = 3;
  o.max_depth = 1;
  o.max_facts = 14;
  if (rng.Chance(1, 2)) o.max_axioms = 2;
  o.acyclic_axioms = true;
  if (rng.Chance(1, 2)) o.max_rules = 2;
  for (size_t i = 0, n = rng.Chance(1, 3) ? 2 : 1; i < n; i++) {
    w->sources.push_back(model::Problem::Random(rng, o));
    Settle(&w->sources[i]);
    sim::FsPut("/simfs/d" + std::to_string(i) + ".pddl", {w->sources[i].DomainText()});
    sim::FsPut("/simfs/p" + std::to_string(i) + ".pddl", {w->sources[i].ProblemText()});
  }
  sim::SetReadCost(500000000);
  run.SetGap(0);
  run.AddClient();
  const uint64_t first = rng.Next();
  run.AddOp(0, "load", [=] {
    Rng r(first);
    NewPddl(w.get(), r);
  });
  for (int k = rng.Range(8, 40); k > 0; k--) {
    const uint64_t sub = rng.Next();
    const int what = rng.Range(0, 19);
    if (what < 14) {
      sim::Op& op = run.AddOp(0, "use a variable", [=] {
        if (w->vars.empty()) return;
        Rng r(sub);
        // Newer variables more often.
        size_t i = r.Below(w->vars.size());
        if (r.Chance(1, 2)) i = std::max<size_t>(i, r.Below(w->vars.size()));
        // An iterator that fails half way is not promised to go on.
        const HKind k = w->vars[i].kind;
        if (k == kGenIter || k == kNodeIter || k == kSearch) sim::ArmAlloc(0);
        Use(w.get(), i, r.Next());
      });
      if (rng.Chance(1, 10)) AddAllocFault(run, op, rng, 40, 2);
    } else if (what < 18) {
      run.Planned(sim::kSourceGone);
      run.AddOp(0, "drop a variable", [=] {
        if (w->vars.size() < 2) return;
        Rng r(sub);
        size_t i = r.Below(w->vars.size());
        // Owners first, often.
        for (int t = 0; t < 3 && w->vars[i].kind != kPddl; t++) i = std::min<size_t>(i, r.Below(w->vars.size()));
        Delete(w.get(), i, r);
      });
    } else if (what < 19) {
      run.AddOp(0, "collect", [=] { Collect(w.get()); });
    } else {
      run.AddOp(0, "load again", [=] {
        Rng r(sub);
        if (w->vars.size() < 12) NewPddl(w.get(), r);
      });
    }
  }
  const uint64_t last = rng.Next();
  run.AtEnd([=] {
    // The interpreter shuts down: in any order, what is left must still work.
    Rng r(last);
    while (!w->vars.empty() && !sim::CurrentRun()->failed()) {
      Delete(w.get(), r.Below(w->vars.size()), r);
      if (r.Chance(1, 3)) Collect(w.get());
      if (!w->vars.empty() && r.Chance(1, 2)) Use(w.get(), r.Below(w->vars.size()), r.Next());
      if (r.Chance(1, 10) && w->vars.size() > 4) break;
    }
    for (H& v : w->vars) {
      Ref py = v.py;
      v.py.reset();
      Drop(w.get(), &py, true);
    }
    Collect(w.get());
    if (sim::CurrentRun()->failed()) return;
    if (!simpy::Py().instances.empty()) {
      Bad("immortal", std::to_string(simpy::Py().instances.size()) + " instances outlive every reference to them");
      simpy::Py().instances.clear();
    }
  });
}

sim::Register reg({"C19", Build,
                   "One run: a Python session of 8-40 steps: problems are loaded, every function and property of the module is called "
                   "on whatever earlier calls returned (with ill-formed arguments and failing allocations), variables are dropped and "
                   "collected at drawn points, owners first; each result equals that of the same library call on objects that live on, "
                   "and nothing that a variable still names may be freed. Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"src/python/symbolic.cc", "src/pddl.cc", "src/object.cc", "src/action.cc", "src/axiom.cc", "src/derived_predicate.cc",
                    "src/formula.cc", "src/normal_form.cc", "src/predicate.cc", "src/state.cc", "src/utils/parameter_generator.cc",
                    "src/planning/planner.cc"},
                   {"Python interpreter and pybind11 (stand-in: counted references, conversions, return value policies, keep_alive)",
                    "allocator (fault-injecting)", "VAL parser (stand-in)"},
                   {"one interpreter thread (the module holds the interpreter lock)",
                    "objects obtained from a problem are not used after objects were added to or removed from it"}});
}  // namespace
SIM_HARNESS_END
