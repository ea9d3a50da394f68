// C14: copies answer like their originals, outlive them, and never disturb one another.
#include <algorithm>

#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::Action;
using symbolic::Axiom;
using symbolic::DerivedPredicate;
using symbolic::Formula;
using symbolic::Object;
using symbolic::ParameterGenerator;
using symbolic::PartialState;
using symbolic::Planner;
using symbolic::Predicate;
using symbolic::Proposition;
using symbolic::SignedProposition;
using symbolic::State;
using symbolic::StateIndex;
using Bfs = symbolic::BreadthFirstSearch<Planner::Node>;
using Dfs = symbolic::DepthFirstSearch<Planner::Node>;
struct Shorter {
  bool operator()(const symbolic::SearchNode<Planner::Node>& a, const symbolic::SearchNode<Planner::Node>& b) const {
    return a.ancestors.size() > b.ancestors.size();
  }
};
using Ast = symbolic::AStar<Planner::Node, Shorter>;

// What a thing stands for: copied along with it.
struct Id {
  int number = -1;                 // which action, predicate, ...
  bool pre = false;                // formula: precondition of the action instead of the goal
  std::vector<int> params;         // generators
  std::vector<std::string> texts;  // what it said when it was the only one
  std::vector<std::string> row;    // iterators: what lies ahead, in order
  size_t at = 0;                   // iterators: how far it is
  model::State s;                  // states
  model::Partial ps;
  std::string name;
};

struct Any {
  Id id;
  virtual ~Any() = default;
  virtual int Kind() const = 0;
  virtual std::unique_ptr<Any> Copy() const = 0;
  virtual std::unique_ptr<Any> Move() { return nullptr; }
  virtual bool Assign(const Any&) { return false; }      // contents only
  virtual bool MoveAssign(Any&) { return false; }
  virtual bool Swap(Any&) { return false; }
  virtual bool Relocate() { return false; }
  virtual bool Use(Rng& r, int client, const std::string& where) const = 0;
  virtual bool Change(Rng& r, int client) { return false; }
};

struct World : QWorld {
  std::vector<std::unique_ptr<Planner>> planners;
  std::vector<std::shared_ptr<void>> keep;
  std::vector<std::vector<Object>> tuples;
  std::vector<std::unique_ptr<Any>> shared;
  struct Slot {
    std::unique_ptr<Any> v;
    bool good = true;  // not moved from
  };
  std::vector<std::vector<Slot>> slots;  // per client
};
World* g_w = nullptr;

std::string ShowArgs(const std::vector<Object>& args) {
  std::string s = "(";
  for (size_t i = 0; i < args.size(); i++) s += (i ? ", " : "") + args[i].name();
  return s + ")";
}
std::string ShowNode(const Planner::Node& n) {
  std::string s = n.action() + " at " + std::to_string(n.depth()) + " {";
  for (const auto& x : symbolic::Stringify(n.state())) s += x + " ";
  return s + "}";
}
std::string ShowPlan(const std::vector<Planner::Node>& plan) {
  std::string s;
  for (const Planner::Node& n : plan) s += "/" + n.action();
  for (const Planner::Node& n : plan) s += " " + ShowNode(n);
  return s;
}
template <typename T>
std::string Printed(const T& x) {
  std::stringstream ss;
  ss << x;
  return ss.str();
}
bool Same(const std::string& where, const std::vector<std::string>& have, const std::vector<std::string>& want) {
  for (auto& x : have) LogS(x);
  if (have == want) return true;
  for (size_t i = 0; i < have.size() || i < want.size(); i++) {
    const std::string a = i < have.size() ? have[i] : "(nothing)", b = i < want.size() ? want[i] : "(nothing)";
    if (a == b) continue;
    Bad("changed-copy", where + ": says \"" + a.substr(0, 300) + "\" instead of \"" + b.substr(0, 300) + "\"");
    break;
  }
  return false;
}
// Runs `f` inside the library and compares what it says.
bool Says(const std::string& where, const std::function<void(std::vector<std::string>*)>& f, const std::vector<std::string>& want) {
  std::vector<std::string> have;
  return Must("unexpected-error", where, [&] { f(&have); }) && Same(where, have, want);
}
bool Ask(Rng& r, int client, const std::string& where, const Kinds& kinds, Instead instead) {
  instead.name = where;
  const Query q = DrawQuery(r, *g_w, client, kinds, false, instead);
  if (!q) return true;
  LogS(q.label);
  return Answer(q);
}

// ---- how each kind of thing is used
void Texts(const Action& a, std::vector<std::string>* v) {
  v->push_back(a.name());
  v->push_back(Printed(a));
  v->push_back(a.to_string());
  v->push_back(ShowArgs(a.parameters()));
  v->push_back(a.preconditions().to_string());
  v->push_back(&a.pddl() == g_w->pddl.get() ? "its problem" : "another problem");
  v->push_back(&a.parameter_generator().pddl() == g_w->pddl.get() ? "its problem" : "another problem");
}
bool UseIt(const Action& a, const Id& id, Rng& r, int client, const std::string& where) {
  if (!Says(where, [&](auto* v) { Texts(a, v); }, id.texts)) return false;
  Instead in;
  in.action = &a;
  in.number = id.number;
  const Kinds kinds = {{kActionValid, 3}, {kActionApply, 4}, {kActionPartialValid, 2}, {kActionPartialApply, 2}, {kParameters, 2}};
  return Ask(r, client, where, kinds, in);
}
void Listing(const ParameterGenerator& gen, std::vector<std::string>* v) {
  v->push_back(std::to_string(gen.size()) + (gen.empty() ? " none" : " some"));
  v->push_back(&gen.pddl() == g_w->pddl.get() ? "its problem" : "another problem");
  size_t n = 0;
  for (const std::vector<Object>& args : gen) {
    v->push_back(ShowArgs(args));
    if (++n > 5000) break;
  }
}
std::vector<std::string> Tuples(const std::vector<int>& params) {
  const auto all = g_w->p.Args(params);
  std::vector<std::string> v{std::to_string(all.size()) + (all.empty() ? " none" : " some"), "its problem"};
  for (auto& args : all) {
    std::vector<std::string> names;
    for (int o : args) names.push_back(g_w->p.objects[o]);
    v.push_back("(" + Join(names) + ")");
  }
  return v;
}
bool UseIt(const ParameterGenerator& gen, const Id& id, Rng& r, int, const std::string& where) {
  const auto want = Tuples(id.params);
  switch (r.Range(0, 2)) {
    case 0:
      return Says(where, [&](auto* v) { Listing(gen, v); }, want);
    case 1: {
      std::vector<std::string> back{want[0], want[1]};
      back.insert(back.end(), want.rbegin(), want.rend() - 2);
      return Says(where + " backward", [&](auto* v) {
        v->push_back(std::to_string(gen.size()) + (gen.empty() ? " none" : " some"));
        v->push_back("its problem");
        if (gen.empty()) return;
        auto it = gen.end();
        do {
          --it;
          v->push_back(ShowArgs(*it));
        } while (it != gen.begin() && v->size() < 5000);
      }, back);
    }
    default: {
      if (want.size() == 2) return true;
      const size_t i = r.Below(want.size() - 2);
      return Says(where + " at " + std::to_string(i), [&](auto* v) { v->push_back(ShowArgs(*(gen.begin() + i))); }, {want[2 + i]});
    }
  }
}
bool UseIt(const Predicate& x, const Id& id, Rng&, int, const std::string& where) {
  std::vector<std::string> want = id.texts;
  const auto listing = Tuples(id.params);
  want.insert(want.end(), listing.begin(), listing.end());
  return Says(where, [&](auto* v) {
    v->push_back(x.name());
    v->push_back(x.to_string());
    v->push_back(Printed(x));
    v->push_back(ShowArgs(x.parameters()));
    v->push_back(&x.pddl() == g_w->pddl.get() ? "its problem" : "another problem");
    Listing(x.parameter_generator(), v);
  }, want);
}
bool UseIt(const Formula& f, const Id& id, Rng& r, int client, const std::string& where) {
  if (!Says(where, [&](auto* v) {
        v->push_back(f.to_string());
        v->push_back(Printed(f));
      }, id.texts))
    return false;
  if (!id.pre) {
    Instead in;
    in.goal = &f;
    return Ask(r, client, where, {{kGoal, 3}, {kGoalPartial, 2}}, in);
  }
  const model::Problem& p = g_w->p;
  const auto all = p.Args(p.actions[id.number].params);
  if (all.empty()) return true;
  const auto& args = all[r.Below(all.size())];
  const size_t k = r.Below(g_w->ms.size());
  const std::vector<Object> objs = g_w->Objects(args);
  return Says(where + " of " + p.Call(p.actions[id.number], args) + " in state " + std::to_string(k),
              [&](auto* v) { v->push_back(f(g_w->rs[k], objs) ? "yes" : "no"); },
              {p.Holds(p.actions[id.number].pre, args, g_w->ms[k]) ? "yes" : "no"});
}
bool UseIt(const StateIndex& x, const Id&, Rng& r, int client, const std::string& where) {
  const auto all = g_w->p.AllAtoms();
  if (!Says(where, [&](auto* v) {
        v->push_back(std::to_string(x.size()));
        v->push_back(&x.pddl() == g_w->pddl.get() ? "its problem" : "another problem");
      }, {std::to_string(all.size()), "its problem"}))
    return false;
  Instead in;
  in.index = &x;
  if (all.empty() || r.Chance(1, 3)) return Ask(r, client, where, {{kIndex, 1}}, in);
  const model::Atom& a = all[r.Below(all.size())];
  const Proposition f = g_w->Fact(a);
  return Says(where + " on " + g_w->p.Show(a), [&](auto* v) {
    const size_t n = x.GetPropositionIndex(f);
    v->push_back(x.GetProposition(n).to_string());
    v->push_back(g_w->pddl->state_index().GetProposition(n).to_string());
  }, {g_w->p.Show(a), g_w->p.Show(a)});
}
bool UseIt(const std::vector<DerivedPredicate>& rules, const Id& id, Rng& r, int client, const std::string& where) {
  if (!Says(where, [&](auto* v) {
        for (const DerivedPredicate& x : rules) Texts(x, v);
      }, id.texts))
    return false;
  Instead in;
  in.rules = &rules;
  return Ask(r, client, where, {{kDerived, 1}}, in);
}
void Texts(const Axiom& a, std::vector<std::string>* v) {
  v->push_back(a.name());
  v->push_back(Printed(a));
  v->push_back(a.context().sign() + a.context().to_string());
  for (const State& s : g_w->rs) {
    v->push_back(a.IsConsistent(s) ? "consistent" : "not consistent");
    const State t = a.Apply(s);
    for (const auto& x : symbolic::Stringify(t)) v->push_back(x);
  }
  for (const PartialState& s : g_w->rp) v->push_back(a.IsConsistent(s) ? "consistent" : "not consistent");
}
bool UseIt(const Axiom& a, const Id& id, Rng&, int, const std::string& where) {
  return Says(where, [&](auto* v) { Texts(a, v); }, id.texts);
}
bool UseIt(const Planner::Node& n, const Id& id, Rng& r, int, const std::string& where) {
  if (!Says(where, [&](auto* v) {
        v->push_back(ShowNode(n));
        v->push_back(n ? "goal" : "no goal");
      }, id.texts))
    return false;
  if (r.Chance(1, 2)) return true;
  return Says(where + ", its children", [&](auto* v) {
    for (const Planner::Node& c : n) {
      v->push_back(ShowNode(c));
      if (v->size() > 500) break;
    }
  }, id.row);
}
bool UseIt(const Planner::Node::iterator& it, const Id& id, Rng&, int, const std::string& where) {
  if (id.at >= id.row.size()) return true;
  return Says(where, [&](auto* v) { v->push_back(ShowNode(*it)); }, {id.row[id.at]});
}
template <typename It>
bool UseSearch(const It& it, const Id& id, const std::string& where) {
  if (id.at >= id.row.size()) return true;
  return Says(where, [&](auto* v) { v->push_back(ShowPlan(*it)); }, {id.row[id.at]});
}
bool UseIt(const Bfs::iterator& it, const Id& id, Rng&, int, const std::string& w) { return UseSearch(it, id, w); }
bool UseIt(const Dfs::iterator& it, const Id& id, Rng&, int, const std::string& w) { return UseSearch(it, id, w); }
bool UseIt(const Ast::iterator& it, const Id& id, Rng&, int, const std::string& w) { return UseSearch(it, id, w); }
bool UseIt(const State& s, const Id& id, Rng& r, int, const std::string& where) {
  std::vector<std::string> want;
  for (auto& x : g_w->p.Strings(id.s)) want.push_back(x);
  if (r.Chance(1, 3))
    return Says(where, [&](auto* v) {
      for (const auto& x : symbolic::Stringify(s)) v->push_back(x);
    }, want);
  const auto have = FactsOf(s, where);
  if (!Same(where, {have.begin(), have.end()}, want)) return false;
  const State twin = g_w->Real(id.s, r);
  return Says(where, [&](auto* v) { v->push_back(s == twin && twin == s && std::hash<State>{}(s) == std::hash<State>{}(twin) ? "same" : "different"); },
              {"same"});
}
bool UseIt(const PartialState& s, const Id& id, Rng&, int, const std::string& where) {
  model::Partial have;
  if (!g_w->Read(s, where, &have)) return false;
  LogS(g_w->Show(have));
  if (have != id.ps) Bad("changed-copy", where + ": is " + g_w->Show(have) + " instead of " + g_w->Show(id.ps));
  return have == id.ps;
}
void TextsOfFact(const symbolic::PropositionBase& f, const Id& id, std::vector<std::string>* v) {
  v->push_back(f.to_string());
  v->push_back(f.to_pddl());
  v->push_back(Printed(f));
  v->push_back(ShowFact(f));
}
bool UseIt(const Proposition& f, const Id& id, Rng&, int, const std::string& where) {
  const Proposition twin(*g_w->pddl, id.texts[0]);
  return Says(where, [&](auto* v) {
    TextsOfFact(f, id, v);
    v->push_back(f == twin && f.hash() == twin.hash() && !(f < twin) && !(twin < f) ? "same" : "different");
  }, id.texts);
}
bool UseIt(const SignedProposition& f, const Id& id, Rng&, int, const std::string& where) {
  return Says(where, [&](auto* v) {
    TextsOfFact(f, id, v);
    v->push_back(f.sign());
  }, id.texts);
}
bool UseIt(const Object& o, const Id& id, Rng&, int, const std::string& where) {
  const Object twin(*g_w->pddl, id.texts[0]);
  return Says(where, [&](auto* v) {
    v->push_back(o.name());
    v->push_back(o.type().name());
    v->push_back(o == twin && std::hash<Object>{}(o) == std::hash<Object>{}(twin) ? "same" : "different");
  }, id.texts);
}

// ---- how some of them are moved on
template <typename T>
bool ChangeIt(T&, Id&, Rng&, int) {
  return false;
}
bool ChangeIt(State& s, Id& id, Rng& r, int) {
  const auto all = g_w->p.AllAtoms();
  if (all.empty()) return false;
  const model::Atom& a = all[r.Below(all.size())];
  const Proposition f = g_w->Fact(a);
  const bool add = r.Chance(1, 2);
  const bool want = add ? id.s.insert(a).second : id.s.erase(a) > 0;
  LogS((add ? "adding " : "taking out ") + g_w->p.Show(a));
  return Says("changing a state", [&](auto* v) { v->push_back((add ? s.insert(f) : s.erase(f)) ? "changed" : "unchanged"); },
              {want ? "changed" : "unchanged"});
}
bool ChangeIt(PartialState& s, Id& id, Rng& r, int) {
  const auto all = g_w->p.AllAtoms();
  if (all.empty()) return false;
  const model::Atom& a = all[r.Below(all.size())];
  const Proposition f = g_w->Fact(a);
  const bool add = r.Chance(1, 2);
  auto it = id.ps.find(a);
  const int want = it == id.ps.end() ? 1 : it->second == add ? 0 : 2;
  id.ps[a] = add;
  return Says("changing a partial state", [&](auto* v) { v->push_back(Code(add ? s.insert(f) : s.erase(f))); }, {Code(want)});
}
bool ChangeIt(Planner::Node::iterator& it, Id& id, Rng&, int) {
  if (id.at >= id.row.size()) return false;
  id.at++;
  return Must("unexpected-error", "advancing an iterator over children", [&] { ++it; });
}
template <typename It>
bool Advance(It& it, Id& id) {
  if (id.at >= id.row.size()) return false;
  id.at++;
  LogS("advancing to plan " + std::to_string(id.at));
  return Must("unexpected-error", "advancing a search", [&] { ++it; });
}
bool ChangeIt(Bfs::iterator& it, Id& id, Rng&, int) { return Advance(it, id); }
bool ChangeIt(Dfs::iterator& it, Id& id, Rng&, int) { return Advance(it, id); }
bool ChangeIt(Ast::iterator& it, Id& id, Rng&, int) { return Advance(it, id); }

template <typename T>
int KindOf() {
  static const char here = 0;
  return static_cast<int>(reinterpret_cast<uintptr_t>(&here) & 0x7fffffff);
}
template <typename T>
struct AnyOf : Any {
  virtual const T& Get() const = 0;
  int Kind() const override { return KindOf<T>(); }
  inline std::unique_ptr<Any> Copy() const override;
  bool Use(Rng& r, int client, const std::string& where) const override { return UseIt(Get(), id, r, client, where + " of " + id.name); }
};
template <typename T>
struct Original : AnyOf<T> {
  const T* x;
  explicit Original(const T* t) : x(t) {}
  const T& Get() const override { return *x; }
};
template <typename T>
struct Thing : AnyOf<T> {
  T x;
  explicit Thing(const T& t) : x(t) {}
  explicit Thing(T&& t) : x(std::move(t)) {}
  const T& Get() const override { return x; }
  std::unique_ptr<Any> Move() override { return std::make_unique<Thing<T>>(std::move(x)); }
  bool Assign(const Any& o) override {
    if constexpr (std::is_copy_assignable_v<T>) {
      x = static_cast<const AnyOf<T>&>(o).Get();
      return true;
    }
    return false;
  }
  bool MoveAssign(Any& o) override {
    if constexpr (std::is_move_assignable_v<T>) {
      x = std::move(static_cast<Thing<T>&>(o).x);
      return true;
    }
    return false;
  }
  bool Swap(Any& o) override {
    if constexpr (std::is_move_assignable_v<T>) {
      std::swap(x, static_cast<Thing<T>&>(o).x);
      return true;
    }
    return false;
  }
  bool Relocate() override {
    // In and out of a vector that grows.
    if constexpr (std::is_move_assignable_v<T>) {
      std::vector<T> v;
      for (int i = 0; i < 3; i++) v.push_back(x);
      v.insert(v.begin(), v[1]);
      v.erase(v.begin() + 1);
      std::vector<T> w(v.begin(), v.begin() + 2);
      w = v;
      v.clear();
      x = std::move(w[1]);
      return true;
    }
    return false;
  }
  bool Change(Rng& r, int client) override { return ChangeIt(x, this->id, r, client); }
};
template <typename T>
std::unique_ptr<Any> AnyOf<T>::Copy() const {
  return std::make_unique<Thing<T>>(Get());
}

template <typename T>
void Share(World* w, const T* x, Id id) {
  auto a = std::make_unique<Original<T>>(x);
  a->id = std::move(id);
  w->shared.push_back(std::move(a));
}

// The things of the problem, with what they say now that nothing else is going on.
bool Shelve(Run& run, World* w) {
  Rng& rng = run.rng;
  const model::Problem& p = w->p;
  const symbolic::Pddl& pddl = *w->pddl;
  auto said = [&](const std::function<void(std::vector<std::string>*)>& f) {
    std::vector<std::string> v;
    Must("unexpected-error", "setting up", [&] { f(&v); });
    return v;
  };
  for (size_t i = 0; i < pddl.actions().size(); i++) {
    const Action& a = pddl.actions()[i];
    Id id;
    id.number = static_cast<int>(i);
    id.params = p.actions[i].params;
    id.name = "action " + p.actions[i].name;
    id.texts = said([&](auto* v) { Texts(a, v); });
    // That it knows its problem is no matter of comparison.
    id.texts[5] = id.texts[6] = "its problem";
    Share(w, &a, id);
    Share(w, &a, id);
    id.name = "the arguments of " + p.actions[i].name;
    Share(w, &a.parameter_generator(), id);
    id.pre = true;
    id.name = "precondition of " + p.actions[i].name;
    id.texts = said([&](auto* v) {
      v->push_back(a.preconditions().to_string());
      v->push_back(Printed(a.preconditions()));
    });
    Share(w, &a.preconditions(), id);
  }
  for (size_t i = 0; i < pddl.predicates().size(); i++) {
    const Predicate& x = pddl.predicates()[i];
    Id id;
    id.number = static_cast<int>(i);
    id.params = p.preds[i].params;
    id.name = "predicate " + p.preds[i].name;
    id.texts = said([&](auto* v) {
      v->push_back(x.name());
      v->push_back(x.to_string());
      v->push_back(Printed(x));
      v->push_back(ShowArgs(x.parameters()));
    });
    id.texts.push_back("its problem");
    Share(w, &x, id);
    id.name = "the arguments of " + p.preds[i].name;
    Share(w, &x.parameter_generator(), id);
  }
  {
    Id id;
    id.name = "the goal";
    id.texts = said([&](auto* v) {
      v->push_back(pddl.goal().to_string());
      v->push_back(Printed(pddl.goal()));
    });
    Share(w, &pddl.goal(), id);
  }
  {
    Id id;
    id.name = "the index";
    Share(w, &pddl.state_index(), id);
    auto plain = std::make_shared<std::unique_ptr<StateIndex>>();
    if (!Must("unexpected-error", "setting up", [&] { *plain = std::make_unique<StateIndex>(pddl.predicates(), rng.Chance(1, 2)); })) return false;
    id.name = "another index";
    Share(w, plain->get(), id);
    w->keep.push_back(plain);
  }
  if (!pddl.derived_predicates().empty()) {
    Id id;
    id.name = "the rules";
    id.texts = said([&](auto* v) {
      for (const DerivedPredicate& x : pddl.derived_predicates()) Texts(x, v);
    });
    for (size_t i = 0; i < id.texts.size(); i++)
      if (i % 7 >= 5) id.texts[i] = "its problem";
    Share(w, &pddl.derived_predicates(), id);
  }
  bool settled = true;
  for (auto& s : w->ms) settled = settled && p.Closure(s).has_value();
  for (size_t i = 0; settled && i < pddl.axioms().size(); i++) {
    const Axiom& a = *pddl.axioms()[i];
    Id id;
    id.number = static_cast<int>(i);
    id.name = "axiom " + std::to_string(i);
    id.texts = said([&](auto* v) { Texts(a, v); });
    Share(w, &a, id);
    id.name = "context of axiom " + std::to_string(i);
    id.texts = said([&](auto* v) {
      TextsOfFact(a.context(), id, v);
      v->push_back(a.context().sign());
    });
    Share(w, &a.context(), id);
  }
  for (size_t i = 0; i < w->rs.size(); i++) {
    Id id;
    id.name = "state " + std::to_string(i);
    id.s = w->ms[i];
    id.ps = w->mp[i];
    Share(w, &w->rs[i], id);
    id.name = "partial state " + std::to_string(i);
    Share(w, &w->rp[i], id);
  }
  const auto all = p.AllAtoms();
  if (!all.empty()) {
    const model::Atom& a = all[rng.Below(all.size())];
    auto f = std::make_shared<Proposition>(w->Fact(a));
    Id id;
    id.name = "fact " + p.Show(a);
    std::vector<std::string> words{p.preds[a.pred].name};
    for (int o : a.args) words.push_back(p.objects[o]);
    id.texts = {p.Show(a), "(" + Join(words, " ") + ")", p.Show(a), p.Show(a), "same"};
    Share(w, f.get(), id);
    w->keep.push_back(f);
  }
  const auto objects = p.ObjectsOf(-1);
  if (!objects.empty()) {
    const int o = objects[rng.Below(objects.size())];
    auto x = std::make_shared<Object>(pddl, p.objects[o]);
    Id id;
    id.name = "object " + p.objects[o];
    id.texts = {p.objects[o], p.TypeName(p.type_of[o]), "same"};
    Share(w, x.get(), id);
    w->keep.push_back(x);
  }
  if (run.failed()) return false;

  // Search nodes, searches.
  std::unique_ptr<Planner> planner;
  if (!Must("unexpected-error", "setting up", [&] { planner = std::make_unique<Planner>(pddl); })) return false;
  std::vector<std::pair<const Planner::Node*, int>> nodes{{&planner->root(), 0}};
  for (size_t k = 0; k < nodes.size() && k < 3; k++) {
    const Planner::Node* n = nodes[k].first;
    Id id;
    id.name = "node " + std::to_string(k);
    id.texts = said([&](auto* v) {
      v->push_back(ShowNode(*n));
      v->push_back(*n ? "goal" : "no goal");
    });
    std::vector<Planner::Node> kids;
    id.row = said([&](auto* v) {
      for (const Planner::Node& c : *n) {
        v->push_back(ShowNode(c));
        kids.push_back(c);
      }
    });
    if (run.failed()) return false;
    Share(w, n, id);
    if (!id.row.empty()) {
      auto it = std::make_shared<std::unique_ptr<Planner::Node::iterator>>();
      if (!Must("unexpected-error", "setting up", [&] { *it = std::make_unique<Planner::Node::iterator>(n->begin()); })) return false;
      id.name = "iterator over the children of node " + std::to_string(k);
      Share(w, it->get(), id);
      Share(w, it->get(), id);
      w->keep.push_back(it);
    }
    if (!kids.empty()) {
      auto kid = std::make_shared<Planner::Node>(rng.Pick(kids));
      nodes.emplace_back(kid.get(), nodes[k].second + 1);
      w->keep.push_back(kid);
    }
  }
  int depth = 0;
  size_t width = 1, total = 1;
  {
    const size_t kids = static_cast<size_t>(std::distance(planner->root().begin(), planner->root().end()));
    while (depth < 3 && total + width * kids <= 40) {
      width *= kids;
      total += width;
      depth++;
    }
  }
  auto search = [&](auto s, const char* name) {
    using S = typename decltype(s)::element_type;
    using It = decltype(std::declval<S&>().begin());
    Id id;
    id.name = name;
    auto it = std::make_shared<std::unique_ptr<It>>();
    id.row = said([&](auto* v) {
      for (const auto& plan : *s) {
        v->push_back(ShowPlan(plan));
        if (v->size() > 200) break;
      }
      *it = std::make_unique<It>(s->begin());
    });
    if (run.failed() || id.row.empty()) return;
    Share(w, it->get(), id);
    w->keep.push_back(s);
    w->keep.push_back(it);
    sim::CurrentRun()->Probe("search with plans to copy");
  };
  const auto shorter = std::make_shared<Shorter>();
  w->keep.push_back(shorter);
  search(std::make_shared<Bfs>(planner->root(), depth), "breadth-first search");
  search(std::make_shared<Dfs>(planner->root(), depth), "depth-first search");
  search(std::make_shared<Ast>(*shorter, planner->root(), depth), "best-first search");
  w->planners.push_back(std::move(planner));
  return !run.failed();
}

enum What { kTake = 0, kDuplicate, kAssign, kMoveOut, kMoveOver, kSelf, kSwap, kDestroy, kRelocate, kUse, kChange, kUseShared };
const char* const kNames[] = {"take", "duplicate", "assign", "move out", "move over", "assign to itself", "swap", "destroy", "relocate",
                              "use", "change", "use the original"};
const Kinds kWeights = {{kTake, 5}, {kDuplicate, 3}, {kAssign, 3}, {kMoveOut, 2}, {kMoveOver, 2}, {kSelf, 1}, {kSwap, 2}, {kDestroy, 3},
                        {kRelocate, 1}, {kUse, 8}, {kChange, 3}, {kUseShared, 2}};

void Do(World* w, int c, int what, uint64_t sub) {
  Rng r(sub);
  auto& slots = w->slots[c];
  auto any = [&](bool good) -> World::Slot* {
    std::vector<World::Slot*> v;
    for (auto& s : slots)
      if (s.v && (s.good || !good)) v.push_back(&s);
    return v.empty() ? nullptr : r.Pick(v);
  };
  auto use = [&](const World::Slot& s, const std::string& when) {
    return !s.v || !s.good || s.v->Use(r, c, when);
  };
  World::Slot& to = slots[r.Below(slots.size())];
  auto taken = [&](const Any& from, const std::string& what_from) {
    // A copy into a slot that is taken over only if it succeeds.
    std::unique_ptr<Any> t;
    const int ok = Attempt("copying " + from.id.name, [&] { t = from.Copy(); });
    if (ok < 0) return false;
    if (ok == 0) {
      LogS("no memory");
      return from.Use(r, c, "after a failed copy, the source");
    }
    t->id = from.id;
    if (!Must("unexpected-error", "destroying a copy", [&] { to.v = std::move(t); })) return false;
    to.good = true;
    return use(to, what_from);
  };
  const Any& original = *r.Pick(w->shared);
  switch (what) {
    case kTake:
      LogS(original.id.name);
      taken(original, "a copy");
      return;
    case kDuplicate: {
      World::Slot* from = any(true);
      if (from == nullptr || from == &to) return;
      LogS(from->v->id.name);
      if (!taken(*from->v, "a copy of a copy")) return;
      use(*from, "a copy that was copied");
      return;
    }
    case kAssign: {
      // Over a thing of the same kind, from another slot or an original.
      World::Slot* over = any(false);
      if (over == nullptr) return;
      std::vector<const Any*> from;
      for (auto& s : slots)
        if (s.v && s.good && &s != over && s.v->Kind() == over->v->Kind()) from.push_back(s.v.get());
      for (auto& s : w->shared)
        if (s->Kind() == over->v->Kind()) from.push_back(s.get());
      const Any* f = r.Pick(from);
      LogS(f->id.name + " over " + over->v->id.name);
      bool done = false;
      const int ok = Attempt("assigning " + f->id.name, [&] { done = over->v->Assign(*f); });
      if (ok < 0) return;
      if (ok == 0) {
        LogS("no memory");
        over->good = false;
        f->Use(r, c, "after a failed assignment, the source");
        return;
      }
      if (!done) return;
      over->v->id = f->id;
      over->good = true;
      if (!use(*over, "what was assigned over")) return;
      f->Use(r, c, "what was assigned from");
      return;
    }
    case kMoveOut: {
      World::Slot* from = any(true);
      if (from == nullptr || from == &to) return;
      LogS(from->v->id.name);
      std::unique_ptr<Any> t;
      if (!Must("unexpected-error", "moving " + from->v->id.name, [&] { t = from->v->Move(); })) return;
      t->id = from->v->id;
      from->good = false;
      const bool die = r.Chance(1, 2);
      if (!Must("unexpected-error", "destroying", [&] {
            to.v = std::move(t);
            if (die) from->v.reset();
          }))
        return;
      to.good = true;
      use(to, "what was moved");
      return;
    }
    case kMoveOver: {
      World::Slot* from = any(true);
      if (from == nullptr) return;
      std::vector<World::Slot*> over;
      for (auto& s : slots)
        if (s.v && &s != from && s.v->Kind() == from->v->Kind()) over.push_back(&s);
      if (over.empty()) return;
      World::Slot* o = r.Pick(over);
      LogS(from->v->id.name + " over " + o->v->id.name);
      bool done = false;
      if (!Must("unexpected-error", "moving " + from->v->id.name, [&] { done = o->v->MoveAssign(*from->v); })) return;
      if (!done) return;
      o->v->id = from->v->id;
      o->good = true;
      from->good = false;
      use(*o, "what was moved over");
      return;
    }
    case kSelf: {
      World::Slot* s = any(true);
      if (s == nullptr) return;
      LogS(s->v->id.name);
      bool done = false;
      const int ok = Attempt("assigning " + s->v->id.name + " to itself", [&] { done = s->v->Assign(*s->v); });
      if (ok < 0) return;
      if (ok == 0) {
        s->good = false;
        return;
      }
      use(*s, "what was assigned to itself");
      return;
    }
    case kSwap: {
      World::Slot* a = any(false);
      if (a == nullptr) return;
      std::vector<World::Slot*> with;
      for (auto& s : slots)
        if (s.v && &s != a && s.v->Kind() == a->v->Kind()) with.push_back(&s);
      if (with.empty()) return;
      World::Slot* b = r.Pick(with);
      LogS(a->v->id.name + " with " + b->v->id.name);
      bool done = false;
      if (!Must("unexpected-error", "swapping", [&] { done = a->v->Swap(*b->v); })) return;
      if (!done) return;
      std::swap(a->v->id, b->v->id);
      std::swap(a->good, b->good);
      if (use(*a, "what was swapped")) use(*b, "what was swapped");
      return;
    }
    case kDestroy: {
      World::Slot* s = any(false);
      if (s == nullptr) return;
      LogS(s->v->id.name);
      if (!Must("unexpected-error", "destroying", [&] { s->v.reset(); })) return;
      for (auto& x : slots)
        if (!use(x, "after a copy was destroyed, another")) return;
      return;
    }
    case kRelocate: {
      World::Slot* s = any(true);
      if (s == nullptr) return;
      LogS(s->v->id.name);
      const int ok = Attempt("relocating " + s->v->id.name, [&] { (void)s->v->Relocate(); });
      if (ok < 0) return;
      use(*s, ok ? "what was relocated" : "what could not be relocated");
      return;
    }
    case kUse: {
      World::Slot* s = any(true);
      if (s != nullptr) use(*s, "a copy");
      return;
    }
    case kUseShared:
      original.Use(r, c, "the original");
      return;
    case kChange: {
      World::Slot* s = any(true);
      if (s == nullptr || !s->v->Change(r, c)) return;
      if (!use(*s, "a changed copy")) return;
      for (auto& x : slots)
        if (&x != s && x.v && x.v->Kind() == s->v->Kind() && !use(x, "after another was changed, a copy")) return;
      return;
    }
  }
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  g_w = w.get();
  model::Options o;
  o.max_objects = 3;
  o.max_action_arity = rng.Chance(1, 8) ? 3 : 2;
  o.max_preds = 3;
  o.max_actions = 3;
  o.max_facts = 20;
  o.max_depth = rng.Range(1, 2);
  if (rng.Chance(1, 2)) o.max_axioms = 2;
  if (rng.Chance(1, 2)) o.max_rules = 3;
  if (!BuildQWorld(run, w.get(), o, rng.Range(1, 2))) return;
  if (!Shelve(run, w.get())) return;
  const int clients = rng.Chance(1, 3) ? 1 : rng.Range(2, 3);
  NewOwn(w.get(), clients);
  w->slots.resize(clients);
  // A few kinds at a time, so that copies of the same thing meet.
  std::vector<std::unique_ptr<Any>> some;
  rng.Shuffle(w->shared);
  const size_t kinds = 1 + rng.Below(5);
  while (w->shared.size() > kinds) {
    some.push_back(std::move(w->shared.back()));
    w->shared.pop_back();
  }
  // Others of the kinds chosen.
  for (auto& s : some)
    for (size_t k = 0; k < kinds && s; k++)
      if (s->Kind() == w->shared[k]->Kind() && rng.Chance(1, 2)) w->shared.push_back(std::move(s));
  int total = 0;
  for (auto& k : kWeights) total += k.second;
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    w->slots[c].resize(4);
    for (int n = rng.Range(4, clients == 1 ? 24 : 10); n > 0; n--) {
      const uint64_t sub = rng.Next();
      int at = rng.Range(0, total - 1), what = 0;
      for (auto& k : kWeights) {
        if (at < k.second) {
          what = k.first;
          break;
        }
        at -= k.second;
      }
      sim::Op& op = run.AddOp(c, kNames[what], [=] { Do(w.get(), c, what, sub); });
      if ((what == kTake || what == kDuplicate || what == kAssign || what == kSelf || what == kRelocate) && rng.Chance(1, 3))
        AddAllocFault(run, op, rng, 16, 2);
    }
  }
  run.AtEnd([=] {
    Rng r(7);
    for (auto& slots : w->slots)
      for (auto& s : slots)
        if (s.v && s.good && !s.v->Use(r, -1, "at the end, a copy")) return;
    for (auto& s : w->shared)
      if (!s->Use(r, -1, "at the end, the original")) return;
    CheckUntouched(*w, -1, "at the end");
    // In any order, also after the planner they came from.
    Must("unexpected-error", "destroying what is left", [&] {
      for (auto& slots : w->slots)
        for (auto& s : slots)
          if (s.v && s.v->Kind() == KindOf<Planner::Node::iterator>()) s.v.reset();
      w->shared.clear();
      w->keep.clear();
      w->planners.clear();
    });
    for (auto& slots : w->slots)
      for (auto& s : slots)
        if (s.v && s.good && s.v->Kind() != KindOf<Bfs::iterator>() && s.v->Kind() != KindOf<Dfs::iterator>() &&
            s.v->Kind() != KindOf<Ast::iterator>() && !s.v->Use(r, -1, "after everything it came from is gone, a copy"))
          return;
    Must("unexpected-error", "destroying what is left", [&] { w->slots.clear(); });
  });
}

sim::Register reg({"C14", Build,
                   "One run: 1-3 clients copy, assign, move, swap, relocate, change, use and destroy copies of the actions, predicates, "
                   "formulas, generators, indices, rules, axioms, states, facts, objects, search nodes and search iterators of one "
                   "problem, with failing allocations; every use is compared with the model or with what the original said before "
                   "there were copies. Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"src/action.cc", "src/formula.cc", "src/predicate.cc", "src/derived_predicate.cc", "src/axiom.cc", "src/state.cc",
                    "src/proposition.cc", "src/object.cc", "src/utils/parameter_generator.cc", "src/planning/planner.cc",
                    "include/symbolic/planning/*.h", "include/symbolic/utils/*.h"},
                   {"thread scheduler (seeded)", "allocator (fault-injecting)", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory",
                    "the problem itself and the searches that iterators belong to outlive the copies"}});
}  // namespace
SIM_HARNESS_END
