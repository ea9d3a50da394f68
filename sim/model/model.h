// Independent reference model: a random generator of small PDDL domains and problems, their text,
// and a direct interpreter of their meaning. Shares no code with the library.
#ifndef SIM_MODEL_MODEL_H_
#define SIM_MODEL_MODEL_H_

#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "engine/sim.h"

namespace model {

struct Atom {
  int pred = 0;
  std::vector<int> args;
  bool operator<(const Atom& o) const { return pred != o.pred ? pred < o.pred : args < o.args; }
  bool operator==(const Atom& o) const { return pred == o.pred && args == o.args; }
};
using State = std::set<Atom>;
using Partial = std::map<Atom, bool>;
struct Term {
  int var = -1;  // index into the environment
  int obj = -1;  // or an object
};
struct Goal {
  enum Kind { kAtom, kEq, kType, kAnd, kOr, kNot, kForall, kExists } kind = kAnd;
  int pred = -1;  // kAtom: predicate, kType: type
  std::vector<Term> terms;
  std::vector<Goal> kids;
  std::vector<int> vars;  // types of the quantified variables
  int first_var = 0;
  std::vector<int> names;  // what they are called, when not by their own index (hiding outer ones)
};
struct Effect {
  enum Kind { kAdd, kDel, kForall, kWhen, kMust } kind = kAdd;  // kMust: of axioms, cond (kEq, kType or its negation) holds
  int pred = -1;
  std::vector<Term> terms;
  std::vector<int> vars;
  int first_var = 0;
  std::vector<int> names;
  Goal cond;
  std::vector<Effect> kids;
};
struct Pred {
  std::string name;
  std::vector<int> params;
  int stratum = 0;  // > 0: derived
};
struct Action {
  std::string name;
  std::vector<int> params;
  Goal pre;
  std::vector<Effect> effects;
};
struct Axiom {
  std::vector<int> params;
  bool positive = true;
  int pred = -1;
  std::vector<Term> terms;
  std::vector<Effect> effects;  // no kWhen; kMust only at the top
};
struct Rule {
  int pred = -1;
  Goal body;  // variables 0 .. arity-1 are the head's parameters
};

struct Options {
  int max_types = 3, min_objects = 2, max_objects = 4, max_preds = 5, max_actions = 4, max_axioms = 0, max_rules = 0;
  int max_depth = 2;
  int max_facts = 60;         // bound on ground facts of one predicate set
  int max_arity = 2, max_action_arity = 2;
  int outsize = 0;            // one in so many problems is larger than the numbers above say
  bool quantifiers = true, conditional = true, type_goals = true, equality = true;
  bool zero_arity_actions = true, empty_types = true, deep_names = true, hiding = true;
  bool acyclic_axioms = false;
  bool axiom_forall = false, constraints = false;
  bool no_actions = false, no_preds = false;
  bool grows = false;         // objects will be added
  bool long_lists = false;    // some predicates and actions have a great many parameters
};

using Env = std::vector<int>;

class Problem {
 public:
  std::vector<int> parent;  // per type; -1: object
  std::vector<std::string> type_names;
  std::vector<int> type_order;  // of the declarations; types left out are only named as others' parents
  bool bare = false;  // "object" is left out where it can be
  std::vector<std::string> objects;
  std::vector<int> type_of;  // kGone: removed, but facts may still mention it
  static constexpr int kGone = -2;
  bool Alive(int object) const { return type_of[object] != kGone; }
  int constants = 0;  // the first ones are domain constants
  std::vector<Pred> preds;
  std::vector<Action> actions;
  std::vector<Axiom> axioms;
  std::vector<Rule> rules;
  State init;
  Goal goal;

  static Problem Random(sim::Rng& rng, const Options& o);

  std::string DomainText() const;
  std::string ProblemText() const;

  std::string TypeName(int t) const { return t < 0 ? "object" : type_names[t]; }
  bool IsA(int object, int type) const;
  bool Inhabited(int type) const;
  std::vector<int> ObjectsOf(int type) const;
  // All argument vectors, last parameter fastest.
  std::vector<std::vector<int>> Args(const std::vector<int>& types) const;
  std::string Show(const Atom& a) const;
  std::string Call(const Action& a, const std::vector<int>& args) const;
  std::set<std::string> Strings(const State& s) const;
  std::string Show(const State& s) const;
  std::vector<Atom> AllAtoms() const;
  std::vector<Atom> BasicAtoms() const;
  bool Parse(const std::string& text, Atom* a) const;
  // Reads a set of fact strings back; false (and *bad set) if one is not a ground fact.
  bool Parse(const std::set<std::string>& text, State* s, std::string* bad) const;
  int FindObject(const std::string& name) const;

  bool Eval(const Goal& g, Env& env, const State& s) const;
  bool Holds(const Goal& g, const std::vector<int>& args, const State& s) const {
    Env env = args;
    return Eval(g, env, s);
  }
  bool IsApplicable(const State& s, const Action& a, const std::vector<int>& args) const {
    return Holds(a.pre, args, s);
  }
  // Effects and axiom consequences, without derived facts. Nothing if the step is ambiguous: a fact
  // would be both added and deleted. Conditions of effects are evaluated in s.
  // Nothing and *broken if an axiom forbids it.
  std::optional<State> ApplyBasic(const State& s, const Action& a, const std::vector<int>& args, bool* broken = nullptr) const;
  std::optional<Partial> ApplyPartial(const Partial& s, const Action& a, const std::vector<int>& args, bool* broken = nullptr) const;
  State Derive(const State& s) const;
  std::optional<State> Next(const State& s, const Action& a, const std::vector<int>& args, bool* broken = nullptr) const {
    auto n = ApplyBasic(s, a, args, broken);
    if (!n) return n;
    return Derive(*n);
  }
  // Least set of changes making every axiom hold; nothing if ambiguous, or (*broken) if an axiom forbids it.
  std::optional<State> Closure(const State& s, bool* broken = nullptr) const;
  bool SatisfiesAxioms(const State& s) const;
  bool HasConstraints() const;  // axioms that forbid something
  // Chase of a partial state; nothing on conflict.
  std::optional<Partial> Chase(const Partial& s) const;
  std::vector<std::pair<int, std::vector<int>>> Applicable(const State& s) const;

  State RandomState(sim::Rng& rng, bool with_derived) const;

 private:
  void CollectAtoms(const Goal& g, Env& env, std::set<Atom>* out) const;
  bool Ground(const std::vector<Effect>& es, Env& env, const std::function<int(const Goal&, Env&)>& eval,
              std::map<Atom, int>* out) const;
  // What an axiom whose context holds makes true (1) and false (2); false if it is impossible.
  bool Implied(const Axiom& ax, const std::vector<int>& args, std::map<Atom, int>* out) const;
  // Adds the consequences of the changes; false on conflict. `changes`: 1 add, 2 del.
  bool Trigger(const std::function<int(const Atom&)>& value, std::map<Atom, int>* changes, bool* broken) const;
  Atom Instantiate(int pred, const std::vector<Term>& terms, const Env& env) const;
  void ForAll(const std::vector<int>& types, Env& env, const std::function<bool(Env&)>& f) const;
  std::string Text(const Goal& g) const;
  std::string Text(const Effect& e) const;
  std::string Text(const std::vector<Term>& terms) const;
  std::string Typing(const std::vector<int>& types, size_t i, size_t end) const;
  std::string TypedVars(const std::vector<int>& types, int first) const;
  mutable std::map<int, int> hiding_;  // variable -> name, while text is written
};

}  // namespace model

#endif  // SIM_MODEL_MODEL_H_
