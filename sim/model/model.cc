#include "model/model.h"

#include <algorithm>

namespace model {

// ---- basics
bool Problem::IsA(int object, int type) const {
  if (!Alive(object)) return false;
  if (type < 0) return true;
  for (int t = type_of[object]; t >= 0; t = parent[t])
    if (t == type) return true;
  return false;
}
std::vector<int> Problem::ObjectsOf(int type) const {
  std::vector<int> v;
  for (size_t o = 0; o < objects.size(); o++)
    if (IsA(static_cast<int>(o), type)) v.push_back(static_cast<int>(o));
  return v;
}
bool Problem::Inhabited(int type) const { return !ObjectsOf(type).empty(); }

void Problem::ForAll(const std::vector<int>& types, Env& env, const std::function<bool(Env&)>& f) const {
  std::function<bool(size_t)> rec = [&](size_t i) {
    if (i == types.size()) return f(env);
    for (int o : ObjectsOf(types[i])) {
      env.push_back(o);
      const bool go = rec(i + 1);
      env.pop_back();
      if (!go) return false;
    }
    return true;
  };
  rec(0);
}
std::vector<std::vector<int>> Problem::Args(const std::vector<int>& types) const {
  std::vector<std::vector<int>> all;
  Env env;
  ForAll(types, env, [&](Env& e) {
    all.push_back(e);
    return true;
  });
  return all;
}
std::string Problem::Show(const Atom& a) const {
  std::string s = preds[a.pred].name + "(";
  for (size_t i = 0; i < a.args.size(); i++) s += (i ? ", " : "") + objects[a.args[i]];
  return s + ")";
}
std::string Problem::Call(const Action& a, const std::vector<int>& args) const {
  std::string s = a.name + "(";
  for (size_t i = 0; i < args.size(); i++) s += (i ? ", " : "") + objects[args[i]];
  return s + ")";
}
std::set<std::string> Problem::Strings(const State& s) const {
  std::set<std::string> out;
  for (const Atom& a : s) out.insert(Show(a));
  return out;
}
std::string Problem::Show(const State& s) const {
  std::string out = "{";
  for (const Atom& a : s) out += (out.size() > 1 ? ", " : "") + Show(a);
  return out + "}";
}
std::vector<Atom> Problem::AllAtoms() const {
  std::vector<Atom> v;
  for (size_t p = 0; p < preds.size(); p++)
    for (auto& args : Args(preds[p].params)) v.push_back({static_cast<int>(p), args});
  return v;
}
std::vector<Atom> Problem::BasicAtoms() const {
  std::vector<Atom> v;
  for (const Atom& a : AllAtoms())
    if (preds[a.pred].stratum == 0) v.push_back(a);
  return v;
}
int Problem::FindObject(const std::string& name) const {
  for (size_t o = 0; o < objects.size(); o++)
    if (Alive(static_cast<int>(o)) && objects[o] == name) return static_cast<int>(o);
  return -1;
}
bool Problem::Parse(const std::string& text, Atom* a) const {
  const size_t l = text.find('('), r = text.rfind(')');
  if (l == std::string::npos || r == std::string::npos || r < l) return false;
  a->pred = -1;
  for (size_t p = 0; p < preds.size(); p++)
    if (preds[p].name == text.substr(0, l)) a->pred = static_cast<int>(p);
  if (a->pred < 0) return false;
  a->args.clear();
  std::string cur;
  for (size_t i = l + 1; i <= r; i++) {
    if (text[i] == ',' || text[i] == ')') {
      if (!cur.empty()) {
        const int o = FindObject(cur);
        if (o < 0) return false;
        a->args.push_back(o);
      }
      cur.clear();
    } else if (text[i] != ' ') {
      cur += text[i];
    }
  }
  return a->args.size() == preds[a->pred].params.size();
}
bool Problem::Parse(const std::set<std::string>& text, State* s, std::string* bad) const {
  s->clear();
  for (const std::string& t : text) {
    Atom a;
    if (!Parse(t, &a)) {
      *bad = t;
      return false;
    }
    s->insert(a);
  }
  return true;
}

// ---- meaning
Atom Problem::Instantiate(int pred, const std::vector<Term>& terms, const Env& env) const {
  Atom a;
  a.pred = pred;
  for (const Term& t : terms) a.args.push_back(t.var >= 0 ? env[t.var] : t.obj);
  return a;
}

bool Problem::Eval(const Goal& g, Env& env, const State& s) const {
  switch (g.kind) {
    case Goal::kAtom:
      return s.count(Instantiate(g.pred, g.terms, env)) > 0;
    case Goal::kEq: {
      const Atom a = Instantiate(0, g.terms, env);
      return a.args[0] == a.args[1];
    }
    case Goal::kType: {
      const Atom a = Instantiate(0, g.terms, env);
      return IsA(a.args[0], g.pred);
    }
    case Goal::kAnd:
      for (const Goal& k : g.kids)
        if (!Eval(k, env, s)) return false;
      return true;
    case Goal::kOr:
      for (const Goal& k : g.kids)
        if (Eval(k, env, s)) return true;
      return false;
    case Goal::kNot:
      return !Eval(g.kids[0], env, s);
    case Goal::kForall:
    case Goal::kExists: {
      bool found = false;
      const bool want = g.kind == Goal::kExists;
      ForAll(g.vars, env, [&](Env& e) {
        if (Eval(g.kids[0], e, s) != want) return true;
        found = true;
        return false;
      });
      return found == want;
    }
  }
  return false;
}

void Problem::CollectAtoms(const Goal& g, Env& env, std::set<Atom>* out) const {
  if (g.kind == Goal::kAtom) out->insert(Instantiate(g.pred, g.terms, env));
  if (g.kind == Goal::kForall || g.kind == Goal::kExists) {
    ForAll(g.vars, env, [&](Env& e) {
      CollectAtoms(g.kids[0], e, out);
      return true;
    });
    return;
  }
  for (const Goal& k : g.kids) CollectAtoms(k, env, out);
}

// eval: 1 true, 0 false, -1 unknown (the caller then cannot decide).
bool Problem::Ground(const std::vector<Effect>& es, Env& env, const std::function<int(const Goal&, Env&)>& eval,
                     std::map<Atom, int>* out) const {
  for (const Effect& e : es) {
    switch (e.kind) {
      case Effect::kAdd:
      case Effect::kDel:
        (*out)[Instantiate(e.pred, e.terms, env)] |= e.kind == Effect::kAdd ? 1 : 2;
        break;
      case Effect::kForall: {
        bool ok = true;
        ForAll(e.vars, env, [&](Env& x) { return ok = Ground(e.kids, x, eval, out); });
        if (!ok) return false;
        break;
      }
      case Effect::kWhen: {
        const int v = eval(e.cond, env);
        if (v < 0) return false;
        if (v == 1 && !Ground(e.kids, env, eval, out)) return false;
        break;
      }
      case Effect::kMust:
        break;
    }
  }
  return true;
}

bool Problem::Implied(const Axiom& ax, const std::vector<int>& args, std::map<Atom, int>* out) const {
  Env env = args;
  Ground(ax.effects, env, [](const Goal&, Env&) { return 1; }, out);
  for (const Effect& e : ax.effects)
    if (e.kind == Effect::kMust && !Holds(e.cond, args, {})) return false;
  return true;
}

// value: 1 true, 0 false, -1 unknown, before the changes.
bool Problem::Trigger(const std::function<int(const Atom&)>& value, std::map<Atom, int>* changes, bool* broken) const {
  std::vector<Atom> work;
  for (auto& c : *changes) {
    if (c.second == 3) return false;
    work.push_back(c.first);
  }
  while (!work.empty()) {
    const Atom a = work.back();
    work.pop_back();
    const int sign = (*changes)[a];
    const int before = value(a);
    if (before == (sign == 1 ? 1 : 0)) continue;  // nothing changes: no axiom is triggered
    for (const Axiom& ax : axioms) {
      if (ax.pred != a.pred || ax.positive != (sign == 1)) continue;
      for (const auto& args : Args(ax.params)) {
        if (!(Instantiate(ax.pred, ax.terms, args) == a)) continue;
        std::map<Atom, int> implied;
        if (!Implied(ax, args, &implied)) *broken = true;
        for (auto& f : implied) {
          int& c = (*changes)[f.first];
          if (f.second == 3) return false;
          if (c == f.second) continue;
          if (c != 0) return false;
          c = f.second;
          work.push_back(f.first);
        }
      }
    }
  }
  return true;
}

std::optional<State> Problem::ApplyBasic(const State& s, const Action& a, const std::vector<int>& args, bool* broken) const {
  std::map<Atom, int> changes;
  Env env = args;
  Ground(a.effects, env, [&](const Goal& g, Env& e) { return Eval(g, e, s) ? 1 : 0; }, &changes);
  bool forbidden = false;
  if (!Trigger([&](const Atom& x) { return s.count(x) > 0 ? 1 : 0; }, &changes, &forbidden)) return {};
  State n = s;
  for (auto& c : changes) {
    if (c.second == 1) n.insert(c.first);
    else n.erase(c.first);
  }
  if (forbidden) {
    if (broken != nullptr) *broken = true;
    return {};
  }
  return n;
}

std::optional<Partial> Problem::ApplyPartial(const Partial& s, const Action& a, const std::vector<int>& args, bool* broken) const {
  std::map<Atom, int> changes;
  Env env = args;
  // Conditions that read an unknown fact are left to the caller.
  bool unknown = false;
  State pos;
  for (auto& p : s)
    if (p.second) pos.insert(p.first);
  Ground(a.effects, env,
         [&](const Goal& g, Env& e) {
           std::set<Atom> atoms;
           CollectAtoms(g, e, &atoms);
           for (const Atom& x : atoms)
             if (s.count(x) == 0) unknown = true;
           return Eval(g, e, pos) ? 1 : 0;
         },
         &changes);
  if (unknown) return {};
  auto value = [&](const Atom& x) {
    auto it = s.find(x);
    return it == s.end() ? -1 : it->second ? 1 : 0;
  };
  bool forbidden = false;
  if (!Trigger(value, &changes, &forbidden)) return {};
  Partial n = s;
  for (auto& c : changes) {
    n[c.first] = c.second == 1;
  }
  if (forbidden) {
    if (broken != nullptr) *broken = true;
    return {};
  }
  return n;
}

State Problem::Derive(const State& s) const {
  State n;
  int top = 0;
  for (const Atom& a : s)
    if (preds[a.pred].stratum == 0) n.insert(a);
  for (const Pred& p : preds) top = std::max(top, p.stratum);
  for (int level = 1; level <= top; level++) {
    for (bool changed = true; changed;) {
      changed = false;
      State add;
      for (const Rule& r : rules) {
        if (preds[r.pred].stratum != level) continue;
        for (const auto& args : Args(preds[r.pred].params)) {
          Atom a{r.pred, args};
          if (n.count(a) > 0) continue;
          if (Holds(r.body, args, n)) add.insert(a);
        }
      }
      for (const Atom& a : add) changed |= n.insert(a).second;
    }
  }
  return n;
}

bool Problem::SatisfiesAxioms(const State& s) const {
  for (const Axiom& ax : axioms) {
    for (const auto& args : Args(ax.params)) {
      if ((s.count(Instantiate(ax.pred, ax.terms, args)) > 0) != ax.positive) continue;
      std::map<Atom, int> implied;
      if (!Implied(ax, args, &implied)) return false;
      for (auto& f : implied)
        if (f.second == 3 || (s.count(f.first) > 0) != (f.second == 1)) return false;
    }
  }
  return true;
}

std::optional<State> Problem::Closure(const State& s, bool* broken) const {
  std::map<Atom, int> required;
  bool forbidden = false;
  State n = s;
  for (bool changed = true; changed;) {
    changed = false;
    for (const Axiom& ax : axioms) {
      for (const auto& args : Args(ax.params)) {
        const Atom c = Instantiate(ax.pred, ax.terms, args);
        if ((n.count(c) > 0) != ax.positive) continue;
        // The context must not be taken away later.
        int& ctx = required[c];
        const int cs = ax.positive ? 1 : 2;
        if (ctx == 0) {
          ctx = cs;
          changed = true;
        } else if (ctx != cs) {
          return {};
        }
        std::map<Atom, int> implied;
        if (!Implied(ax, args, &implied)) forbidden = true;
        for (auto& f : implied) {
          int& r = required[f.first];
          if (f.second == 3) return {};
          if (r == f.second) continue;
          if (r != 0) return {};
          r = f.second;
          changed = true;
        }
      }
    }
    for (auto& r : required) {
      if (r.second == 1) n.insert(r.first);
      if (r.second == 2) n.erase(r.first);
    }
  }
  // A context that held at first but not in the end may or may not have fired.
  for (const Axiom& ax : axioms)
    for (const auto& args : Args(ax.params)) {
      const Atom c = Instantiate(ax.pred, ax.terms, args);
      if ((s.count(c) > 0) == ax.positive && (n.count(c) > 0) != ax.positive) return {};
    }
  if (forbidden) {
    if (broken != nullptr) *broken = true;
    return {};
  }
  return n;
}

bool Problem::HasConstraints() const {
  for (const Axiom& ax : axioms)
    for (const Effect& e : ax.effects)
      if (e.kind == Effect::kMust) return true;
  return false;
}

std::optional<Partial> Problem::Chase(const Partial& s) const {
  Partial n = s;
  for (bool changed = true; changed;) {
    changed = false;
    for (const Axiom& ax : axioms) {
      for (const auto& args : Args(ax.params)) {
        auto it = n.find(Instantiate(ax.pred, ax.terms, args));
        if (it == n.end() || it->second != ax.positive) continue;
        std::map<Atom, int> implied;
        if (!Implied(ax, args, &implied)) return {};
        for (auto& f : implied) {
          if (f.second == 3) return {};
          const bool v = f.second == 1;
          auto ins = n.emplace(f.first, v);
          if (ins.second) changed = true;
          else if (ins.first->second != v) return {};
        }
      }
    }
  }
  return n;
}

std::vector<std::pair<int, std::vector<int>>> Problem::Applicable(const State& s) const {
  std::vector<std::pair<int, std::vector<int>>> v;
  for (size_t a = 0; a < actions.size(); a++)
    for (const auto& args : Args(actions[a].params))
      if (IsApplicable(s, actions[a], args)) v.emplace_back(static_cast<int>(a), args);
  return v;
}

State Problem::RandomState(sim::Rng& rng, bool with_derived) const {
  State s;
  const int den = rng.Range(2, 4);
  for (const Atom& a : AllAtoms()) {
    if (preds[a.pred].stratum > 0 && !with_derived) continue;
    if (rng.Chance(1, den)) s.insert(a);
  }
  return s;
}

// ---- text
std::string Problem::Text(const std::vector<Term>& terms) const {
  std::string s;
  for (const Term& t : terms) {
    auto it = hiding_.find(t.var);
    s += " " + (t.var >= 0 ? "?x" + std::to_string(it == hiding_.end() ? t.var : it->second) : objects[t.obj]);
  }
  return s;
}
// The type of the i-th in a list. It may be left out at the end.
std::string Problem::Typing(const std::vector<int>& types, size_t i, size_t end) const {
  bool last = bare;
  for (size_t k = i; k < end; k++) last = last && types[k] == -1;
  return last ? "" : " - " + TypeName(types[i]);
}
std::string Problem::TypedVars(const std::vector<int>& types, int first) const {
  std::string s;
  for (size_t i = 0; i < types.size(); i++) {
    auto it = hiding_.find(first + static_cast<int>(i));
    s += (i ? " " : "") + std::string("?x") + std::to_string(it == hiding_.end() ? first + static_cast<int>(i) : it->second) +
         Typing(types, i, types.size());
  }
  return s;
}
std::string Problem::Text(const Goal& g) const {
  switch (g.kind) {
    case Goal::kAtom:
      return "(" + preds[g.pred].name + Text(g.terms) + ")";
    case Goal::kEq:
      return "(=" + Text(g.terms) + ")";
    case Goal::kType:
      return "(" + TypeName(g.pred) + Text(g.terms) + ")";
    case Goal::kNot:
      return "(not " + Text(g.kids[0]) + ")";
    case Goal::kForall:
    case Goal::kExists: {
      const auto outer = hiding_;
      for (size_t i = 0; i < g.names.size(); i++) hiding_[g.first_var + static_cast<int>(i)] = g.names[i];
      const std::string s = std::string(g.kind == Goal::kForall ? "(forall (" : "(exists (") +
                            TypedVars(g.vars, g.first_var) + ") " + Text(g.kids[0]) + ")";
      hiding_ = outer;
      return s;
    }
    case Goal::kAnd:
    case Goal::kOr: {
      std::string s = g.kind == Goal::kAnd ? "(and" : "(or";
      for (const Goal& k : g.kids) s += " " + Text(k);
      return s + ")";
    }
  }
  return "";
}
std::string Problem::Text(const Effect& e) const {
  auto many = [&](const std::vector<Effect>& es) {
    std::string s = "(and";
    for (const Effect& k : es) s += " " + Text(k);
    return s + ")";
  };
  switch (e.kind) {
    case Effect::kAdd:
      return "(" + preds[e.pred].name + Text(e.terms) + ")";
    case Effect::kDel:
      return "(not (" + preds[e.pred].name + Text(e.terms) + "))";
    case Effect::kForall: {
      const auto outer = hiding_;
      for (size_t i = 0; i < e.names.size(); i++) hiding_[e.first_var + static_cast<int>(i)] = e.names[i];
      const std::string s = "(forall (" + TypedVars(e.vars, e.first_var) + ") " + many(e.kids) + ")";
      hiding_ = outer;
      return s;
    }
    case Effect::kWhen:
      return "(when " + Text(e.cond) + " " + many(e.kids) + ")";
    case Effect::kMust:
      return Text(e.cond);
  }
  return "";
}
std::string Problem::DomainText() const {
  std::string d = "(define (domain d)\n(:requirements :strips :typing :axioms)\n(:types";
  for (int t : type_order) d += " " + type_names[t] + " - " + TypeName(parent[t]);
  d += ")\n(:constants";
  for (int o = 0; o < constants; o++) d += " " + objects[o] + Typing(type_of, o, constants);
  d += ")\n(:predicates";
  for (const Pred& p : preds) d += " (" + p.name + (p.params.empty() ? "" : " ") + TypedVars(p.params, 0) + ")";
  d += ")\n";
  auto effects = [&](const std::vector<Effect>& es) {
    std::string s = "(and";
    for (const Effect& k : es) s += " " + Text(k);
    return s + ")";
  };
  for (const Axiom& x : axioms) {
    const std::string c = "(" + preds[x.pred].name + Text(x.terms) + ")";
    d += "(:axiom :vars (" + TypedVars(x.params, 0) + ") :context " + (x.positive ? c : "(not " + c + ")") +
         " :implies " + effects(x.effects) + ")\n";
  }
  for (const Rule& r : rules)
    d += "(:derived (" + preds[r.pred].name + (preds[r.pred].params.empty() ? "" : " ") +
         TypedVars(preds[r.pred].params, 0) + ") " + Text(r.body) + ")\n";
  for (const Action& a : actions)
    d += "(:action " + a.name + " :parameters (" + TypedVars(a.params, 0) + ") :precondition " + Text(a.pre) +
         " :effect " + effects(a.effects) + ")\n";
  return d + ")\n";
}
std::string Problem::ProblemText() const {
  std::string p = "(define (problem q) (:domain d)\n(:objects";
  for (size_t o = constants; o < objects.size(); o++) p += " " + objects[o] + Typing(type_of, o, objects.size());
  p += ")\n(:init";
  for (const Atom& a : init) {
    p += " (" + preds[a.pred].name;
    for (int o : a.args) p += " " + objects[o];
    p += ")";
  }
  return p + ")\n(:goal " + Text(goal) + "))\n";
}

// ---- random problems
namespace {
class Generator {
 public:
  Generator(sim::Rng& rng, const Options& o, Problem* p) : r_(rng), o_(o), p_(*p) {}

  // Names that are beginnings or concatenations of one another: a, b, aa, ab, ...
  static std::string Word(int i) {
    std::string word;
    for (i += 2; i > 1; i /= 2) word.insert(word.begin(), i % 2 ? 'b' : 'a');
    return word;
  }
  std::string Name(const std::string& head, int i) const {
    return !nested_ ? head + std::to_string(i) : i == 0 ? head : head + Word(i - 1);
  }

  void Make() {
    nested_ = r_.Chance(1, 4);
    const int types = r_.Range(0, o_.max_types);
    for (int t = 0; t < types; t++) {
      p_.parent.push_back(t > 0 && r_.Chance(1, 2) ? static_cast<int>(r_.Below(t)) : -1);
      p_.type_names.push_back(Name("t", t));
    }
    const bool implied = r_.Chance(1, 4);
    for (int t = 0; t < types; t++) {
      const bool has_child = std::find(p_.parent.begin(), p_.parent.end(), t) != p_.parent.end();
      if (!implied || !has_child || p_.parent[t] >= 0 || r_.Chance(1, 4)) p_.type_order.push_back(t);
    }
    if (r_.Chance(1, 4)) r_.Shuffle(p_.type_order);
    p_.bare = r_.Chance(1, 4);
    const int objects = r_.Range(o_.min_objects, o_.max_objects);
    const bool longer = o_.deep_names && r_.Chance(1, 4);
    const bool like_variables = r_.Chance(1, 8);
    for (int i = 0; i < objects; i++) {
      p_.type_of.push_back(r_.Range(-1, types - 1));
      p_.objects.push_back(nested_ ? Word(i)
                                   : (longer && i % 2 ? "object_with_a_long_name" : like_variables ? "x" : "o") +
                                         std::to_string(i));
    }
    p_.constants = r_.Chance(1, 2) ? 0 : r_.Range(0, objects);
    const int preds = o_.no_preds ? 0 : r_.Range(2, o_.max_preds);
    for (int i = 0; i < preds; i++) {
      Pred q;
      q.name = Name(longer && i % 2 ? "predicate_with_a_long_name" : "p", i);
      const int arity = r_.Chance(1, 6) ? 0 : r_.Range(1, o_.max_arity);
      if (o_.long_lists && r_.Chance(1, 2)) LongList(&q.params);
      else for (int k = 0; k < arity; k++) q.params.push_back(SomeType());
      p_.preds.push_back(q);
    }
    basics_ = preds;
    if (o_.max_rules > 0 && preds > 0) Rules();
    if (o_.max_axioms > 0 && preds > 0) Axioms();
    if (!o_.no_actions) {
      const int n = r_.Range(1, o_.max_actions);
      for (int i = 0; i < n; i++) MakeAction(i);
    }
    p_.goal = MakeGoal({}, o_.max_depth, -1, true);
    if (o_.hiding && r_.Chance(1, 3)) {
      for (Action& a : p_.actions) {
        Hide(&a.pre);
        for (Effect& e : a.effects) Hide(&e);
      }
      for (Rule& x : p_.rules) Hide(&x.body);
      Hide(&p_.goal);
    }
    for (const Atom& a : p_.BasicAtoms())
      if (r_.Chance(1, 3)) p_.init.insert(a);
    if (o_.deep_names && r_.Chance(1, 5)) Rename();
  }

 private:
  // Names that agree in all but a few characters, wherever these are, or with those of other kinds of things.
  void Rename() {
    const int style = r_.Range(0, 4);
    const std::string same(r_.Chance(1, 3) ? r_.Range(200, 300) : r_.Range(5, 70), 'n');
    auto rename = [&](std::string* name, const std::string& kind, size_t i) {
      const std::string number = std::to_string(i);
      switch (style) {
        case 0: *name = kind + same + number; break;              // the end
        case 1: *name = kind + number + "_" + same; break;        // the beginning
        case 2: *name = kind + same + number + same; break;       // the middle
        case 3: {
          // Only the characters between letters and digits.
          static const char* const kJoint[] = {"-", "_", "--", "-_", "__", "_-", "---", "--_"};
          *name = i < 8 ? kind + kJoint[i] + "n" : kind + "_-_" + number;
          break;
        }
        default: *name = kind == "t" ? kind + number : "e" + number; break;  // the kind
      }
    };
    for (size_t i = 0; i < p_.type_names.size(); i++) rename(&p_.type_names[i], "t", i);
    for (size_t i = 0; i < p_.objects.size(); i++) rename(&p_.objects[i], "o", i);
    for (size_t i = 0; i < p_.preds.size(); i++) rename(&p_.preds[i].name, "p", i);
    for (size_t i = 0; i < p_.actions.size(); i++) rename(&p_.actions[i].name, "a", i);
  }
  // Lets inner variables take the name of outer ones that are not used inside. Names are those of
  // the variables' own indices otherwise, so a hidden variable's name is never in use inside.
  static void Used(const std::vector<Term>& terms, std::set<int>* out) {
    for (const Term& t : terms)
      if (t.var >= 0) out->insert(t.var);
  }
  static void Used(const Goal& g, std::set<int>* out) {
    Used(g.terms, out);
    for (const Goal& k : g.kids) Used(k, out);
  }
  static void Used(const Effect& e, std::set<int>* out) {
    Used(e.terms, out);
    if (e.kind == Effect::kWhen) Used(e.cond, out);
    for (const Effect& k : e.kids) Used(k, out);
  }
  void HideVars(int first, size_t n, const std::set<int>& used, std::vector<int>* names) {
    if (n != 1 || first == 0 || !r_.Chance(1, 2)) return;
    const int k = static_cast<int>(r_.Below(first));
    if (used.count(k) == 0) *names = {k};
  }
  void Hide(Goal* g) {
    if (g->kind == Goal::kForall || g->kind == Goal::kExists) {
      std::set<int> used;
      Used(g->kids[0], &used);
      HideVars(g->first_var, g->vars.size(), used, &g->names);
      if (!g->names.empty()) return;  // one renaming per nest keeps the names apart
    }
    for (Goal& k : g->kids) Hide(&k);
  }
  void Hide(Effect* e) {
    if (e->kind == Effect::kForall) {
      std::set<int> used;
      for (const Effect& k : e->kids) Used(k, &used);
      HideVars(e->first_var, e->vars.size(), used, &e->names);
      if (!e->names.empty()) return;
    }
    if (e->kind == Effect::kWhen) Hide(&e->cond);
    for (Effect& k : e->kids) Hide(&k);
  }

  int SomeType() {
    for (int i = 0; i < 4; i++) {
      const int t = r_.Range(-1, static_cast<int>(p_.parent.size()) - 1);
      if (p_.Inhabited(t)) return t;
    }
    return o_.empty_types && r_.Chance(1, 3) ? r_.Range(-1, static_cast<int>(p_.parent.size()) - 1) : -1;
  }
  bool Sub(int t, int of) const {
    if (of < 0) return true;
    for (; t >= 0; t = p_.parent[t])
      if (t == of) return true;
    return false;
  }
  // A term of type `want`; false if there is none.
  bool MakeTerm(const std::vector<int>& scope, int want, bool problem, Term* out) {
    std::vector<Term> c;
    for (size_t v = 0; v < scope.size(); v++)
      if (Sub(scope[v], want)) {
        Term t;
        t.var = static_cast<int>(v);
        c.push_back(t);
        c.push_back(t);
      }
    const int limit = problem ? static_cast<int>(p_.objects.size()) : p_.constants;
    for (int o = 0; o < limit; o++)
      if (p_.IsA(o, want)) {
        Term t;
        t.obj = o;
        c.push_back(t);
      }
    if (c.empty()) return false;
    *out = r_.Pick(c);
    return true;
  }
  bool MakeAtom(const std::vector<int>& scope, int max_stratum, bool problem, int* pred, std::vector<Term>* terms, int wanted = -1) {
    for (int tries = 0; tries < 10 && !p_.preds.empty(); tries++) {
      const int q = wanted >= 0 && tries < 5 ? wanted : static_cast<int>(r_.Below(p_.preds.size()));
      if (max_stratum >= 0 && p_.preds[q].stratum > max_stratum) continue;
      terms->clear();
      bool ok = true;
      for (int t : p_.preds[q].params) {
        Term term;
        ok = ok && MakeTerm(scope, t, problem, &term);
        terms->push_back(term);
      }
      if (!ok) continue;
      *pred = q;
      return true;
    }
    return false;
  }

  // max_stratum -1: anything. With max_stratum > 0, predicates of that stratum occur positively only.
  Goal MakeGoal(const std::vector<int>& scope, int depth, int max_stratum, bool problem, bool negative = false) {
    Goal g;
    const int k = depth <= 0 ? 0 : r_.Range(0, 9);
    if (k <= 3) {
      if (r_.Chance(1, 10) && o_.equality) {
        g.kind = Goal::kEq;
        Term a, b;
        if (MakeTerm(scope, -1, problem, &a) && MakeTerm(scope, -1, problem, &b)) {
          g.terms = {a, b};
          return g;
        }
      } else if (r_.Chance(1, 10) && o_.type_goals && !p_.parent.empty()) {
        g.kind = Goal::kType;
        g.pred = static_cast<int>(r_.Below(p_.parent.size()));
        Term a;
        if (p_.Inhabited(g.pred) && MakeTerm(scope, -1, problem, &a)) {
          g.terms = {a};
          return g;
        }
      }
      g = Goal();
      g.kind = Goal::kAtom;
      const int limit = negative && max_stratum > 0 ? max_stratum - 1 : max_stratum;
      if (MakeAtom(scope, limit, problem, &g.pred, &g.terms)) return g;
      return Goal();
    }
    if (k <= 5) {
      g.kind = Goal::kAnd;
      const int n = r_.Range(r_.Chance(1, 8) ? 0 : 1, 3);
      for (int i = 0; i < n; i++) g.kids.push_back(MakeGoal(scope, depth - 1, max_stratum, problem, negative));
      return g;
    }
    if (k == 6) {
      g.kind = Goal::kOr;
      const int n = r_.Range(1, 3);
      for (int i = 0; i < n; i++) g.kids.push_back(MakeGoal(scope, depth - 1, max_stratum, problem, negative));
      return g;
    }
    if (k == 7 || !o_.quantifiers) {
      g.kind = Goal::kNot;
      // Below a stratum's own predicates, negation is not stratified: forbid them on either side.
      g.kids.push_back(max_stratum > 0 ? MakeGoal(scope, depth - 1, max_stratum - 1, problem, false)
                                       : MakeGoal(scope, depth - 1, max_stratum, problem, !negative));
      return g;
    }
    g.kind = k == 8 ? Goal::kForall : Goal::kExists;
    g.first_var = static_cast<int>(scope.size());
    std::vector<int> inner = scope;
    const int n = r_.Chance(1, 4) ? 2 : 1;
    for (int i = 0; i < n; i++) {
      g.vars.push_back(SomeType());
      inner.push_back(g.vars.back());
    }
    g.kids.push_back(MakeGoal(inner, depth - 1, max_stratum, problem, negative));
    return g;
  }

  void MakeEffects(const std::vector<int>& scope, int depth, std::vector<Effect>* out) {
    const int n = r_.Range(1, depth == 2 ? 3 : 2);
    for (int i = 0; i < n; i++) {
      Effect e;
      const int k = depth <= 0 ? 0 : r_.Range(0, 7);
      if (k == 6 && o_.quantifiers) {
        e.kind = Effect::kForall;
        e.first_var = static_cast<int>(scope.size());
        e.vars.push_back(SomeType());
        std::vector<int> inner = scope;
        inner.push_back(e.vars[0]);
        MakeEffects(inner, depth - 1, &e.kids);
      } else if (k == 7 && o_.conditional) {
        e.kind = Effect::kWhen;
        e.cond = MakeGoal(scope, 1, -1, false);
        MakeEffects(scope, depth - 1, &e.kids);
      } else {
        e.kind = r_.Chance(3, 5) ? Effect::kAdd : Effect::kDel;
        int wanted = -1;
        if (!p_.axioms.empty() && r_.Chance(1, 2)) {
          // What an axiom is about.
          const Axiom& x = r_.Pick(p_.axioms);
          e.kind = x.positive ? Effect::kAdd : Effect::kDel;
          wanted = x.pred;
        }
        if (!MakeAtom(scope, 0, false, &e.pred, &e.terms, wanted)) continue;
      }
      out->push_back(e);
    }
  }
  // A great many parameters, but few values for all of them together.
  void LongList(std::vector<int>* params) {
    const int wanted = r_.Range(5, 14);
    size_t values = 1;
    for (int tries = 0; tries < 60 && static_cast<int>(params->size()) < wanted; tries++) {
      const int type = SomeType();
      const size_t n = p_.ObjectsOf(type).size();
      if (n == 0 && !r_.Chance(1, 20)) continue;
      if (values * n > 32) continue;
      values *= n;
      params->push_back(type);
    }
  }
  void MakeAction(int i) {
    Action a;
    a.name = Name(i % 2 && o_.deep_names ? "an_action_with_a_long_name" : "a", i);
    const int arity = o_.zero_arity_actions && r_.Chance(1, 6) ? 0 : r_.Range(1, o_.max_action_arity);
    if (o_.long_lists && r_.Chance(1, 2)) LongList(&a.params);
    else for (int k = 0; k < arity; k++) a.params.push_back(SomeType());
    a.pre = MakeGoal(a.params, o_.max_depth, -1, false);
    MakeEffects(a.params, 2, &a.effects);
    p_.actions.push_back(a);
  }

  // The effect for all values of one of its arguments.
  Effect OverAll(const Axiom& x, const Effect& e) {
    if (e.terms.empty()) return e;
    Effect all, kid = e;
    const size_t at = r_.Below(e.terms.size());
    all.kind = Effect::kForall;
    all.first_var = static_cast<int>(x.params.size());
    all.vars = {p_.preds[e.pred].params[at]};
    kid.terms[at] = Term();
    kid.terms[at].var = all.first_var;
    all.kids.push_back(kid);
    return all;
  }

  // Requires something of the objects that the context is about.
  void AddConstraint(Axiom* x) {
    Effect e;
    e.kind = Effect::kMust;
    Goal g;
    Term a, b;
    a.var = static_cast<int>(r_.Below(x->params.size()));
    bool no = false;
    if (r_.Chance(2, 3)) {
      g.kind = Goal::kEq;
      if (x->params.size() > 1 && r_.Chance(4, 5)) b.var = (a.var + 1 + static_cast<int>(r_.Below(x->params.size() - 1))) % static_cast<int>(x->params.size());
      else if (!MakeTerm({}, -1, false, &b)) return;
      g.terms = {a, b};
      no = r_.Chance(4, 5);
    } else {
      if (p_.parent.empty()) return;
      g.kind = Goal::kType;
      g.pred = static_cast<int>(r_.Below(p_.parent.size()));
      if (!p_.Inhabited(g.pred)) return;
      g.terms = {a};
      no = r_.Chance(1, 2);
    }
    if (no) {
      e.cond.kind = Goal::kNot;
      e.cond.kids.push_back(g);
    } else {
      e.cond = g;
    }
    x->effects.insert(x->effects.begin() + static_cast<long>(r_.Below(x->effects.size() + 1)), e);
  }

  void Axioms() {
    const int n = r_.Range(1, o_.max_axioms);
    // Each run uses one polarity style; acyclic runs may mix polarities.
    const int style = o_.acyclic_axioms ? 2 : r_.Range(0, 2);
    for (int i = 0; i < n; i++) {
      Axiom x;
      x.pred = static_cast<int>(r_.Below(basics_));
      if (style == 2 && x.pred == basics_ - 1) continue;
      x.positive = style == 0 || (style == 2 && r_.Chance(1, 2));
      // Context over distinct variables, repeated variables and constants.
      std::vector<int> scope;
      bool ok = true;
      for (int t : p_.preds[x.pred].params) {
        Term term;
        if (!scope.empty() && r_.Chance(1, 6)) {
          std::vector<int> fit;
          for (size_t v = 0; v < scope.size(); v++)
            if (Sub(scope[v], t)) fit.push_back(static_cast<int>(v));
          if (!fit.empty()) {
            term.var = r_.Pick(fit);
            x.terms.push_back(term);
            continue;
          }
        }
        if (p_.constants > 0 && r_.Chance(1, 6)) {
          ok = ok && MakeTerm({}, t, false, &term);
          x.terms.push_back(term);
          continue;
        }
        term.var = static_cast<int>(scope.size());
        // Sometimes a narrower type than the predicate's.
        int vt = t;
        if (r_.Chance(1, 5)) {
          std::vector<int> subs;
          for (int s = 0; s < static_cast<int>(p_.parent.size()); s++)
            if (Sub(s, t) && p_.Inhabited(s)) subs.push_back(s);
          if (!subs.empty()) vt = r_.Pick(subs);
        }
        scope.push_back(vt);
        x.terms.push_back(term);
      }
      if (!ok) continue;
      x.params = scope;
      const int m = r_.Range(1, 2);
      for (int k = 0; k < m; k++) {
        Effect e;
        if (!MakeAtom(scope, 0, false, &e.pred, &e.terms)) continue;
        if (style == 2 && e.pred <= x.pred) continue;  // acyclic
        e.kind = style == 0 ? Effect::kAdd : style == 1 ? Effect::kDel : r_.Chance(1, 2) ? Effect::kAdd : Effect::kDel;
        if (o_.axiom_forall && r_.Chance(1, 4)) x.effects.push_back(OverAll(x, e));
        else x.effects.push_back(e);
      }
      if (o_.constraints && !scope.empty() && r_.Chance(1, 3)) AddConstraint(&x);
      if (!x.effects.empty()) p_.axioms.push_back(x);
    }
  }

  void Rules() {
    const int preds = r_.Range(1, 3);
    int stratum = 1;
    for (int i = 0; i < preds; i++) {
      if (i > 0 && r_.Chance(1, 2)) stratum++;
      Pred q;
      q.name = Name("d", i);
      const int arity = r_.Chance(1, 6) ? 0 : r_.Range(1, 2);
      for (int k = 0; k < arity; k++) q.params.push_back(SomeType());
      q.stratum = stratum;
      p_.preds.push_back(q);
    }
    const int n = r_.Range(preds, std::max(preds, o_.max_rules));
    for (int i = 0; i < n; i++) {
      Rule x;
      x.pred = basics_ + (i < preds ? i : static_cast<int>(r_.Below(preds)));
      const Pred& q = p_.preds[x.pred];
      // Bodies use this stratum positively, lower ones freely.
      x.body = MakeGoal(q.params, 2, q.stratum, false);
      p_.rules.push_back(x);
    }
    r_.Shuffle(p_.rules);
  }

  sim::Rng& r_;
  const Options& o_;
  Problem& p_;
  int basics_ = 0;
  bool nested_ = false;
};
}  // namespace

namespace {
// Many objects, many arguments, very many arguments, or many predicates and actions.
Options Outsized(sim::Rng& rng, Options o) {
  switch (rng.Below(o.grows ? 3 : 4)) {
    case 3:
      o.min_objects = 1;
      o.max_objects = 3;
      o.max_depth = std::min(o.max_depth, 2);
      o.max_facts = 160;
      o.long_lists = true;
      break;
    case 0:
      o.min_objects = 6;
      o.max_objects = o.max_rules > 0 || o.max_axioms > 0 ? 8 : 14;
      o.max_preds = std::min(o.max_preds, 3);
      o.max_arity = std::min(o.max_arity, 2);
      o.max_depth = std::min(o.max_depth, 2);
      o.max_facts = o.max_rules > 0 || o.max_axioms > 0 ? 110 : 260;
      break;
    case 1:
      o.max_objects = std::min(o.max_objects, 3);
      o.max_arity = 4;
      o.max_action_arity = 4;
      o.max_depth = std::min(o.max_depth, 2);
      o.max_facts = 160;
      break;
    default:
      o.max_types = 6;
      o.max_objects = std::min(o.max_objects, 4);
      o.max_preds = 12;
      o.max_actions = 8;
      o.max_axioms *= 2;
      o.max_rules *= 2;
      o.max_facts = 120;
  }
  return o;
}
}  // namespace

Problem Problem::Random(sim::Rng& rng, const Options& options) {
  const Options o = options.outsize > 0 && rng.Chance(1, options.outsize) ? Outsized(rng, options) : options;
  for (int tries = 0;; tries++) {
    Problem p;
    Generator(rng, o, &p).Make();
    if (static_cast<int>(p.AllAtoms().size()) <= o.max_facts || tries > 20) return p;
  }
}

}  // namespace model
