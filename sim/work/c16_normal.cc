// C16: normal forms say what the conditions they come from say.
#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::DisjunctiveFormula;

struct Literal {
  enum Kind { kFact, kEqual, kType } kind = kFact;
  model::Atom fact;  // its arguments are also those of the other kinds
  int type = -1;
  bool positive = true;
};
using Term = std::vector<Literal>;
struct Form {
  bool never = false;
  std::vector<Term> terms;  // none: always
};

// The effects, read as a condition: what is added holds, what is deleted does not.
bool Achieved(const model::Problem& p, const std::vector<model::Effect>& es, model::Env& env, const model::State& s) {
  for (const model::Effect& e : es) {
    switch (e.kind) {
      case model::Effect::kAdd:
      case model::Effect::kDel: {
        model::Atom a;
        a.pred = e.pred;
        for (const model::Term& t : e.terms) a.args.push_back(t.var >= 0 ? env[t.var] : t.obj);
        if ((s.count(a) > 0) != (e.kind == model::Effect::kAdd)) return false;
        break;
      }
      case model::Effect::kForall:
        for (const auto& args : p.Args(e.vars)) {
          model::Env inner = env;
          inner.insert(inner.end(), args.begin(), args.end());
          if (!Achieved(p, e.kids, inner, s)) return false;
        }
        break;
      case model::Effect::kWhen:
        if (p.Eval(e.cond, env, s) && !Achieved(p, e.kids, env, s)) return false;
        break;
    }
  }
  return true;
}

bool HasConditional(const std::vector<model::Effect>& es) {
  for (const model::Effect& e : es)
    if (e.kind == model::Effect::kWhen || HasConditional(e.kids)) return true;
  return false;
}

struct Asked {
  enum What { kPre, kPost, kBoth, kGoal, kNotPre, kCreate, kCreatePost, kNum } what = kPre;
  std::string call;
  int action = -1;
  std::vector<int> args;
  bool axioms = false;
  bool other = false;  // the other way to ask for the same
  bool bad = false;
  std::string Name() const {
    static const char* const names[] = {"precondition of ", "postcondition of ", "conditions of ", "goal", "negated precondition of ",
                                        "precondition as a formula of ", "effects as a formula of "};
    return std::string("normalised ") + names[what] + call + (axioms ? " with axioms" : "") + (other ? ", asked another way" : "");
  }
};

bool ReadForm(const QWorld& w, const DisjunctiveFormula& d, const std::string& where, Form* out) {
  for (const auto& conj : d.conjunctions) {
    Term term;
    for (int neg = 0; neg < 2; neg++) {
      const symbolic::State& facts = neg ? conj.neg() : conj.pos();
      size_t n = 0;
      std::set<std::string> seen;
      for (const symbolic::Proposition& f : facts) {
        n++;
        const std::string text = ShowFact(f);
        if (!seen.insert(text).second) Bad("twice", where + ": a term lists " + text + " twice");
        if (!facts.contains(f)) Bad("lost", where + ": a term lists " + text + " but says it does not");
        Literal l;
        l.positive = neg == 0;
        for (const symbolic::Object& o : f.arguments()) {
          const int k = w.p.FindObject(o.name());
          if (k < 0) {
            Bad("unbound", where + ": " + text + " is not about objects of the problem");
            return false;
          }
          l.fact.args.push_back(k);
        }
        bool known = false;
        for (size_t i = 0; i < w.p.preds.size(); i++)
          if (w.p.preds[i].name == f.name() && w.p.preds[i].params.size() == l.fact.args.size()) {
            l.fact.pred = static_cast<int>(i);
            known = true;
          }
        if (f.name() == "=" && l.fact.args.size() == 2) {
          l.kind = Literal::kEqual;
          known = true;
        }
        if (!known && l.fact.args.size() == 1)
          for (int t = -1; t < static_cast<int>(w.p.type_names.size()); t++)
            if (w.p.TypeName(t) == f.name()) {
              l.kind = Literal::kType;
              l.type = t;
              known = true;
            }
        if (!known) {
          Bad("fact", where + ": " + text + " is no fact of the problem");
          return false;
        }
        term.push_back(l);
      }
      if (n != facts.size()) Bad("count", where + ": a term of " + std::to_string(n) + " facts has size " + std::to_string(facts.size()));
    }
    out->terms.push_back(term);
  }
  return !sim::CurrentRun()->failed();
}

bool Says(const QWorld& w, const Form& f, const model::State& s) {
  if (f.never) return false;
  if (f.terms.empty()) return true;
  for (const Term& term : f.terms) {
    bool all = true;
    for (const Literal& l : term) {
      bool v = false;
      if (l.kind == Literal::kFact) v = s.count(l.fact) > 0;
      if (l.kind == Literal::kEqual) v = l.fact.args[0] == l.fact.args[1];
      if (l.kind == Literal::kType) v = w.p.IsA(l.fact.args[0], l.type);
      all = all && v == l.positive;
    }
    if (all) return true;
  }
  return false;
}
std::string ShowForm(const QWorld& w, const Form& f) {
  if (f.never) return "never";
  std::vector<std::string> terms;
  for (const Term& term : f.terms) {
    std::vector<std::string> ls;
    for (const Literal& l : term) {
      std::string t = l.positive ? "" : "not ";
      if (l.kind == Literal::kFact) t += w.p.Show(l.fact);
      if (l.kind == Literal::kEqual) t += w.p.objects[l.fact.args[0]] + " = " + w.p.objects[l.fact.args[1]];
      if (l.kind == Literal::kType) t += w.p.TypeName(l.type) + " " + w.p.objects[l.fact.args[0]];
      ls.push_back(t);
    }
    terms.push_back("[" + Join(ls) + "]");
  }
  return std::to_string(f.terms.size()) + ": " + Join(terms, " or ");
}

// What the library prints for a form, from what it holds.
std::string Printed(const DisjunctiveFormula& d) {
  std::string t = "(or\n";
  for (const auto& conj : d.conjunctions) {
    t += "    (and\n";
    for (const auto& f : conj.pos()) t += "        " + ShowFact(f) + "\n";
    for (const auto& f : conj.neg()) t += "        not " + ShowFact(f) + "\n";
    t += "    )\n";
  }
  return t + ")\n";
}

// The form says of every state looked at what the condition does.
void Compare(QWorld& w, Rng& r, const Asked& q, const std::string& part, const Form& f, bool axioms,
             const std::function<bool(const model::State&)>& want) {
  std::vector<model::State> states = w.ms;
  for (int k = 0; k < 3; k++) states.push_back(w.p.RandomState(r, r.Chance(2, 3)));
  // States near a term: where it holds, and where it just fails.
  for (size_t k = 0; k < std::min<size_t>(f.terms.size(), 4); k++) {
    const Term& term = f.terms[r.Below(f.terms.size())];
    model::State s = w.p.RandomState(r, true);
    for (const Literal& l : term) {
      if (l.kind != Literal::kFact) continue;
      if (l.positive) s.insert(l.fact);
      else s.erase(l.fact);
    }
    states.push_back(s);
    if (term.empty()) continue;
    const Literal& l = term[r.Below(term.size())];
    if (l.kind != Literal::kFact) continue;
    if (!s.insert(l.fact).second) s.erase(l.fact);
    states.push_back(s);
  }
  for (model::State& s : states) {
    if (axioms && !w.p.axioms.empty()) {
      auto c = w.p.Closure(s);
      if (!c || !w.p.SatisfiesAxioms(*c)) continue;
      s = *c;
    }
    const bool have = Says(w, f, s);
    if (have == want(s)) continue;
    Bad("meaning", q.Name() + part + " is {" + ShowForm(w, f) + "}, which is " + (have ? "true" : "false") + " in " + w.p.Show(s) +
                       ", where the condition is " + (have ? "false" : "true"));
    return;
  }
}

// Each way to satisfy a form made with axioms contains what follows from it.
void CheckClosed(const QWorld& w, const Asked& q, const std::string& part, const Form& f) {
  if (!q.axioms || w.p.axioms.empty() || f.never) return;
  for (const Term& term : f.terms) {
    model::Partial m;
    for (const Literal& l : term)
      if (l.kind == Literal::kFact) m[l.fact] = l.positive;
    const auto c = w.p.Chase(m);
    if (c && *c == m) continue;
    Bad("unclosed", q.Name() + part + " has the term " + w.Show(m) + (c ? ", from which follows " + w.Show(*c) : ", which contradicts the axioms"));
    return;
  }
}

struct Answered {
  std::optional<DisjunctiveFormula> a;
  std::optional<std::pair<DisjunctiveFormula, DisjunctiveFormula>> both;
  std::string text;
  bool refused = false;
};

void Ask(const QWorld& w, const Asked& q, bool print, Answered* out) {
  const symbolic::Pddl& pddl = *w.pddl;
  try {
    switch (q.what) {
      case Asked::kPre:
        out->a = q.other ? DisjunctiveFormula::NormalizePreconditions(pddl, q.call) : DisjunctiveFormula::NormalizePreconditions(pddl, q.call, q.axioms);
        break;
      case Asked::kPost:
        out->a = q.other ? DisjunctiveFormula::NormalizePostconditions(pddl, q.call) : DisjunctiveFormula::NormalizePostconditions(pddl, q.call, q.axioms);
        break;
      case Asked::kBoth:
        out->both = q.other ? DisjunctiveFormula::NormalizeConditions(pddl, q.call) : DisjunctiveFormula::NormalizeConditions(pddl, q.call, q.axioms);
        break;
      case Asked::kGoal: out->a = q.other ? DisjunctiveFormula::NormalizeGoal(pddl) : DisjunctiveFormula::NormalizeGoal(pddl, q.axioms); break;
      case Asked::kNotPre:
        out->a = DisjunctiveFormula::NormalizePreconditions(pddl, q.call, false);
        // There is no form for what never holds.
        if (out->a) out->a = symbolic::Negate(pddl, std::move(*out->a));
        else out->a = DisjunctiveFormula();
        break;
      case Asked::kCreate: {
        const auto aa = symbolic::Action::Parse(pddl, q.call);
        const symbolic::Formula& pre = aa.first.preconditions();
        const auto& params = aa.first.parameters();
        if (q.axioms) {
          out->a = q.other ? DisjunctiveFormula::Create(pddl, pre.symbol(), params, aa.second, true) : DisjunctiveFormula::Create(pddl, pre, params, aa.second, true);
        } else if (q.other) {
          try {
            out->a = DisjunctiveFormula(pddl, pre, params, aa.second);
          } catch (const std::bad_optional_access&) {
          }
        } else {
          out->a = DisjunctiveFormula::Create(pddl, pre, params, aa.second);
        }
        break;
      }
      case Asked::kCreatePost: {
        const auto aa = symbolic::Action::Parse(pddl, q.call);
        const auto* post = aa.first.postconditions();
        const auto& params = aa.first.parameters();
        if (q.axioms) {
          out->a = DisjunctiveFormula::Create(pddl, post, params, aa.second, true);
        } else if (q.other) {
          try {
            out->a = DisjunctiveFormula(pddl, post, params, aa.second);
          } catch (const std::bad_optional_access&) {
          }
        } else {
          out->a = DisjunctiveFormula::Create(pddl, post, params, aa.second);
        }
        break;
      }
      default: break;
    }
    if (print && out->a) {
      std::stringstream ss;
      ss.exceptions(std::ios_base::badbit);
      ss << *out->a;
      out->text = ss.str();
    }
  } catch (const std::bad_alloc&) {
    throw;
  } catch (const std::runtime_error&) {
    if (q.bad) throw;
    out->refused = true;
  }
}

void CheckAnswer(QWorld& w, Rng& r, const Asked& q, const Answered& got) {
  const model::Problem& p = w.p;
  const model::Action* action = q.action < 0 ? nullptr : &p.actions[q.action];
  const bool conditional = action != nullptr && HasConditional(action->effects);
  const bool post = q.what == Asked::kPost || q.what == Asked::kBoth || q.what == Asked::kCreatePost;
  if (got.refused) {
    // Conditions that contradict the axioms, or themselves, may be refused.
    if (!(q.axioms && !p.axioms.empty()) && !(post && conditional)) Bad("refused", q.Name() + " was refused");
    return;
  }
  const auto pre = [&](const model::State& s) { return p.Holds(action->pre, q.args, s); };
  const auto achieved = [&](const model::State& s) {
    model::Env env = q.args;
    return Achieved(p, action->effects, env, s);
  };
  if (q.what == Asked::kBoth) {
    if (!got.both) {
      // One of them never holds.
      Form never;
      never.never = true;
      bool some_pre = false, some_post = false;
      for (int k = 0; k < 6; k++) {
        model::State s = p.RandomState(r, true);
        some_pre = some_pre || pre(s);
        some_post = some_post || achieved(s);
      }
      if (some_pre && some_post) Bad("meaning", q.Name() + " are taken to be impossible");
      return;
    }
    Form f, g;
    if (!ReadForm(w, got.both->first, q.Name() + " (before)", &f)) return;
    if (!ReadForm(w, got.both->second, q.Name() + " (after)", &g)) return;
    CheckClosed(w, q, " (before)", f);
    CheckClosed(w, q, " (after)", g);
    Compare(w, r, q, " (before)", f, q.axioms, pre);
    Compare(w, r, q, " (after)", g, q.axioms, achieved);
    return;
  }
  Form f;
  f.never = !got.a;
  if (got.a && !ReadForm(w, *got.a, q.Name(), &f)) return;
  if (!got.text.empty() && got.a && got.text != Printed(*got.a)) Bad("print", q.Name() + " prints as " + got.text);
  if (q.what <= Asked::kGoal) CheckClosed(w, q, "", f);
  switch (q.what) {
    case Asked::kPre:
    case Asked::kCreate: Compare(w, r, q, "", f, q.axioms, pre); break;
    case Asked::kNotPre: Compare(w, r, q, "", f, false, [&](const model::State& s) { return !pre(s); }); break;
    case Asked::kPost:
    case Asked::kCreatePost: Compare(w, r, q, "", f, q.axioms, achieved); break;
    case Asked::kGoal: Compare(w, r, q, "", f, q.axioms, [&](const model::State& s) { return p.Holds(p.goal, {}, s); }); break;
    default: break;
  }
}

bool DrawAsked(Rng& r, const QWorld& w, bool bad, Asked* q) {
  *q = Asked();
  q->bad = bad;
  q->what = static_cast<Asked::What>(r.Range(0, Asked::kNum - 1));
  q->axioms = q->what != Asked::kNotPre && r.Chance(1, 3);
  q->other = (q->what >= Asked::kCreate || !q->axioms) && q->what != Asked::kNotPre && r.Chance(1, 2);
  if (q->what == Asked::kGoal && !bad) return Small(SizeOf(w.p, w.p.goal));
  if (q->what == Asked::kGoal) q->what = Asked::kPre;
  CallText c;
  if (!SomeCall(r, w, bad, r.Chance(1, 2) ? &w.init : nullptr, &c)) return false;
  q->call = c.text;
  q->action = c.action;
  q->args = c.args;
  if (bad) return true;
  const model::Action& a = w.p.actions[c.action];
  if (!Small(SizeOf(w.p, a.pre))) return false;
  if ((q->what == Asked::kPost || q->what == Asked::kBoth || q->what == Asked::kCreatePost) && !Small(SizeOf(w.p, a.effects))) return false;
  if (q->what == Asked::kNotPre) {
    model::Goal n;
    n.kind = model::Goal::kNot;
    n.kids.push_back(a.pre);
    return Small(SizeOf(w.p, n));
  }
  return true;
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<QWorld>();
  model::Options o;
  o.max_objects = 4;
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 24;
  o.max_preds = 4;
  o.max_actions = 3;
  o.max_depth = rng.Range(1, 4);
  o.max_facts = 26;
  if (rng.Chance(1, 3)) o.max_axioms = 3, o.axiom_forall = rng.Chance(1, 3);
  if (rng.Chance(1, 5)) o.max_rules = 3;
  if (!BuildQWorld(run, w.get(), o, rng.Range(1, 3))) return;
  const int clients = rng.Chance(1, 3) ? 1 : rng.Range(2, 4);
  const int ops = clients == 1 ? rng.Range(6, 16) : rng.Range(3, 6);
  NewOwn(w.get(), clients);
  static const Kinds others = {{kNextState, 3}, {kActionValid, 3}, {kGoal, 2}, {kPartialClosure, 2}, {kOwnStep, 3}};
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int k = 0; k < ops; k++) {
      const uint64_t sub = rng.Next();
      const int kind = rng.Range(0, 11);
      if (kind == 0) {
        run.AddOp(c, "other query", [=] {
          Rng r(sub);
          const Query q = DrawQuery(r, *w, c, others, false);
          if (!q) return;
          LogS(q.label);
          if (Answer(q) && q.commit) q.commit();
        });
        continue;
      }
      const bool bad = kind == 1;
      sim::Op& op = run.AddOp(c, bad ? "normalise, ill-formed" : "normalise", [=] {
        Rng r(sub);
        Asked q;
        bool ok = false;
        for (int tries = 0; tries < 6 && !ok; tries++) ok = DrawAsked(r, *w, bad, &q);
        if (!ok) return;
        LogS(q.Name());
        const bool print = r.Chance(1, 4);
        Answered got;
        if (bad) {
          sim::CurrentRun()->Fired(sim::kBadArgument);
          const Outcome x = Try([&] { Ask(*w, q, false, &got); });
          if (x.ok()) Bad("made-up", q.Name() + " was answered instead of refused");
          else if (x.end == End::kNoMem && !x.fault) Bad("unexpected-error", q.Name() + " ran out of memory");
        } else {
          const int done = Attempt(q.Name(), [&] { Ask(*w, q, print, &got); });
          if (done < 0) return;
          if (done == 0) {
            LogS("no memory");
            got = Answered();
            if (!Must("unexpected-error", "again: " + q.Name(), [&] { Ask(*w, q, print, &got); })) return;
          }
          CheckAnswer(*w, r, q, got);
          if (sim::CurrentRun()->failed()) return;
          if (r.Chance(1, 4)) {
            Answered twice;
            if (!Must("unexpected-error", "again: " + q.Name(), [&] { Ask(*w, q, false, &twice); })) return;
            bool same = twice.refused == got.refused && twice.a.has_value() == got.a.has_value() &&
                        twice.both.has_value() == got.both.has_value();
            if (same && got.a) same = *twice.a == *got.a;
            if (same && got.both) same = twice.both->first == got.both->first && twice.both->second == got.both->second;
            if (!same) Bad("unequal", q.Name() + " asked for twice gives forms that differ");
          }
        }
        if (!sim::CurrentRun()->failed()) CheckUntouched(*w, c, "after " + q.Name());
      });
      if (rng.Chance(1, 4)) AddAllocFault(run, op, rng, 60, 2);
    }
  }
  run.AtEnd([=] { CheckUntouched(*w, -1, "at the end"); });
}

sim::Register reg({"C16", Build,
                   "One run: 1-4 clients ask 3-16 times for normal forms (precondition, postcondition, both, goal, negation) of one "
                   "random problem with shared states, with and without axioms, some with ill-formed calls or a failing allocation; "
                   "every form is evaluated in shared, random and neighbouring states and compared with the condition it comes from. "
                   "Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"src/normal_form.cc", "src/pddl.cc", "src/formula.cc", "src/action.cc", "src/axiom.cc", "src/object.cc",
                    "src/proposition.cc", "src/state.cc", "src/utils/parameter_generator.cc",
                    "include/symbolic/utils/combination_generator.h"},
                   {"thread scheduler (seeded)", "allocator", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory",
                    "with axioms, forms are compared in states in which the axioms hold; conditions that contradict axioms may be refused",
                    "conditions whose normal form would have more than 48 terms are not normalised"}});
}  // namespace
SIM_HARNESS_END
