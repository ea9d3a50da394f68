// C13: objects added to and removed from a problem take effect everywhere or nowhere.
#include <algorithm>

#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;

struct World : QWorld {
  bool goal_known = true;  // false once an object the goal names was removed
  int added = 0;
};

bool Mentions(const model::Goal& g, int object) {
  for (const model::Term& t : g.terms)
    if (t.obj == object) return true;
  for (const model::Goal& k : g.kids)
    if (Mentions(k, object)) return true;
  return false;
}

// Does everything that can be asked about the objects agree with the history?
bool CheckObjects(const World& w, const std::string& where) {
  const model::Problem& p = w.p;
  const symbolic::Pddl& pddl = *w.pddl;
  auto same = [&](const std::string& what, const std::vector<std::string>& have, const std::vector<std::string>& want) {
    if (have == want) return true;
    Bad("disagree", where + ": " + what + " are [" + Join(have) + "] instead of [" + Join(want) + "]");
    return false;
  };
  auto names = [&](const std::vector<int>& objects) {
    std::vector<std::string> v;
    for (int o : objects) v.push_back(p.objects[o]);
    return v;
  };
  std::vector<std::string> have, want;
  for (const symbolic::Object& o : pddl.objects()) have.push_back(o.name() + " - " + o.type().name());
  for (int o : p.ObjectsOf(-1)) want.push_back(p.objects[o] + " - " + p.TypeName(p.type_of[o]));
  if (!same("the objects", have, want)) return false;
  have.clear();
  for (const symbolic::Object& o : pddl.constants()) have.push_back(o.name());
  want.assign(p.objects.begin(), p.objects.begin() + p.constants);
  if (!same("the constants", have, want)) return false;
  for (int t = -1; t < static_cast<int>(p.parent.size()); t++) {
    have.clear();
    const auto it = pddl.object_map().find(p.TypeName(t));
    if (it != pddl.object_map().end())
      for (const symbolic::Object& o : it->second) have.push_back(o.name());
    if (!same("the objects of type " + p.TypeName(t), have, names(p.ObjectsOf(t)))) return false;
  }
  // Lookup by name.
  std::set<std::string> known(p.objects.begin(), p.objects.end());
  known.insert("nobody");
  for (const std::string& n : known) {
    const Outcome o = Try([&] { (void)symbolic::Object(pddl, n); });
    if (o.ok() != (p.FindObject(n) >= 0)) {
      Bad("disagree", where + ": the object " + n + (o.ok() ? " is still found" : " is not found: " + o.what));
      return false;
    }
  }
  // Enumerations.
  auto tuples = [&](const std::vector<int>& types) {
    std::vector<std::string> v;
    for (auto& args : p.Args(types)) v.push_back("(" + Join(names(args)) + ")");
    return v;
  };
  auto listed = [&](const symbolic::ParameterGenerator& gen) {
    std::vector<std::string> v;
    for (const std::vector<symbolic::Object>& args : gen) {
      std::vector<std::string> a;
      for (const symbolic::Object& o : args) a.push_back(o.name());
      v.push_back("(" + Join(a) + ")");
      if (v.size() > 5000) break;
    }
    return v;
  };
  for (size_t i = 0; i < pddl.actions().size(); i++)
    if (!same("the arguments of " + p.actions[i].name, listed(pddl.actions()[i].parameter_generator()), tuples(p.actions[i].params))) return false;
  for (size_t i = 0; i < pddl.predicates().size(); i++)
    if (!same("the arguments of " + p.preds[i].name, listed(pddl.predicates()[i].parameter_generator()), tuples(p.preds[i].params))) return false;
  // The index.
  const auto all = p.AllAtoms();
  if (pddl.state_index().size() != all.size()) {
    Bad("disagree", where + ": the index has " + std::to_string(pddl.state_index().size()) + " facts instead of " + std::to_string(all.size()));
    return false;
  }
  std::set<size_t> numbers;
  for (const model::Atom& a : all) {
    size_t n = 0;
    std::string back;
    if (!Must("index", where + ": the index on " + p.Show(a), [&] {
          n = pddl.state_index().GetPropositionIndex(w.Fact(a));
          const symbolic::Proposition f = pddl.state_index().GetProposition(n);
          sim::Outside out;
          back = ShowFact(f);
        }))
      return false;
    if (back != p.Show(a) || !numbers.insert(n).second) {
      Bad("disagree", where + ": the index gives " + p.Show(a) + " the number " + std::to_string(n) + ", which is " + back);
      return false;
    }
  }
  return true;
}

bool CheckAll(World& w, int client, const std::string& where) {
  if (!CheckObjects(w, where)) return false;
  CheckUntouched(w, client, where);
  return !sim::CurrentRun()->failed();
}

const Kinds kAsk = {{kIsValidAction, 4}, {kNextState, 4}, {kApplyActions, 3}, {kTupleText, 2}, {kListActions, 4}, {kListActionsText, 2},
                    {kListArguments, 3}, {kListArgumentsText, 3}, {kActionValid, 2}, {kActionApply, 2}, {kClosure, 2}, {kValid, 2},
                    {kPartialClosure, 1}, {kDerived, 2}, {kParameters, 2}, {kIndex, 2}, {kExpand, 3}, {kWalk, 2}, {kOwnStep, 6},
                    {kFactText, 2}, {kPrint, 2}, {kAxiomApply, 2}, {kActionPartialApply, 1}};
const Kinds kAskGoal = {{kGoal, 2}, {kGoalText, 1}, {kPlan, 2}, {kGoalPartial, 1}};
const Kinds kRefusable = {{kIsValidAction, 3}, {kNextState, 3}, {kApplyActions, 2}, {kTuple, 1}, {kPlan, 1}, {kIndex, 2}, {kFactText, 1}};

// Forgets what the harness's own states say about an object that is gone.
void Forget(World* w, int gone) {
  auto has = [&](const model::Atom& a) { return std::find(a.args.begin(), a.args.end(), gone) != a.args.end(); };
  const std::string name = w->p.objects[gone];
  auto clean_model = [&](model::State* s) {
    for (auto it = s->begin(); it != s->end();) it = has(*it) ? s->erase(it) : std::next(it);
  };
  auto clean = [&](symbolic::State* s) {
    std::vector<symbolic::Proposition> drop;
    for (const symbolic::Proposition& f : *s)
      for (const symbolic::Object& o : f.arguments())
        if (o.name() == name) {
          drop.push_back(f);
          break;
        }
    for (const symbolic::Proposition& f : drop) s->erase(f);
  };
  for (auto& s : w->ms) clean_model(&s);
  for (auto& s : w->rs) clean(&s);
  for (auto& o : w->own) clean_model(&o.m), clean(&o.r);
  clean_model(&w->init);
  for (size_t i = 0; i < w->mp.size(); i++) {
    for (auto it = w->mp[i].begin(); it != w->mp[i].end();) it = has(it->first) ? w->mp[i].erase(it) : std::next(it);
    w->rp[i] = w->Real(w->mp[i]);
  }
}

void Add(World* w, int client, uint64_t sub) {
  Rng r(sub);
  model::Problem& p = w->p;
  const auto alive = p.ObjectsOf(-1);
  enum { kFresh, kAgain, kTaken, kNoType } how = kFresh;
  const int draw = r.Range(0, 9);
  std::vector<int> gone;
  for (size_t o = 0; o < p.objects.size(); o++)
    if (!p.Alive(static_cast<int>(o)) && p.FindObject(p.objects[o]) < 0 && p.objects[o].compare(0, 4, "gone") != 0) gone.push_back(static_cast<int>(o));
  if (draw < 2 && !alive.empty()) how = kTaken;
  else if (draw < 3) how = kNoType;
  else if (draw < 7 && !gone.empty()) how = kAgain;
  std::string name = "n" + std::to_string(w->added++);
  if (r.Chance(1, 6)) name = "a_much_longer_name_" + name;
  if (how == kAgain) name = p.objects[r.Pick(gone)];
  if (how == kTaken) name = p.objects[alive[r.Below(alive.size())]];
  const int type = r.Range(-1, static_cast<int>(p.parent.size()) - 1);
  const std::string type_name = how == kNoType ? "no_such_type" : p.TypeName(type);
  if (how != kTaken && how != kNoType) {
    // Keep the problem small.
    if (alive.size() >= 6) return;
    model::Problem bigger = p;
    bigger.objects.push_back(name);
    bigger.type_of.push_back(type);
    if (bigger.AllAtoms().size() > 70) return;
    for (const model::Action& a : bigger.actions)
      if (bigger.Args(a.params).size() > 80) return;
  }
  const std::string label = "adding " + name + " - " + type_name;
  LogS(label);
  const Outcome o = Try([&] { w->pddl->AddObject(name, type_name); });
  if (how == kTaken || how == kNoType) {
    sim::CurrentRun()->Fired(sim::kBadArgument);
    if (o.ok()) {
      Bad("accepted", label + " was accepted");
      return;
    }
    CheckAll(*w, client, "after the refusal of " + label);
    return;
  }
  if (!o.ok()) {
    if (!o.fault) {
      Bad("unexpected-error", label + " raised: " + o.what);
      return;
    }
    LogS("no memory");
    if (!CheckAll(*w, client, "after " + label + " ran out of memory")) return;
    const Query q = DrawQuery(r, *w, client, kAsk, false);
    if (q && !Answer(q, "after " + label + " ran out of memory")) return;
    if (!Must("unexpected-error", label + " again", [&] { w->pddl->AddObject(name, type_name); })) return;
  }
  // The name means the new object from here on.
  for (size_t k = 0; k < p.objects.size(); k++)
    if (p.objects[k] == name) p.objects[k] = "gone" + std::to_string(k);
  p.objects.push_back(name);
  p.type_of.push_back(type);
  CheckAll(*w, client, "after " + label);
}

void Remove(World* w, int client, uint64_t sub) {
  Rng r(sub);
  model::Problem& p = w->p;
  std::vector<int> removable;
  for (int o : p.ObjectsOf(-1))
    if (o >= p.constants) removable.push_back(o);
  std::string name = "nobody";
  int object = -1;
  if (r.Chance(1, 8) && p.constants > 0) {
    name = p.objects[r.Below(p.constants)];
  } else if (r.Chance(1, 10)) {
    for (size_t o = 0; o < p.objects.size(); o++)
      if (!p.Alive(static_cast<int>(o)) && p.FindObject(p.objects[o]) < 0) name = p.objects[o];  // a removed one
  } else if (!removable.empty()) {
    object = r.Pick(removable);
    name = p.objects[object];
  }
  const std::string label = "removing " + name;
  LogS(label);
  const Outcome o = Try([&] { w->pddl->RemoveObject(name); });
  if (object < 0) {
    sim::CurrentRun()->Fired(sim::kBadArgument);
    CheckAll(*w, client, "after " + label + ", which cannot be");
    return;
  }
  if (!o.ok()) {
    if (!o.fault) {
      Bad("unexpected-error", label + " raised: " + o.what);
      return;
    }
    LogS("no memory");
    if (!CheckAll(*w, client, "after " + label + " ran out of memory")) return;
    const Query q = DrawQuery(r, *w, client, kAsk, false);
    if (q && !Answer(q, "after " + label + " ran out of memory")) return;
    if (!Must("unexpected-error", label + " again", [&] { w->pddl->RemoveObject(name); })) return;
  }
  if (Mentions(p.goal, object)) w->goal_known = false;
  // States that still mention it can be read and cleaned up.
  p.type_of[object] = model::Problem::kGone;
  Forget(w, object);
  CheckAll(*w, client, "after " + label);
}

// Another initial state: plans start there from now on.
void Restart(World* w, int client, uint64_t sub) {
  Rng r(sub);
  const auto closed = w->p.Closure(w->p.RandomState(r, r.Chance(1, 2)));
  if (!closed) return;
  const model::State m = w->p.Derive(*closed);
  const std::string label = "starting from " + w->p.Show(m);
  LogS(label);
  symbolic::State s = w->Real(m, r);
  if (!Must("unexpected-error", label, [&] { w->pddl->set_initial_state(std::move(s)); })) return;
  w->init = m;
  CheckAll(*w, client, "after " + label);
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  model::Options o;
  o.max_objects = 4;
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 24;
  o.grows = true;
  o.min_objects = 1;
  o.max_preds = 4;
  o.max_actions = 3;
  o.max_depth = rng.Range(1, 2);
  o.max_facts = 24;
  if (rng.Chance(1, 2)) o.max_axioms = 3;
  if (rng.Chance(1, 3)) o.max_rules = 3;
  if (!BuildQWorld(run, w.get(), o, rng.Range(1, 2))) return;
  // Clients take turns: changing a problem while another thread uses it is not promised to work.
  run.SetGap(0);
  const int clients = rng.Range(1, 3);
  NewOwn(w.get(), clients);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int k = rng.Range(3, clients == 1 ? 14 : 7); k > 0; k--) {
      const uint64_t sub = rng.Next();
      const int what = rng.Range(0, 10);
      if (what == 10) {
        run.AddOp(c, "start elsewhere", [=] { Restart(w.get(), c, sub); });
      } else if (what < 3) {
        sim::Op& op = run.AddOp(c, "add", [=] { Add(w.get(), c, sub); });
        if (rng.Chance(1, 2)) AddAllocFault(run, op, rng, 60, 2);
      } else if (what < 6) {
        sim::Op& op = run.AddOp(c, "remove", [=] { Remove(w.get(), c, sub); });
        if (rng.Chance(1, 2)) AddAllocFault(run, op, rng, 60, 2);
      } else {
        const bool bad = rng.Chance(1, 5);
        if (bad) run.Planned(sim::kBadArgument);
        run.AddOp(c, bad ? "ill-formed query" : "query", [=] {
          Rng r(sub);
          const bool goal = !bad && w->goal_known && r.Chance(1, 8);
          const Query q = DrawQuery(r, *w, c, goal ? kAskGoal : bad ? kRefusable : kAsk, bad);
          if (!q) return;
          if (bad) sim::CurrentRun()->Fired(sim::kBadArgument);
          LogS(q.label);
          if (!Answer(q)) return;
          if (q.commit && !bad) q.commit();
        });
      }
    }
  }
  run.AtEnd([=] {
    if (!CheckAll(*w, -1, "at the end")) return;
    Rng r(5);
    for (int k = 0; k < 4 && !sim::CurrentRun()->failed(); k++) {
      const Query q = DrawQuery(r, *w, 0, kAsk, false);
      if (q) Answer(q, "at the end");
    }
  });
}

sim::Register reg({"C13", Build,
                   "One run: 1-3 clients in turn add objects (new, back again, name taken, unknown type), remove them (also constants and "
                   "unknown ones), with failing allocations, and ask queries; after every request all views of the objects, "
                   "enumerations, the index and the answers agree with the history. Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"src/pddl.cc", "src/object.cc", "src/action.cc", "src/axiom.cc", "src/derived_predicate.cc", "src/formula.cc",
                    "src/predicate.cc", "src/state.cc", "src/utils/parameter_generator.cc", "src/planning/planner.cc"},
                   {"allocator (fault-injecting)", "VAL parser (stand-in)"},
                   {"clients take turns at operation boundaries", "the objects of a problem are owned by its list"}});
}  // namespace
SIM_HARNESS_END
