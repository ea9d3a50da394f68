// C09: axiom consequences are complete and unmixed, however activations nest.
#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<QWorld>();
  model::Options o;
  o.max_objects = 4;
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 24;
  o.max_preds = rng.Range(2, 6);
  o.max_actions = 3;
  o.max_depth = 1;
  o.max_facts = 40;
  o.max_axioms = rng.Range(1, 7);
  o.max_arity = rng.Chance(1, 4) ? 3 : 2;
  o.acyclic_axioms = rng.Chance(1, 5);
  o.axiom_forall = rng.Chance(1, 3);
  o.constraints = rng.Chance(1, 3);
  if (rng.Chance(1, 6)) o.max_rules = 2;
  if (!BuildQWorld(run, w.get(), o, rng.Range(1, 3))) return;
  const int clients = rng.Chance(1, 4) ? 1 : rng.Range(2, 4);
  const int ops = clients == 1 ? rng.Range(6, 24) : rng.Range(3, 8);
  NewOwn(w.get(), clients);
  static const Kinds kinds = {{kNextState, 6}, {kApplyActions, 4}, {kActionApply, 6}, {kActionPartialApply, 5}, {kClosure, 5}, {kAxiomApply, 4}, {kValid, 4}, {kPartialClosure, 5}, {kPartialValid, 4}, {kSingleAxiom, 4}, {kOwnStep, 8}, {kExpand, 2}, {kPlan, 2}, {kWalk, 2}, {kTuple, 2}};
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int k = 0; k < ops; k++) {
      const uint64_t sub = rng.Next();
      run.AddOp(c, "query", [=] {
        Rng r(sub);
        const Query q = DrawQuery(r, *w, c, kinds, false);
        if (!q) return;
        LogS(q.label);
        if (!Answer(q)) return;
        CheckUntouched(*w, c, "after " + q.label);
        if (q.commit) q.commit();
      });
    }
  }
  run.AtEnd([=] { CheckUntouched(*w, -1, "at the end"); });
}

sim::Register reg({"C09", Build,
                   "One run: 1-4 clients apply actions to states and partial states, close states under axioms and check them in one random "
                   "problem with 1-7 axioms (recursive, mutually recursive, repeated variables, constants, either polarity); every "
                   "result is compared with the reference model's. Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"src/axiom.cc", "src/derived_predicate.cc", "src/action.cc", "src/formula.cc", "src/pddl.cc",
                    "src/normal_form.cc", "src/state.cc", "src/proposition.cc", "src/planning/planner.cc"},
                   {"thread scheduler (seeded)", "allocator", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory",
                    "steps whose effects contradict one another, or whose outcome depends on the order of axioms, are left out"}});
}  // namespace
SIM_HARNESS_END
