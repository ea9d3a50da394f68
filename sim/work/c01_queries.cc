// C01: a loaded problem gives every thread the PDDL answer at the same time.
#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<QWorld>();
  model::Options o;
  o.max_objects = 4;
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 24;
  o.max_preds = 4;
  o.max_actions = 3;
  o.max_depth = rng.Range(1, 3);
  o.max_facts = 30;
  if (rng.Chance(1, 3)) o.max_axioms = 3, o.axiom_forall = rng.Chance(1, 3);
  if (rng.Chance(1, 3)) o.max_rules = 4;
  if (rng.Chance(1, 30)) o.no_actions = true;
  if (!BuildQWorld(run, w.get(), o, rng.Range(1, 3))) return;
  const int clients = rng.Chance(1, 6) ? 1 : rng.Range(2, 4);
  const int ops = clients == 1 ? rng.Range(6, 20) : rng.Range(3, 8);
  if (rng.Chance(1, 3) && !AddNormals(run, w.get(), rng.Range(1, 3))) return;
  NewOwn(w.get(), clients);
  static const Kinds kinds = {{kIsValidAction, 6}, {kNextState, 6}, {kApplyActions, 3}, {kTuple, 2}, {kTupleText, 2}, {kPlan, 3},
                              {kGoal, 3}, {kGoalText, 2}, {kListActions, 3}, {kListActionsText, 2}, {kListArguments, 3},
                              {kListArgumentsText, 2}, {kClosure, 2}, {kValid, 2}, {kPartialClosure, 2}, {kPartialValid, 2},
                              {kDerived, 2}, {kActionValid, 3}, {kActionApply, 4}, {kActionPartialValid, 3},
                              {kActionPartialApply, 3}, {kGoalPartial, 2}, {kNormal, 2}, {kPrint, 1}, {kFactText, 1},
                              {kExpand, 1}, {kCopyAction, 1}, {kOwnStep, 4}, {kParameters, 1}, {kIndex, 1}};
  // Clients sometimes all ask the same kind of thing: that is where shared buffers collide.
  Kinds mine = kinds;
  if (rng.Chance(1, 2)) {
    mine = {kinds[rng.Below(kinds.size())], kinds[rng.Below(kinds.size())]};
    if (rng.Chance(1, 2)) mine.push_back({kNextState, 2});
  }
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int k = 0; k < ops; k++) {
      const uint64_t sub = rng.Next();
      Rng peek(sub);
      run.AddOp(c, "query", [=] {
        Rng r(sub);
        const Query q = DrawQuery(r, *w, c, mine, false);
        if (!q) return;
        LogS(q.label);
        if (!Answer(q)) return;
        CheckUntouched(*w, c, "after " + q.label);
        if (q.commit) q.commit();
      });
    }
  }
  run.AtEnd([=] { CheckUntouched(*w, -1, "at the end"); });
}

sim::Register reg({"C01", Build,
                   "One run: 1-4 clients ask 3-20 random queries each (validity, successor, sequence, plan, step, goal, listings, "
                   "closure, derived facts, partial states, normalised conditions, printing, expansion) about one random problem "
                   "with shared states; every answer is compared with the reference model's, and the problem, the shared states "
                   "and each client's own state stay as they were. Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"src/pddl.cc", "src/formula.cc", "src/action.cc", "src/axiom.cc", "src/derived_predicate.cc",
                    "src/normal_form.cc", "src/object.cc", "src/proposition.cc", "src/predicate.cc", "src/state.cc",
                    "src/utils/parameter_generator.cc", "src/planning/planner.cc"},
                   {"thread scheduler (seeded)", "allocator", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory",
                    "normalised conditions are compared with those computed alone, not with the model"}});
}  // namespace
SIM_HARNESS_END
