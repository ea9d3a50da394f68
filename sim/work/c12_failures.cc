// C12: a call that fails leaves no trace.
#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;

const Kinds kGood = {{kIsValidAction, 3}, {kNextState, 4}, {kApplyActions, 3}, {kTuple, 2}, {kTupleText, 2}, {kPlan, 3},
                     {kGoal, 2}, {kGoalText, 2}, {kListActions, 3}, {kListActionsText, 2}, {kListArguments, 2},
                     {kListArgumentsText, 3}, {kClosure, 3}, {kValid, 3}, {kPartialClosure, 3}, {kPartialValid, 3},
                     {kDerived, 3}, {kActionValid, 2}, {kActionApply, 3}, {kActionPartialValid, 2}, {kActionPartialApply, 3},
                     {kGoalPartial, 2}, {kNormal, 3}, {kPrint, 2}, {kFactText, 2}, {kExpand, 3}, {kCopyAction, 3},
                     {kOwnStep, 4}, {kOwnDerive, 1}, {kParameters, 2}, {kIndex, 2}, {kSingleAxiom, 2}};
const Kinds kRefusable = {{kIsValidAction, 3}, {kNextState, 3}, {kApplyActions, 3}, {kTuple, 2}, {kTupleText, 2}, {kPlan, 2},
                          {kGoalText, 2}, {kListActionsText, 2}, {kListArgumentsText, 2}, {kNormal, 1}, {kFactText, 2},
                          {kOwnStep, 3}, {kIndex, 2}};

// The query once with its n-th allocation failing: it must raise an error or succeed properly.
// Returns whether it failed for the fault.
bool WithFault(const Query& q, int64_t n) {
  sim::ArmAlloc(static_cast<uint64_t>(n));
  const Outcome o = Try(q.call);
  if (o.ok()) {
    if (q.bad) Bad("made-up", q.label + " was answered instead of refused");
    else q.check();
    return false;
  }
  LogS(o.end == End::kNoMem ? "no memory" : o.what.substr(0, o.what.find('\n')));
  if (!q.bad && !o.fault) Bad("unexpected-error", q.label + " raised: " + o.what);
  return o.fault;
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<QWorld>();
  model::Options o;
  o.max_objects = 4;
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 24;
  o.max_preds = 4;
  o.max_actions = 3;
  o.max_depth = rng.Range(1, 2);
  o.max_facts = 26;
  if (rng.Chance(1, 2)) o.max_axioms = 3, o.axiom_forall = rng.Chance(1, 3);
  if (rng.Chance(1, 3)) o.max_rules = 3;
  if (!BuildQWorld(run, w.get(), o, rng.Range(1, 3))) return;
  const int clients = rng.Chance(1, 2) ? 1 : rng.Range(2, 3);
  const int ops = clients == 1 ? rng.Range(4, 12) : rng.Range(3, 6);
  if (rng.Chance(1, 2) && !AddNormals(run, w.get(), rng.Range(1, 3))) return;
  NewOwn(w.get(), clients);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int k = 0; k < ops; k++) {
      const uint64_t sub = rng.Next();
      const bool bad = rng.Chance(1, 3);
      const bool fault = rng.Chance(3, 5);
      sim::Op& op = run.AddOp(c, bad ? "ill-formed query" : "query", [=] {
        Rng r(sub);
        const Query q = DrawQuery(r, *w, c, bad ? kRefusable : kGood, bad);
        const sim::Fault* f = sim::OpFault(sim::kAllocFail);
        const int64_t n = f == nullptr ? 0 : f->arg;
        sim::ArmAlloc(0);
        if (!q) return;
        if (bad) sim::CurrentRun()->Fired(sim::kBadArgument);
        LogS(q.label);
        if (n > 0) {
          const bool failed = WithFault(q, n);
          if (sim::CurrentRun()->failed()) return;
          CheckUntouched(*w, c, "after " + q.label + (failed ? " ran out of memory" : ""));
          if (sim::CurrentRun()->failed()) return;
        }
        // The same call without the fault.
        if (!Answer(q, n > 0 ? "again" : "")) return;
        CheckUntouched(*w, c, "after " + q.label);
        if (sim::CurrentRun()->failed()) return;
        if (clients > 1) {
          if (q.commit && !bad) q.commit();
          return;
        }
        if (q.drop) q.drop();
        // Alone: whatever such a call allocates, it gives back.
        if (n > 0) {
          WithFault(q, n);
          if (q.drop) q.drop();
        }
        const int64_t before = sim::LiveBlocks();
        for (int again = 0; again < 2; again++) {
          if (n > 0) {
            WithFault(q, n);
          } else if (bad) {
            (void)Try(q.call);
          } else {
            break;
          }
          if (q.drop) q.drop();
        }
        const int64_t after = sim::LiveBlocks();
        if (after != before)
          Bad("leak", q.label + (n > 0 ? " running out of memory" : " being refused") + " twice left " +
                          std::to_string(after - before) + " blocks behind");
        if (q.commit && !bad && !sim::CurrentRun()->failed() && Answer(q, "once more")) q.commit();
      });
      if (fault) AddAllocFault(run, op, rng, 40, 2);
      if (bad) run.Planned(sim::kBadArgument);
    }
  }
  run.AtEnd([=] {
    CheckUntouched(*w, -1, "at the end");
    Rng r(77);
    for (int k = 0; k < 3 && !sim::CurrentRun()->failed(); k++) {
      const Query q = DrawQuery(r, *w, -1, kGood, false);
      if (q) Answer(q, "at the end");
    }
  });
}

sim::Register reg({"C12", Build,
                   "One run: 1-3 clients make 3-12 calls each about one random problem, a third of them ill-formed (unknown action, "
                   "object or fact, wrong number or type of arguments) and 3 in 5 with one failing allocation anywhere inside; a "
                   "failing call must raise an error and leave the problem and all states as they were, the repeated call must be "
                   "right, and (one client) no heap block may be left behind. Non-trivial: a fault fired or an ill-formed call was made.",
                   [](const sim::RunResult& r) { return r.faults_fired[sim::kAllocFail] + r.faults_fired[sim::kBadArgument] > 0; },
                   {"src/pddl.cc", "src/formula.cc", "src/action.cc", "src/axiom.cc", "src/derived_predicate.cc",
                    "src/normal_form.cc", "src/object.cc", "src/proposition.cc", "src/predicate.cc", "src/state.cc",
                    "src/utils/parameter_generator.cc", "src/planning/planner.cc"},
                   {"thread scheduler (seeded)", "allocator (fault-injecting)", "VAL parser (stand-in)"},
                   {"one allocation fails per call", "preemption happens at memory accesses, with sequentially consistent memory"}});
}  // namespace
SIM_HARNESS_END
