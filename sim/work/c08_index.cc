// C08: the state index stays a bijection under caching and concurrent use.
#include <map>

#include "model/model.h"
#include "symbolic/pddl.h"
#include "work/common.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::Object;
using symbolic::Pddl;
using symbolic::Proposition;
using symbolic::State;
using symbolic::StateIndex;

struct World {
  model::Problem p;
  std::unique_ptr<Pddl> pddl;
  std::vector<std::unique_ptr<StateIndex>> shared;  // used by every client
  std::vector<std::string> names;                   // of the shared ones
  std::vector<model::Atom> atoms;
  std::vector<Proposition> facts;   // per atom
  std::vector<size_t> number;       // per atom
  std::vector<int> atom_of;         // per number
  std::vector<std::vector<std::unique_ptr<StateIndex>>> own;  // per client

  const StateIndex& Shared(size_t k) const { return k == 0 ? pddl->state_index() : *shared[k - 1]; }
  std::vector<Object> Objects(const std::vector<int>& args) const {
    std::vector<Object> v;
    for (int o : args) v.emplace_back(*pddl, p.objects[o]);
    return v;
  }
};

std::string Show(const Proposition& f) {
  std::string s = f.name() + "(";
  for (size_t i = 0; i < f.arguments().size(); i++) s += (i ? ", " : "") + f.arguments()[i].name();
  return s + ")";
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  model::Options o;
  o.max_types = 3;
  o.max_objects = 5;
  o.max_preds = 6;
  o.max_actions = 1;
  o.max_arity = 3;
  o.max_facts = 150;
  if (rng.Chance(1, 3)) o.max_rules = 2;
  if (rng.Chance(1, 12)) o.max_preds = 2;
  if (rng.Chance(1, 30)) o.no_preds = true;
  if (rng.Chance(1, 16)) {
    o.long_lists = true;
    o.max_objects = 3;
    run.Probe("a great many arguments");
  }
  w->p = model::Problem::Random(rng, o);
  sim::FsPut("/simfs/d.pddl", {w->p.DomainText()});
  if (!Must("load", "loading the problem",
            [&] { w->pddl = std::make_unique<Pddl>("/simfs/d.pddl", w->p.ProblemText()); }))
    return;
  w->atoms = w->p.AllAtoms();
  const size_t n = w->atoms.size();
  for (auto& a : w->atoms) w->facts.emplace_back(w->p.preds[a.pred].name, w->Objects(a.args));
  w->names = {"the problem's index"};
  const int extra = rng.Range(0, 2);
  for (int k = 0; k < extra; k++) {
    const bool cache = rng.Chance(1, 2);
    if (!Must("construct", "making an index", [&] { w->shared.push_back(std::make_unique<StateIndex>(w->pddl->predicates(), cache)); }))
      return;
    w->names.push_back(std::string("an index with") + (cache ? "" : "out") + " cache");
  }
  // The numbering, learned by a client that is alone.
  w->number.resize(n);
  w->atom_of.assign(n, -1);
  if (!Must("number", "numbering all facts alone", [&] {
        StateIndex plain(w->pddl->predicates(), rng.Chance(1, 2));
        if (plain.size() != n) Bad("size", "the index counts " + std::to_string(plain.size()) + " facts instead of " + std::to_string(n));
        for (size_t k = 0; k < n && !sim::CurrentRun()->failed(); k++) {
          w->number[k] = plain.GetPropositionIndex(w->facts[k]);
          sim::Outside out;
          if (w->number[k] >= n)
            Bad("bijection", Show(w->facts[k]) + " has number " + std::to_string(w->number[k]) + " of " + std::to_string(n));
          else if (w->atom_of[w->number[k]] >= 0)
            Bad("bijection", Show(w->facts[k]) + " and " + Show(w->facts[w->atom_of[w->number[k]]]) + " have the same number");
          else
            w->atom_of[w->number[k]] = static_cast<int>(k);
        }
      }) ||
      run.failed())
    return;
  if (n == 0) run.Probe("no facts at all");

  const int clients = rng.Chance(1, 4) ? 1 : rng.Range(2, 4);
  const int ops = clients == 1 ? rng.Range(4, 16) : rng.Range(3, 8);
  w->own.resize(clients);
  const bool faults = rng.Chance(1, 2);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    w->own[c].resize(2);
    for (int q = 0; q < ops; q++) {
      const int k = rng.Range(0, 19);
      const size_t which = rng.Below(1 + extra);
      const bool own = rng.Chance(1, 3);
      const int slot = static_cast<int>(rng.Below(2));
      const uint64_t sub = rng.Next();
      const char* what = k <= 4 ? "number facts" : k <= 8 ? "read facts by number" : k <= 10 ? "ask for a fact that does not exist"
                         : k <= 12 ? "convert a state" : k == 13 ? "convert bits" : k <= 15 ? "walk the index"
                         : k <= 17 ? "copy an index" : k == 18 ? "move an index" : "assign an index";
      const std::string label = std::string(what) + (own ? " with index " + std::to_string(slot) + " (or " : " with ") +
                                w->names[which] + (own ? ")" : "");
      sim::Op& op = run.AddOp(c, label, [=] {
        Rng r(sub);
        auto& slots = w->own[c];
        const StateIndex& index = own && slots[slot] ? *slots[slot] : w->Shared(which);
        auto some_bits = [&](StateIndex::IndexedState* bits, std::set<size_t>* on) {
          *bits = StateIndex::IndexedState::Zero(n);
          const int den = r.Range(1, 4);
          for (size_t i = 0; i < n; i++)
            if (r.Chance(1, den)) {
              (*bits)[i] = true;
              on->insert(i);
            }
        };
        auto facts_of = [&](const State& s) {
          std::set<std::string> t;
          for (const Proposition& f : s) t.insert(Show(f));
          return t;
        };
        if (k <= 4) {
          if (n == 0) return;
          for (int m = r.Range(1, 6); m > 0; m--) {
            const size_t a = r.Below(n);
            size_t got = 0;
            const int done = Attempt(label, [&] { got = index.GetPropositionIndex(w->facts[a]); });
            if (done < 0) return;
            LogN(done ? got : ~0ull);
            if (done && got != w->number[a])
              Bad("number", label + ": " + Show(w->facts[a]) + " has number " + std::to_string(got) + " instead of " +
                                std::to_string(w->number[a]));
            else if (!done)
              m++;  // once more, without the fault
            if (sim::CurrentRun()->failed()) return;
          }
          return;
        }
        if (k <= 8) {
          if (n == 0) return;
          for (int m = r.Range(1, 6); m > 0; m--) {
            const size_t i = r.Below(n);
            std::string got;
            const int done = Attempt(label, [&] {
              const Proposition f = index.GetProposition(i);
              sim::Outside out;
              got = Show(f);
              if (f.hash() != w->facts[w->atom_of[i]].hash() || !(f == w->facts[w->atom_of[i]]))
                Bad("fact", label + ": fact " + std::to_string(i) + " (" + got + ") differs from " + Show(w->facts[w->atom_of[i]]));
            });
            if (done < 0) return;
            LogS(got);
            if (done && got != Show(w->facts[w->atom_of[i]]))
              Bad("fact", label + ": fact " + std::to_string(i) + " is " + got + " instead of " + Show(w->facts[w->atom_of[i]]));
            else if (!done)
              m++;
            if (sim::CurrentRun()->failed()) return;
          }
          return;
        }
        if (k <= 10) {
          sim::CurrentRun()->Fired(sim::kBadArgument);
          const int bad = r.Range(0, 5);
          std::unique_ptr<Proposition> f;
          size_t beyond = 0;
          if (bad == 0 || (n == 0 && bad != 5)) {
            f = std::make_unique<Proposition>("no_such_predicate", std::vector<Object>());
          } else if (bad == 5) {
            // A predicate nothing can be said with, because there are no objects for it.
            std::vector<std::string> mute;
            for (size_t q = 0; q < w->p.preds.size(); q++) {
              bool any = false;
              for (const model::Atom& a : w->atoms) any |= a.pred == static_cast<int>(q);
              if (!any) mute.push_back(w->p.preds[q].name);
            }
            if (mute.empty()) return;
            std::vector<int> args;
            for (int m = r.Range(0, 2); m > 0 && !w->p.objects.empty(); m--)
              args.push_back(static_cast<int>(r.Below(w->p.objects.size())));
            f = std::make_unique<Proposition>(r.Pick(mute), w->Objects(args));
          } else if (bad == 4) {
            beyond = n + (r.Chance(1, 2) ? 0 : r.Below(1000)) ;
            if (r.Chance(1, 6)) beyond = ~size_t{0} - r.Below(3);
          } else {
            const model::Atom& a = w->atoms[r.Below(n)];
            std::vector<int> args = a.args;
            if (bad == 1 && !args.empty()) {
              args.pop_back();
            } else if (bad == 2 || args.empty()) {
              args.push_back(static_cast<int>(r.Below(w->p.objects.size())));
            } else {
              // An object of another type, if there is one.
              const size_t at = r.Below(args.size());
              std::vector<int> wrong;
              for (size_t x = 0; x < w->p.objects.size(); x++)
                if (!w->p.IsA(static_cast<int>(x), w->p.preds[a.pred].params[at])) wrong.push_back(static_cast<int>(x));
              if (wrong.empty()) return;
              args[at] = r.Pick(wrong);
            }
            f = std::make_unique<Proposition>(w->p.preds[a.pred].name, w->Objects(args));
          }
          size_t got = 0;
          std::string fact;
          const Outcome end = Try([&] {
            if (f) {
              got = index.GetPropositionIndex(*f);
            } else {
              const Proposition g = index.GetProposition(beyond);
              sim::Outside out;
              fact = Show(g);
            }
          });
          LogS(end.what);
          if (end.ok())
            Bad("made-up", label + ": asking for " + (f ? Show(*f) : "number " + std::to_string(beyond)) + " gave " +
                               (f ? "number " + std::to_string(got) : fact) + " instead of an error");
          return;
        }
        if (k <= 13) {
          StateIndex::IndexedState bits;
          std::set<size_t> on;
          some_bits(&bits, &on);
          State s;
          std::set<std::string> want;
          std::vector<size_t> order(on.begin(), on.end());
          r.Shuffle(order);
          for (size_t i : order) {
            s.insert(w->facts[w->atom_of[i]]);
            want.insert(Show(w->facts[w->atom_of[i]]));
          }
          for (int tries = 0; tries < 2; tries++) {
            if (k <= 12) {
              StateIndex::IndexedState got;
              State back;
              const int done = Attempt(label, [&] {
                got = index.GetIndexedState(s);
                back = index.GetState(got);
              });
              if (done < 0) return;
              if (!done) continue;
              std::set<size_t> set;
              for (Eigen::Index i = 0; i < got.size(); i++)
                if (got[i]) set.insert(static_cast<size_t>(i));
              LogN(set.size());
              if (static_cast<size_t>(got.size()) != n || set != on)
                Bad("bits", label + ": the bits of {" + Join(want) + "} are {" + Join(set) + "} instead of {" + Join(on) + "}");
              else if (facts_of(back) != want || !(back == s))
                Bad("round-trip", label + ": {" + Join(want) + "} comes back as {" + Join(facts_of(back)) + "}");
            } else {
              State got;
              const int done = Attempt(label, [&] { got = index.GetState(bits); });
              if (done < 0) return;
              if (!done) continue;
              LogN(got.size());
              if (facts_of(got) != want || !(got == s))
                Bad("state", label + ": bits {" + Join(on) + "} mean {" + Join(facts_of(got)) + "} instead of {" + Join(want) + "}");
            }
            return;
          }
          return;
        }
        if (k <= 15) {
          // Positions beyond either end are legal to pass through, not to read.
          const size_t want_size = n;
          if (Try([&] {
                std::vector<std::string> got;
                for (const Proposition& f : index) {
                  sim::Outside out;
                  got.push_back(Show(f));
                  if (got.size() > want_size) break;
                }
                sim::Outside out;
                std::vector<std::string> want;
                for (size_t i = 0; i < want_size; i++) want.push_back(Show(w->facts[w->atom_of[i]]));
                LogN(got.size());
                if (got != want) Bad("walk", label + ": gave {" + Join(got) + "} instead of {" + Join(want) + "}");
              }).end == End::kThrew)
            Bad("unexpected-error", label + " raised an error");
          if (sim::CurrentRun()->failed() || n == 0) return;
          long at = 0;
          Must("iterator", label, [&] {
            StateIndex::iterator it = index.begin();
            for (int m = 0; m < 8; m++) {
              const int step = r.Range(0, 6);
              const long to = static_cast<long>(r.Below(n));
              switch (step) {
                case 0: ++it; at++; break;
                case 1: --it; at--; break;
                case 2: it++; at++; break;
                case 3: it--; at--; break;
                case 4: it += to - at; at = to; break;
                case 5: it = index.end() - (static_cast<long>(n) - to); at = to; break;
                case 6: it = index.begin() + to; at = to; break;
              }
              std::string one, two, three;
              if (at >= 0 && at < static_cast<long>(n)) {
                const Proposition& f = *it;
                const Proposition third = index.begin()[at];
                const Proposition second = *it.operator->();
                sim::Outside out;
                one = Show(f);
                two = Show(second);
                three = Show(third);
              }
              const bool front = it - index.begin() == at, less = (it < index.end()) == (at < static_cast<long>(n)),
                         end = (it == index.end()) == (at == static_cast<long>(n));
              const StateIndex::iterator there = index.begin() + to;
              const bool apart = there - it == to - at && (it != there) == (at != to), order = (it > there) == (at > to) && (it >= there) == (at >= to) &&
                                 (it <= there) == (at <= to) && (it < there) == (at < to),
                         away = there - (to - at) == it && (to - at) + it == there && (it -= 0) == it;
              sim::Outside out;
              if (!front || !less || !end || !apart || !order || !away) Bad("iterator", label + ": an iterator is not where it should be, at " + std::to_string(at));
              if (at < 0 || at >= static_cast<long>(n)) continue;
              const std::string want = Show(w->facts[w->atom_of[at]]);
              if (one != want || two != want || three != want)
                Bad("iterator", label + ": at " + std::to_string(at) + " it shows " + one + ", " + two + ", " + three + " instead of " + want);
            }
          });
          return;
        }
        std::unique_ptr<StateIndex> fresh;
        if (k <= 17) {
          const int done = Attempt(label, [&] { fresh = std::make_unique<StateIndex>(index); });
          if (done < 0) return;
          LogN(done);
          if (!done) return;
          // The original may be a client's own: it can go.
          if (r.Chance(1, 3) && slots[slot]) sim::CurrentRun()->Fired(sim::kSourceGone);
          slots[r.Chance(1, 2) ? slot : 1 - slot] = std::move(fresh);
          return;
        }
        if (k == 18) {
          if (!slots[slot]) return;
          const int done = Attempt(label, [&] { fresh = std::make_unique<StateIndex>(std::move(*slots[slot])); });
          slots[slot].reset();
          if (done <= 0) return;
          sim::CurrentRun()->Fired(sim::kSourceGone);
          slots[slot] = std::move(fresh);
          return;
        }
        // Assignment of another index over an own one.
        StateIndex* to = slots[slot].get();
        if (to == nullptr) return;
        const StateIndex& from = r.Chance(1, 2) && slots[1 - slot] ? *slots[1 - slot] : w->Shared(which);
        const int done = Attempt(label, [&] { *to = from; });
        if (done < 0) return;
        if (!done) slots[slot].reset();  // half assigned: only good for destruction
      });
      if (faults && rng.Chance(1, 3)) AddAllocFault(run, op, rng);
      if (k >= 9 && k <= 10) run.Planned(sim::kBadArgument);
    }
  }
}

// Predicates with more facts than anyone could list, so that only some are ever asked for.
struct Huge {
  std::unique_ptr<Pddl> pddl;
  std::vector<std::string> objects;
  std::vector<int> type_of;  // 0: object, 1 or 2: a type below it
  std::vector<std::vector<int>> preds;
  size_t size = 0;
  std::vector<std::unique_ptr<StateIndex>> shared;
  std::map<std::string, size_t> number;
  std::map<size_t, std::string> fact;

  // Every fact has one number and every number one fact, whoever asked first.
  void Pair(const std::string& f, size_t i) {
    if (i >= size) {
      Bad("bijection", f + " has number " + std::to_string(i) + " of " + std::to_string(size));
      return;
    }
    const auto a = number.emplace(f, i).first;
    const auto b = fact.emplace(i, f).first;
    if (a->second != i) Bad("number", f + " has the numbers " + std::to_string(a->second) + " and " + std::to_string(i));
    else if (b->second != f) Bad("bijection", f + " and " + b->second + " have the same number " + std::to_string(i));
  }
};

void BuildHuge(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<Huge>();
  run.Probe("more facts than can be listed");
  const int objects = rng.Range(10, 60), types = rng.Range(0, 2);
  std::vector<size_t> count(3);
  std::string problem = "(define (problem q) (:domain d) (:objects", domain = "(define (domain d) (:requirements :strips :typing) (:types";
  for (int t = 1; t <= types; t++) domain += " t" + std::to_string(t) + " - object";
  domain += ") (:predicates";
  for (int o = 0; o < objects; o++) {
    w->objects.push_back("o" + std::to_string(o));
    w->type_of.push_back(rng.Range(0, types));
    count[0]++;
    if (w->type_of[o] > 0) count[w->type_of[o]]++;
    problem += " " + w->objects[o] + " - " + (w->type_of[o] ? "t" + std::to_string(w->type_of[o]) : "object");
  }
  const int preds = rng.Range(1, 5);
  for (int k = 0; k < preds; k++) {
    std::vector<int> params;
    size_t n = 1;
    domain += " (p" + std::to_string(k);
    for (int a = rng.Range(0, 9); a > 0; a--) {
      const int t = rng.Range(0, types);
      if (n * count[t] > size_t{1} << 50) break;
      n *= count[t];
      domain += " ?x" + std::to_string(a) + " - " + (t ? "t" + std::to_string(t) : "object");
      params.push_back(t);
    }
    domain += ")";
    w->size += n;
    w->preds.push_back(params);
  }
  sim::FsPut("/simfs/d.pddl", {domain + "))"});
  if (!Must("load", "loading the problem", [&] {
        w->pddl = std::make_unique<Pddl>("/simfs/d.pddl", problem + ") (:init) (:goal (and)))");
        for (int k = rng.Range(0, 2); k > 0; k--) w->shared.push_back(std::make_unique<StateIndex>(w->pddl->predicates(), k % 2 == 0));
      }))
    return;
  if (w->pddl->state_index().size() != w->size)
    Bad("size", "the index counts " + std::to_string(w->pddl->state_index().size()) + " facts instead of " + std::to_string(w->size));
  const int clients = rng.Chance(1, 3) ? 1 : rng.Range(2, 3);
  const int ops = clients == 1 ? rng.Range(4, 12) : rng.Range(3, 6);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int q = 0; q < ops; q++) {
      const uint64_t sub = rng.Next();
      const int kind = rng.Range(0, 3);
      const size_t which = rng.Below(1 + w->shared.size());
      static const char* const names[] = {"number a fact", "number a fact", "read a fact by number", "walk among facts"};
      sim::Op& op = run.AddOp(c, names[kind], [=] {
        Rng r(sub);
        if (w->size == 0) return;
        const StateIndex& index = which == 0 ? w->pddl->state_index() : *w->shared[which - 1];
        if (kind <= 1) {
          const size_t k = r.Below(w->preds.size());
          std::vector<Object> args;
          for (int t : w->preds[k]) {
            std::vector<int> some;
            for (size_t o = 0; o < w->objects.size(); o++)
              if (t == 0 || w->type_of[o] == t) some.push_back(static_cast<int>(o));
            if (some.empty()) return;
            args.emplace_back(*w->pddl, w->objects[r.Pick(some)]);
          }
          const Proposition f("p" + std::to_string(k), std::move(args));
          LogS(Show(f));
          size_t i = 0;
          std::string back;
          const int done = Attempt(names[kind], [&] {
            i = index.GetPropositionIndex(f);
            const Proposition g = index.GetProposition(i);
            sim::Outside out;
            back = Show(g);
          });
          if (done <= 0) return;
          w->Pair(Show(f), i);
          if (back != Show(f)) Bad("round-trip", Show(f) + " has number " + std::to_string(i) + ", which is " + back);
          return;
        }
        const size_t i = r.Below(w->size);
        LogN(i);
        std::string f;
        size_t back = 0;
        std::vector<std::string> walked;
        const size_t last = std::min(w->size, i + 3);
        const int done = Attempt(names[kind], [&] {
          walked.clear();
          const Proposition g = index.GetProposition(i);
          if (kind == 2) {
            back = index.GetPropositionIndex(g);
          } else {
            back = i;
            StateIndex::iterator it = r.Chance(1, 2) ? index.begin() + static_cast<ptrdiff_t>(i) : index.end() - static_cast<ptrdiff_t>(w->size - i);
            for (size_t k = i; k < last; k++, ++it) {
              const Proposition h = *it;
              if (it - index.begin() != static_cast<ptrdiff_t>(k) || !(it < index.end())) back = ~size_t{0};
              sim::Outside out;
              walked.push_back(Show(h));
            }
          }
          sim::Outside out;
          f = Show(g);
        });
        if (done <= 0) return;
        w->Pair(f, i);
        if (back != i) Bad("round-trip", "number " + std::to_string(i) + " is " + f + ", which has number " + std::to_string(back));
        for (size_t k = 0; k < walked.size(); k++) w->Pair(walked[k], i + k);
      });
      if (rng.Chance(1, 5)) AddAllocFault(run, op, rng);
    }
  }
}

void BuildAny(Run& run) {
  if (run.rng.Chance(1, 6)) BuildHuge(run);
  else Build(run);
}

sim::Register reg({"C08", BuildAny,
                   "One run: 1-4 clients look up facts and numbers, convert states, walk, copy, move and assign the indexes of one "
                   "random problem (the problem's own, further ones with and without cache, copies), with failing allocations "
                   "and lookups of facts that do not exist; every answer is compared with a numbering learned alone. In one run of "
                   "six, predicates have up to 10^15 facts, some of which are asked for. "
                   "Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"include/symbolic/state.h", "src/state.cc", "src/predicate.cc", "src/utils/parameter_generator.cc",
                    "include/symbolic/utils/combination_generator.h", "src/pddl.cc", "src/object.cc"},
                   {"thread scheduler (seeded)", "allocator (fault-injecting)", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory"}});
}  // namespace
SIM_HARNESS_END
