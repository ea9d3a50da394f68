// C06: a partial state never holds a fact to be both true and false.
#include <map>

#include "symbolic/state.h"
#include "VAL/ptree.h"
#include "work/common.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::Object;
using symbolic::PartialState;
using symbolic::Proposition;
using symbolic::PropositionBase;
using symbolic::PropositionRef;
using symbolic::State;

enum Val { kUnknown = 0, kTrue = 1, kFalse = 2 };
const char* const kValName[] = {"unknown", "true", "false"};
using Model = std::vector<int>;

struct Cell {
  PartialState state;
  Model model;
};

struct World {
  std::vector<std::unique_ptr<VAL::const_symbol>> syms;
  std::vector<std::pair<std::string, std::vector<int>>> facts;
  PartialState shared;
  Model shared_model;
  std::vector<std::vector<Cell>> cells;
  int n = 0;

  Proposition Make(int k, int variant = 0) const {
    std::vector<Object> args;
    for (int a : facts[k].second)
      args.emplace_back(static_cast<const VAL::pddl_type_list*>(nullptr), syms[a + (variant & 1) * 4].get());
    return Proposition(facts[k].first, std::move(args));
  }
  std::string Show(const Model& m) const {
    std::string s;
    for (int k = 0; k < n; k++)
      if (m[k] != kUnknown) s += (s.empty() ? "" : ", ") + std::string(m[k] == kTrue ? "" : "!") + Make(k).to_string();
    return "{" + s + "}";
  }

  int Read(const PartialState& s, int k, bool negated, bool ref, const std::string& after) {
    const Proposition p = Make(k, k & 1);
    int r = -1;
    std::string named, what;
    Must("query-error", "query", [&] {
      PropositionRef pr(&p.name(), &p.arguments(), std::hash<std::string>{}(p.name()));
      const PropositionBase& q = ref ? static_cast<const PropositionBase&>(pr) : p;
      try {
        const bool b = negated ? s.does_not_contain(q) : s.contains(q);
        r = b != negated ? kTrue : kFalse;
      } catch (const PartialState::UnknownEvaluation& e) {
        r = kUnknown;
        named = e.proposition().to_string();
        what = e.what();
      }
    });
    if (r == kUnknown && (named != p.to_string() || what != p.to_string()))
      Bad("unknown-name", "after " + after + ": asking about " + p.to_string() + " raised the unknown signal for " +
                              named + " / " + what);
    return r;
  }

  // Reads every fact through every query; returns the model read back.
  Model ReadAll(Rng& rng, const PartialState& s, const std::string& after) {
    Model m(n, kUnknown);
    for (int k = 0; k < n; k++) {
      const int a = Read(s, k, false, rng.Chance(1, 2), after), b = Read(s, k, true, rng.Chance(1, 2), after);
      bool pos = false, neg = false;
      const Proposition p = Make(k);
      Must("query-error", "pos/neg query", [&] {
        pos = s.pos().contains(p);
        neg = s.neg().contains(p);
      });
      if (pos && neg) Bad("contradiction", "after " + after + ": " + p.to_string() + " is both true and false");
      const int c = pos ? kTrue : neg ? kFalse : kUnknown;
      if (a != c || b != c)
        Bad("query", "after " + after + ": " + p.to_string() + " is listed as " + kValName[c] + ", contains says " +
                         kValName[a < 0 ? 0 : a] + ", does_not_contain says " + kValName[b < 0 ? 0 : b]);
      m[k] = c;
    }
    size_t size = 0, pn = 0;
    bool empty = false, cons = false;
    std::set<std::string> lp, ln;
    Must("query-error", "size", [&] {
      size = s.size();
      empty = s.empty();
      cons = s.IsConsistent();
      const auto strs = s.Stringify();
      lp.insert(strs.first.begin(), strs.first.end());
      ln.insert(strs.second.begin(), strs.second.end());
      for (const Proposition& p : s.pos()) pn += p.name().size() > 0;
      for (const Proposition& p : s.neg()) pn += p.name().size() > 0;
    });
    size_t want = 0;
    std::set<std::string> wp, wn;
    for (int k = 0; k < n; k++) {
      want += m[k] != kUnknown;
      if (m[k] == kTrue) wp.insert(Make(k).to_string());
      if (m[k] == kFalse) wn.insert(Make(k).to_string());
    }
    if (size != want || pn != want || empty != (want == 0))
      Bad("size", "after " + after + ": size() " + std::to_string(size) + ", empty() " + std::to_string(empty) +
                      ", listed " + std::to_string(pn) + ", known facts " + std::to_string(want));
    if (!cons) Bad("consistency", "after " + after + ": IsConsistent() is false for " + Show(m));
    if (lp != wp || ln != wn) Bad("stringify", "after " + after + ": Stringify disagrees with " + Show(m));
    return m;
  }
  void Verify(Rng& rng, const PartialState& s, const Model& m, const std::string& after) {
    const Model got = ReadAll(rng, s, after);
    if (got != m)
      Bad("contents", "after " + after + ": the partial state is " + Show(got) + " but should be " + Show(m));
    LogS(Show(got));
  }
  void Compare(const PartialState& a, const Model& ma, const PartialState& b, const Model& mb) {
    bool eq = false, ne = false, lt = false, gt = false;
    Must("query-error", "comparison", [&] {
      eq = a == b;
      ne = a != b;
      lt = a < b;
      gt = b < a;
    });
    const bool want = ma == mb;
    if (eq != want || ne == want || (want ? lt || gt : lt == gt))
      Bad("comparison", "partial states " + Show(ma) + " and " + Show(mb) + " compare == " + std::to_string(eq) +
                            " != " + std::to_string(ne) + " < " + std::to_string(lt) + " > " + std::to_string(gt));
  }
};

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  static const char* objs[] = {"a", "b", "ab", "an_object_with_a_long_name"};
  for (int c = 0; c < 2; c++)
    for (const char* o : objs) w->syms.push_back(std::make_unique<VAL::const_symbol>(o));
  w->n = rng.Range(1, 14);
  {
    static const char* names[] = {"p", "q", "on", "a_long_predicate_name"};
    std::set<std::pair<std::string, std::vector<int>>> seen;
    while (static_cast<int>(w->facts.size()) < w->n) {
      std::vector<int> args(rng.Below(3));
      for (int& a : args) a = rng.Range(0, 3);
      auto f = std::make_pair(std::string(names[rng.Below(4)]), args);
      if (seen.insert(f).second) w->facts.push_back(f);
    }
  }
  w->shared_model.assign(w->n, kUnknown);
  for (int k = 0; k < w->n; k++) {
    const int v = rng.Range(0, 2);
    w->shared_model[k] = v;
    if (v == kTrue) w->shared.insert(w->Make(k));
    if (v == kFalse) w->shared.erase(w->Make(k));
  }
  const int clients = rng.Chance(2, 3) ? 1 : rng.Range(2, 3);
  const int ops = clients == 1 ? rng.Range(8, 40) : rng.Range(4, 10);
  const bool faults = rng.Chance(2, 3);
  w->cells.resize(clients);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    w->cells[c].resize(2);
    for (auto& cell : w->cells[c]) cell.model.assign(w->n, kUnknown);
    for (int o = 0; o < ops; o++) {
      const int i = static_cast<int>(rng.Below(2));
      const int k = static_cast<int>(rng.Below(w->n));
      const uint64_t sub = rng.Next();
      std::string label;
      std::function<void()> fn;
      bool mutates = true;
      if (rng.Chance(3, 4)) {
        const bool ins = rng.Chance(1, 2);
        const int how = rng.Range(0, 3);
        label = std::string(ins ? "assert " : "deny ") + w->Make(k).to_string() + " in partial state " +
                std::to_string(i) + " way " + std::to_string(how);
        fn = [=] {
          Rng r(sub);
          Cell& cell = w->cells[c][i];
          const Model before = cell.model;
          Proposition p = w->Make(k, static_cast<int>(r.Below(2)));
          const Proposition keep = p;
          int ret = -1;
          const int st = Attempt(label, [&] {
            PropositionRef ref(&keep.name(), &keep.arguments(), std::hash<std::string>{}(keep.name()));
            if (ins) {
              if (how == 0) ret = cell.state.insert(keep);
              if (how == 1) ret = cell.state.insert(std::move(p));
              if (how == 2) ret = cell.state.emplace(keep.name(), keep.arguments());
              if (how == 3) ret = cell.state.insert(ref);
            } else {
              if (how == 0 || how == 2) ret = cell.state.erase(keep);
              if (how == 1) ret = cell.state.erase(std::move(p));
              if (how == 3) ret = cell.state.erase(ref);
            }
          });
          if (st == 1) {
            const int v = ins ? kTrue : kFalse;
            const int want = before[k] == v ? 0 : before[k] == kUnknown ? 1 : 2;
            if (ret != want)
              Bad("return-value", label + " returned " + std::to_string(ret) + ", expected " + std::to_string(want) +
                                      " in " + w->Show(before));
            cell.model[k] = v;
          } else {
            sim::CurrentRun()->Probe("update failed for lack of memory");
            const Model got = w->ReadAll(r, cell.state, label + " (failed)");
            // The fact itself may have become unknown, or even be updated; never anything else.
            cell.model[k] = got[k];
            if (got[k] == kUnknown && before[k] != kUnknown) sim::CurrentRun()->Probe("failed flip left the fact unknown");
          }
          w->Verify(r, cell.state, cell.model, label + (st == 1 ? "" : " (failed)"));
        };
      } else {
        const int kind = rng.Range(0, 6);
        static const char* names[] = {"copy-construct from", "copy-assign from", "swap with", "compare with",
                                      "copy the shared state over", "rebuild from its halves, compare with",
                                      "move-assign from"};
        mutates = kind != 3;
        label = std::string(names[kind]) + " the other, partial state " + std::to_string(i);
        fn = [=] {
          Rng r(sub);
          Cell& a = w->cells[c][i];
          Cell& b = w->cells[c][1 - i];
          std::optional<PartialState> tmp;
          int st = 1;
          switch (kind) {
            case 0:
              st = Attempt(label, [&] { tmp.emplace(b.state); });
              if (st == 1) {
                Must("move-error", "move", [&] { a.state = std::move(*tmp); });
                a.model = b.model;
              }
              break;
            case 1:
            case 4: {
              const PartialState& src = kind == 1 ? b.state : w->shared;
              const Model& sm = kind == 1 ? b.model : w->shared_model;
              st = Attempt(label, [&] { a.state = src; });
              if (st == 1) {
                a.model = sm;
              } else {
                sim::CurrentRun()->Probe("copy assignment failed for lack of memory");
                const Model got = w->ReadAll(r, a.state, label + " (failed)");
                for (int k2 = 0; k2 < w->n; k2++)
                  if (got[k2] != a.model[k2] && got[k2] != sm[k2] && got[k2] != kUnknown)
                    Bad("failed-copy", label + " failed and left " + w->Show(got));
                a.model = got;
              }
              break;
            }
            case 2:
              Must("move-error", "swap", [&] { std::swap(a.state, b.state); });
              std::swap(a.model, b.model);
              break;
            case 3:
              w->Compare(a.state, a.model, b.state, b.model);
              w->Compare(a.state, a.model, w->shared, w->shared_model);
              w->Verify(r, w->shared, w->shared_model, "reading by several clients");
              break;
            case 5: {
              std::vector<int> order(w->n);
              for (int x = 0; x < w->n; x++) order[x] = x;
              r.Shuffle(order);
              st = Attempt(label, [&] {
                State pos, neg;
                for (int x : order) {
                  if (a.model[x] == kTrue) pos.insert(w->Make(x));
                  if (a.model[x] == kFalse) neg.insert(w->Make(x));
                }
                if (r.Chance(1, 2)) tmp.emplace(pos, neg);
                else tmp.emplace(std::move(pos), std::move(neg));
              });
              if (st == 1) w->Compare(*tmp, a.model, a.state, a.model);
              break;
            }
            case 6:
              Must("move-error", "move assignment", [&] { a.state = std::move(b.state); });
              a.model = b.model;
              Must("move-error", "assigning to a moved-from state", [&] { b.state = PartialState(); });
              b.model.assign(w->n, kUnknown);
              break;
          }
          w->Verify(r, a.state, a.model, label + (st == 1 ? "" : " (failed)"));
          w->Verify(r, b.state, b.model, label + (st == 1 ? "" : " (failed)"));
        };
      }
      Op& op = run.AddOp(c, label, fn);
      if (faults && mutates && rng.Chance(1, 3)) AddAllocFault(run, op, rng, 5, 8);
    }
  }
}

sim::Register reg({"C06", Build,
                   "One run: 1-3 simulated clients each own two partial states over 1-14 facts and read a shared one; "
                   "seeded histories of assertions, denials, copies, moves, comparisons, with an allocation failure "
                   "inside about a quarter of the updates. Non-trivial: at least 4 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 4; },
                   {"include/symbolic/state.h", "src/state.cc", "include/symbolic/utils/hash_set.h", "src/proposition.cc"},
                   {"allocator (seeded failures)", "thread scheduler (seeded)", "VAL parse tree symbols (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory"}});
}  // namespace
SIM_HARNESS_END
