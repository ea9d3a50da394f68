// SIM_PARTS 3
// C05: states, hash sets and sorted vectors are sets whatever their history and failures.
#include <algorithm>
#include <set>

#include "symbolic/state.h"
#include "symbolic/utils/hash_set.h"
#include "symbolic/utils/unique_vector.h"
#include "VAL/ptree.h"
#include "work/common.h"

SIM_HARNESS_BEGIN
struct Payload {
  int key = -1;
  std::string text;
  Payload() = default;
  explicit Payload(int k) : key(k), text("a payload that does not fit inside the string " + std::to_string(k)) {}
  friend bool operator<(const Payload& a, const Payload& b) { return a.key < b.key; }
  friend bool operator==(const Payload& a, const Payload& b) { return a.key == b.key; }
  friend bool operator!=(const Payload& a, const Payload& b) { return a.key != b.key; }
};
namespace std {
template <>
struct hash<Payload> {
  size_t operator()(const Payload& p) const noexcept {
    // Four lists, one of which may grow long.
    return p.key < 64 ? static_cast<size_t>(p.key) % 4 : 1;
  }
};
}  // namespace std

namespace {
using namespace simw;
using symbolic::HashSet;
using symbolic::Object;
using symbolic::Proposition;
using symbolic::PropositionRef;
using symbolic::State;
using symbolic::UniqueVector;
using Model = std::set<int>;

// ---- universes: key -> element
struct IntUni {
  using E = int;
  std::vector<int> vals;
  IntUni(Rng& rng, int n) {
    std::set<int> seen;
    const int kind = rng.Range(0, 3);
    while (static_cast<int>(vals.size()) < n) {
      int v = 0;
      if (kind == 0) v = rng.Range(0, 2 * n);
      if (kind == 1) v = 3 * 7 * 15 * rng.Range(-2 * n, 2 * n) + (rng.Chance(1, 4) ? 1 : 0);
      if (kind == 2) v = rng.Range(-1000000000, 1000000000);
      if (kind == 3) v = rng.Range(-n, n);
      if (seen.insert(v).second) vals.push_back(v);
    }
  }
  int Make(int k) const { return vals[k]; }
  int Key(int v) const {
    for (size_t i = 0; i < vals.size(); i++)
      if (vals[i] == v) return static_cast<int>(i);
    return -1;
  }
};
struct StringUni {
  using E = std::string;
  std::vector<std::string> vals;
  StringUni(Rng& rng, int n) {
    for (int i = 0; i < n; i++) {
      std::string s = "e" + std::to_string(i * 7 % 31) + "_" + std::to_string(i);
      if (rng.Chance(1, 2)) s += " padded beyond the small string buffer";
      vals.push_back(s);
    }
  }
  std::string Make(int k) const { return vals[k]; }
  int Key(const std::string& v) const {
    for (size_t i = 0; i < vals.size(); i++)
      if (vals[i] == v) return static_cast<int>(i);
    return -1;
  }
};
struct PayloadUni {
  using E = Payload;
  int n;
  PayloadUni(Rng&, int n) : n(n) {}
  Payload Make(int k) const { return Payload(k); }
  int Key(const Payload& v) const {
    return v.key >= 0 && v.key < n && v.text == Payload(v.key).text ? v.key : -1;
  }
};
struct PropUni {
  using E = Proposition;
  // Two symbols per name: equality is by name.
  std::vector<std::unique_ptr<VAL::const_symbol>> syms;
  std::vector<std::pair<std::string, std::vector<int>>> vals;
  std::vector<std::string> obj = {"a", "b", "ab", "a_rather_long_object_name_in_the_heap", "c"};
  PropUni(Rng& rng, int n) {
    for (int copy = 0; copy < 2; copy++)
      for (auto& o : obj) syms.push_back(std::make_unique<VAL::const_symbol>(o));
    static const char* names[] = {"p", "q", "on", "onb", "a_predicate_with_a_long_name"};
    std::set<std::pair<std::string, std::vector<int>>> seen;
    while (static_cast<int>(vals.size()) < n) {
      std::vector<int> args;
      const int k = rng.Range(0, 3);
      for (int i = 0; i < k; i++) args.push_back(rng.Range(0, 4));
      auto v = std::make_pair(std::string(names[rng.Below(5)]), args);
      if (seen.insert(v).second) vals.push_back(v);
    }
  }
  std::vector<Object> Args(int k, int variant) const {
    std::vector<Object> out;
    for (size_t i = 0; i < vals[k].second.size(); i++) {
      const int v = ((variant >> i) & 1) * static_cast<int>(obj.size());
      out.emplace_back(static_cast<const VAL::pddl_type_list*>(nullptr), syms[vals[k].second[i] + v].get());
    }
    return out;
  }
  Proposition Make(int k, int variant = 0) const { return Proposition(vals[k].first, Args(k, variant)); }
  int Key(const Proposition& p) const {
    for (size_t i = 0; i < vals.size(); i++) {
      if (vals[i].first != p.name() || vals[i].second.size() != p.arguments().size()) continue;
      bool same = true;
      for (size_t j = 0; j < p.arguments().size(); j++)
        same = same && p.arguments()[j].name() == obj[vals[i].second[j]];
      if (same) return static_cast<int>(i);
    }
    return -1;
  }
};

template <typename C>
struct IsState : std::false_type {};
template <>
struct IsState<State> : std::true_type {};
template <typename C>
struct IsVec : std::false_type {};
template <typename E>
struct IsVec<UniqueVector<E>> : std::true_type {};

template <typename C, typename U>
struct World {
  using E = typename U::E;
  struct Cell {
    C set;
    Model model;
  };
  U uni;
  int n;
  C shared;
  Model shared_model;
  std::vector<std::vector<Cell>> cells;  // per client
  World(Rng& rng, int n) : uni(rng, n), n(n) {}

  static std::string Show(const Model& m) { return "{" + Join(m) + "}"; }
  static std::string Show(const std::vector<int>& m) { return "[" + Join(m) + "]"; }

  // Reads the whole set in one way; -1 entries are elements that nobody put in.
  std::vector<int> List(const C& c, int how) {
    std::vector<E> got;
    const size_t cap = n + 8;
    Must("iteration-error", "iteration", [&] {
      if (how == 0) {
        for (auto it = c.begin(); it != c.end() && got.size() < cap; ++it) got.push_back(*it);
      } else if (how == 1) {
        auto it = c.end();
        while (it != c.begin() && got.size() < cap) {
          --it;
          got.push_back(*it);
        }
        std::reverse(got.begin(), got.end());
      } else {
        C& m = const_cast<C&>(c);
        if (how == 2) {
          for (auto it = m.begin(); it != m.end() && got.size() < cap; ++it) got.push_back(*it);
        } else {
          auto it = m.end();
          while (it != m.begin() && got.size() < cap) {
            --it;
            got.push_back(*it);
          }
          std::reverse(got.begin(), got.end());
        }
      }
    });
    std::vector<int> keys;
    for (const E& e : got) keys.push_back(uni.Key(e));
    return keys;
  }

  bool Contains(const C& c, int k, int variant) {
    bool r = false;
    Must("query-error", "contains", [&] {
      if constexpr (IsState<C>::value) {
        Proposition p = uni.Make(k, variant);
        if (variant & 8) {
          PropositionRef ref(&p.name(), &p.arguments(), std::hash<std::string>{}(p.name()));
          r = c.contains(ref);
        } else {
          r = c.contains(p);
        }
      } else {
        r = c.contains(uni.Make(k));
      }
    });
    return r;
  }

  // All observers against the model.
  void Verify(Rng& rng, const C& c, const Model& m, const std::string& after, bool readonly = false) {
    bool empty = false;
    size_t size = 0;
    Must("query-error", "size", [&] {
      empty = c.empty();
      size = c.size();
    });
    if (size != m.size() || empty != m.empty())
      Bad("size", "after " + after + ": size() is " + std::to_string(size) + ", empty() " +
                      std::to_string(empty) + ", contents should be " + Show(m));
    const std::vector<int> fwd = List(c, 0);
    std::vector<int> sorted = fwd;
    std::sort(sorted.begin(), sorted.end());
    if (sorted != std::vector<int>(m.begin(), m.end()))
      Bad("contents", "after " + after + ": iteration gives " + Show(fwd) + ", contents should be " + Show(m));
    const std::vector<int> bwd = List(c, readonly ? 1 : rng.Range(1, 3));
    if (bwd != fwd)
      Bad("iteration-order", "after " + after + ": forward iteration gives " + Show(fwd) +
                                 ", another walk gives " + Show(bwd));
    for (int k = 0; k < n; k++) {
      if (Contains(c, k, rng.Range(0, 15)) != (m.count(k) > 0))
        Bad("membership", "after " + after + ": contains(" + std::to_string(k) + ") is wrong, contents should be " +
                              Show(m));
    }
    LogN(sim::HashStr(Show(fwd)));
  }

  // Fresh set with the same contents, built along another history.
  C Fresh(Rng& rng, const Model& m) {
    C c;
    std::vector<int> order(m.begin(), m.end());
    rng.Shuffle(order);
    Must("rebuild-error", "rebuilding", [&] {
      for (int k : order) {
        c.insert(uni.Make(k));
        if (rng.Chance(1, 4)) {
          const int extra = static_cast<int>(rng.Below(n));
          if (m.count(extra) == 0) {
            c.insert(uni.Make(extra));
            c.erase(uni.Make(extra));
          }
        }
      }
    });
    return c;
  }

  void Compare(const C& a, const Model& ma, const C& b, const Model& mb, const std::string& after) {
    bool eq = false, ne = false, lt = false, gt = false;
    size_t ha = 0, hb = 0;
    Must("query-error", "comparison", [&] {
      eq = a == b;
      ne = a != b;
      lt = a < b;
      gt = b < a;
      if constexpr (IsState<C>::value) {
        ha = std::hash<State>{}(a);
        hb = std::hash<State>{}(b);
      }
    });
    const bool want = ma == mb;
    if (eq != want || ne == want)
      Bad("equality", "after " + after + ": sets with contents " + Show(ma) + " and " + Show(mb) +
                          " compare == " + std::to_string(eq) + ", != " + std::to_string(ne));
    if (want ? (lt || gt) : lt == gt)
      Bad("order", "after " + after + ": sets with contents " + Show(ma) + " and " + Show(mb) + " compare < " +
                       std::to_string(lt) + ", > " + std::to_string(gt));
    if (want && ha != hb)
      Bad("hash", "after " + after + ": equal sets with contents " + Show(ma) + " have different hashes");
  }

  void Walk(Rng& rng, const C& c, const Model& m) {
    const std::vector<int> fwd = List(c, 0);
    if (fwd.size() != m.size()) return;
    const bool mut = rng.Chance(1, 2);
    std::string bad;
    auto walk = [&](auto& s) {
      auto it = rng.Chance(1, 2) ? s.begin() : s.end();
      int pos = it == s.begin() ? 0 : static_cast<int>(fwd.size());
      for (int i = 0; i < 12; i++) {
        const bool up = rng.Chance(1, 2);
        if (up && pos < static_cast<int>(fwd.size())) {
          ++it;
          pos++;
        } else if (!up && pos > 0) {
          --it;
          pos--;
        }
        if ((it == s.end()) != (pos == static_cast<int>(fwd.size())) || (it == s.begin()) != (pos == 0))
          bad = "an iterator at position " + std::to_string(pos) + " of " + Show(fwd) +
                " compares wrongly with begin or end";
        if (pos < static_cast<int>(fwd.size()) && uni.Key(*it) != fwd[pos])
          bad = "an iterator at position " + std::to_string(pos) + " of " + Show(fwd) + " gives " +
                std::to_string(uni.Key(*it));
      }
    };
    Must("iteration-error", "walk", [&] {
      if (mut) walk(const_cast<C&>(c)); else walk(c);
    });
    if (!bad.empty()) Bad("walk", bad);
  }
};

template <typename C, typename U>
void BuildSets(Run& run) {
  Rng& rng = run.rng;
  // Now and then hundreds of elements, put in and taken out many at a time.
  const bool bulk = rng.Chance(1, 40);
  const int n = bulk ? rng.Range(140, 420) : rng.Chance(1, 3) ? rng.Range(2, 6) : rng.Range(6, 36);
  if (bulk) run.Probe("hundreds of elements");
  auto w = run.Keep<World<C, U>>(rng, n);
  using W = World<C, U>;
  using Cell = typename W::Cell;
  const int clients = bulk || rng.Chance(1, 2) ? 1 : rng.Range(2, 3);
  const int sets = rng.Range(2, 3);
  {
    const int k = rng.Range(0, n);
    for (int i = 0; i < k; i++) w->shared_model.insert(static_cast<int>(rng.Below(n)));
    Rng r(rng.Next());
    w->shared = w->Fresh(r, w->shared_model);
  }
  w->cells.resize(clients);
  const int ops = bulk ? rng.Range(3, 9) : clients == 1 ? rng.Range(8, 40) : rng.Range(4, 10);
  const bool faults = rng.Chance(2, 3);
  const int grow = rng.Range(35, 75);  // share of insertions among updates
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    w->cells[c].resize(sets);
    for (int o = 0; o < ops; o++) {
      const int i = static_cast<int>(rng.Below(sets)), j = static_cast<int>(rng.Below(sets));
      const int k = static_cast<int>(rng.Below(n));
      const uint64_t sub = rng.Next();
      const int roll = rng.Range(0, 99);
      std::string label;
      std::function<void()> fn;
      bool mutates = true;
      if (bulk && (o == 0 || rng.Chance(1, 4))) {
        const bool ins = o == 0 || rng.Range(0, 99) < grow;
        const int share = rng.Chance(1, 2) ? 100 : rng.Range(20, 99);
        label = std::string(ins ? "insert " : "erase ") + std::to_string(share) + " percent into/from set " + std::to_string(i);
        fn = [=] {
          W& ww = *w;
          Rng r(sub);
          Cell& cell = ww.cells[c][i];
          std::vector<int> ks;
          for (int x = 0; x < ww.n; x++)
            if (r.Range(1, 100) <= share) ks.push_back(x);
          if (r.Chance(1, 2)) r.Shuffle(ks);
          for (int x : ks) {
            typename U::E e = ww.uni.Make(x);
            bool ret = false;
            const int st = Attempt(label, [&] { ret = ins ? cell.set.insert(e) : cell.set.erase(e); });
            if (st != 1) continue;
            const bool want = ins ? cell.model.insert(x).second : cell.model.erase(x) > 0;
            if (ret != want) Bad("return-value", label + ": " + std::to_string(x) + " returned " + std::to_string(ret));
          }
          ww.Verify(r, cell.set, cell.model, label);
          C fresh = ww.Fresh(r, cell.model);
          ww.Compare(cell.set, cell.model, fresh, cell.model, label);
        };
      } else if (roll < 60) {
        const bool ins = rng.Range(0, 99) < grow;
        const int how = rng.Range(0, 3);
        label = std::string(ins ? "insert " : "erase ") + std::to_string(k) + " into/from set " +
                std::to_string(i) + " way " + std::to_string(how);
        fn = [=] {
          W& ww = *w;
          Rng r(sub);
          Cell& cell = ww.cells[c][i];
          const Model before = cell.model;
          bool ret = false;
          typename U::E elem = ww.uni.Make(k);
          if constexpr (IsState<C>::value) elem = ww.uni.Make(k, r.Range(0, 7));
          const typename U::E keep = elem;
          const int st = Attempt(label, [&] {
            if (ins) {
              if constexpr (IsState<C>::value) {
                PropositionRef ref(&keep.name(), &keep.arguments(), std::hash<std::string>{}(keep.name()));
                if (how == 0) ret = cell.set.insert(keep);
                if (how == 1) ret = cell.set.insert(std::move(elem));
                if (how == 2) ret = cell.set.emplace(keep.name(), keep.arguments());
                if (how == 3) ret = cell.set.insert(ref);
              } else if constexpr (IsVec<C>::value) {
                if (how == 0) ret = cell.set.insert(keep);
                if (how == 1) ret = cell.set.insert(std::move(elem));
                if (how >= 2) ret = cell.set.emplace(keep);
              } else {
                if (how % 2 == 0) ret = cell.set.insert(keep);
                if (how % 2 == 1) ret = cell.set.insert(std::move(elem));
              }
            } else {
              if constexpr (IsState<C>::value) {
                PropositionRef ref(&keep.name(), &keep.arguments(), std::hash<std::string>{}(keep.name()));
                if (how % 2 == 0) ret = cell.set.erase(keep);
                if (how % 2 == 1) ret = cell.set.erase(ref);
              } else {
                ret = cell.set.erase(keep);
              }
            }
          });
          if (st == 1) {
            const bool want = ins ? cell.model.insert(k).second : cell.model.erase(k) > 0;
            if (ret != want)
              Bad("return-value", label + " returned " + std::to_string(ret) + " with contents " + W::Show(before));
            LogN(ret);
          } else {
            sim::CurrentRun()->Probe("update failed for lack of memory");
            LogN(7);
          }
          ww.Verify(r, cell.set, cell.model, label + (st == 1 ? "" : " (failed)"));
          C fresh = ww.Fresh(r, cell.model);
          ww.Compare(cell.set, cell.model, fresh, cell.model, label + (st == 1 ? "" : " (failed)"));
          if (cell.model.size() > 15) sim::CurrentRun()->Probe("set larger than 15 elements");
        };
      } else if (roll < 84) {
        // Whole-set operations.
        const int kind = rng.Range(0, 8);
        static const char* names[] = {"copy-construct", "copy-assign", "move-assign", "swap", "self-assign",
                                      "copy the shared set", "initializer list", "range insert", "clear by erasing"};
        label = std::string(names[kind]) + " set " + std::to_string(i) + " with set " + std::to_string(j);
        fn = [=] {
          W& ww = *w;
          Rng r(sub);
          Cell& a = ww.cells[c][i];
          Cell& b = ww.cells[c][j];
          Model all = a.model;
          all.insert(b.model.begin(), b.model.end());
          const Model old = a.model;
          Model must;  // contained in the result even after a failure
          Model want = a.model;
          int st = 1;
          switch (kind) {
            case 0: {
              std::optional<C> tmp;
              st = Attempt(label, [&] { tmp.emplace(b.set); });
              if (st == 1) {
                Must("move-error", "move assignment", [&] { a.set = std::move(*tmp); });
                want = b.model;
              } else {
                want = old;
                all = must = old;
              }
              break;
            }
            case 1:
              if (i == j) return;
              st = Attempt(label, [&] { a.set = static_cast<const C&>(b.set); });
              want = b.model;
              break;
            case 2:
              if (i == j) return;
              st = Attempt(label, [&] { a.set = std::move(b.set); });
              if (st != 1) Bad("move-failed", label + " failed");
              want = b.model;
              Must("assign-error", "assigning to a moved-from set", [&] { b.set = C(); });
              b.model.clear();
              break;
            case 3:
              st = Attempt(label, [&] { std::swap(a.set, b.set); });
              if (st != 1) Bad("move-failed", label + " failed");
              std::swap(a.model, b.model);
              want = a.model;
              break;
            case 4:
              st = Attempt(label, [&] {
                const C& self = a.set;
                a.set = self;
              });
              break;
            case 5:
              all.insert(ww.shared_model.begin(), ww.shared_model.end());
              st = Attempt(label, [&] { a.set = static_cast<const C&>(ww.shared); });
              want = ww.shared_model;
              break;
            case 6: {
              std::vector<int> ks;
              for (int x = 0; x < 4; x++) ks.push_back(static_cast<int>(r.Below(ww.n)));
              if (r.Chance(1, 2)) ks[3] = ks[0];
              const std::vector<typename U::E> es = {ww.uni.Make(ks[0]), ww.uni.Make(ks[1]), ww.uni.Make(ks[2]),
                                                     ww.uni.Make(ks[3])};
              std::optional<C> tmp;
              st = Attempt(label, [&] { tmp.emplace(std::initializer_list<typename U::E>{es[0], es[1], es[2], es[3]}); });
              if (st == 1) {
                Must("move-error", "move assignment", [&] { a.set = std::move(*tmp); });
                want = Model(ks.begin(), ks.end());
              } else {
                all = must = want = old;
              }
              break;
            }
            case 7:
              if constexpr (IsState<C>::value) {
                if (i == j) return;
                bool ret = false;
                st = Attempt(label, [&] {
                  const C& src = b.set;
                  ret = a.set.insert(src.begin(), src.end());
                });
                must = old;
                want = old;
                want.insert(b.model.begin(), b.model.end());
                if (st == 1 && ret != (want != old)) Bad("return-value", label + " returned " + std::to_string(ret));
              } else {
                return;
              }
              break;
            case 8: {
              for (int k2 : old) {
                typename U::E e = ww.uni.Make(k2);
                const int s2 = Attempt(label, [&] { a.set.erase(e); });
                if (s2 == 1) a.model.erase(k2);
                ww.Verify(r, a.set, a.model, label);
              }
              want = a.model;
              break;
            }
          }
          if (st == 1) {
            a.model = want;
          } else {
            sim::CurrentRun()->Probe("whole-set operation failed for lack of memory");
            // Accept any usable set made of elements that were asked for.
            const std::vector<int> got = ww.List(a.set, 0);
            const Model m(got.begin(), got.end());
            bool ok = m.size() == got.size();
            for (int x : got) ok = ok && all.count(x) > 0;
            for (int x : must) ok = ok && m.count(x) > 0;
            if (!ok)
              Bad("failed-contents", "after " + label + " failed, the set holds " + W::Show(got) + "; it held " +
                                         W::Show(old) + " and should have become " + W::Show(want));
            a.model = m;
          }
          ww.Verify(r, a.set, a.model, label);
          ww.Verify(r, b.set, b.model, label);
          C fresh = ww.Fresh(r, a.model);
          ww.Compare(a.set, a.model, fresh, a.model, label);
        };
      } else {
        mutates = false;
        label = "compare and walk sets " + std::to_string(i) + ", " + std::to_string(j);
        fn = [=] {
          W& ww = *w;
          Rng r(sub);
          Cell& a = ww.cells[c][i];
          Cell& b = ww.cells[c][j];
          ww.Compare(a.set, a.model, b.set, b.model, label);
          ww.Compare(a.set, a.model, ww.shared, ww.shared_model, label);
          ww.Verify(r, ww.shared, ww.shared_model, "reading by several clients", true);
          ww.Walk(r, a.set, a.model);
          // Transitivity over three sets.
          const C* s[3] = {&a.set, &b.set, &ww.shared};
          bool lt[3][3];
          Must("query-error", "comparison", [&] {
            for (int x = 0; x < 3; x++)
              for (int y = 0; y < 3; y++) lt[x][y] = *s[x] < *s[y];
          });
          for (int x = 0; x < 3; x++)
            for (int y = 0; y < 3; y++)
              for (int z = 0; z < 3; z++)
                if (lt[x][y] && lt[y][z] && !lt[x][z])
                  Bad("order", "the ordering of sets " + W::Show(a.model) + ", " + W::Show(b.model) + ", " +
                                   W::Show(ww.shared_model) + " is not transitive");
          if constexpr (IsState<C>::value) {
            std::unordered_set<std::string> strs;
            Must("query-error", "Stringify", [&] { strs = a.set.Stringify(); });
            std::set<std::string> want;
            for (int x : a.model) want.insert(ww.uni.Make(x).to_string());
            if (std::set<std::string>(strs.begin(), strs.end()) != want)
              Bad("stringify", "Stringify gives {" + Join(strs) + "} for {" + Join(want) + "}");
          }
        };
      }
      Op& op = run.AddOp(c, label, fn);
      if (faults && mutates && rng.Chance(1, 3)) AddAllocFault(run, op, rng, 4, 8);
    }
  }
}

}  // namespace
#if SIM_PART == 0
void C05Part0(Run& run) {
  if (run.rng.Chance(1, 2)) BuildSets<HashSet<int>, IntUni>(run); else BuildSets<UniqueVector<std::string>, StringUni>(run);
}
#elif SIM_PART == 1
void C05Part1(Run& run) {
  if (run.rng.Chance(1, 2)) BuildSets<HashSet<std::string>, StringUni>(run); else BuildSets<UniqueVector<int>, IntUni>(run);
}
#else
void C05Part0(Run& run);
void C05Part1(Run& run);
namespace {
void Build(Run& run) {
  switch (run.rng.Range(0, 6)) {
    case 0: case 1: C05Part0(run); break;
    case 2: case 3: C05Part1(run); break;
    case 4: BuildSets<HashSet<Payload>, PayloadUni>(run); break;
    default: BuildSets<State, PropUni>(run); break;
  }
}

sim::Register reg({"C05", Build,
                   "One run: 1-3 simulated clients each own 2-3 sets (State, HashSet<int/string/struct>, "
                   "UniqueVector) and read one shared set; seeded histories of insertions, removals, copies, moves, "
                   "swaps, comparisons and walks, an allocation failure inside about a quarter of the updates, "
                   "preemption at memory accesses. Non-trivial: at least 4 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 4; },
                   {"include/symbolic/utils/hash_set.h", "include/symbolic/utils/unique_vector.h",
                    "include/symbolic/state.h", "src/state.cc", "src/proposition.cc", "src/object.cc"},
                   {"allocator (seeded failures)", "thread scheduler (seeded)", "VAL parse tree symbols (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory"}});

}  // namespace
#endif
SIM_HARNESS_END
