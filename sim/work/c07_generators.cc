// C07: combination generators enumerate the product once, for every iterator alive.
#include <optional>
#include <set>

#include "symbolic/pddl.h"
#include "VAL/ptree.h"
#include "symbolic/utils/combination_generator.h"
#include "symbolic/utils/parameter_generator.h"
#include "work/common.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::CombinationGenerator;
using symbolic::Object;
using symbolic::ParameterGenerator;
using symbolic::Pddl;

std::string Str(const int& v) { return std::to_string(v); }
std::string Str(const std::string& v) { return v; }
std::string Str(const Object& v) { return v.name(); }
template <typename V>
std::string Show(const std::vector<V>& v) {
  std::string s = "(";
  for (const V& x : v) s += (s.size() > 1 ? " " : "") + Str(x);
  return s + ")";
}

// The reference: options in order, last varying fastest.
struct Product {
  std::vector<std::vector<std::string>> options;
  bool none = false;  // no combination at all
  long size() const {
    if (none) return 0;
    long n = 1;
    for (const auto& o : options) n *= static_cast<long>(o.size());
    return n;
  }
  std::string At(long p) const {
    std::vector<std::string> c(options.size());
    for (int i = static_cast<int>(options.size()) - 1; i >= 0; i--) {
      const long n = static_cast<long>(options[i].size());
      c[i] = options[i][p % n];
      p /= n;
    }
    return Show(c);
  }
  std::string Describe() const {
    if (none) return "nothing";
    std::string s;
    if (size() > 1000) {
      for (const auto& o : options) s += (s.empty() ? "" : " x ") + std::to_string(o.size());
      return s;
    }
    for (const auto& o : options) s += (s.empty() ? "" : " x ") + std::string("{") + Join(o) + "}";
    return s.empty() ? "the empty product" : s;
  }
};

int MakeElement(int i, int o, int) { return o * 100 + i * 7 + 3; }
std::string MakeElement(int i, int o, std::string) {
  return (i % 2 ? "an_element_that_lives_on_the_heap_" : "e") + std::to_string(o) + "_" + std::to_string(i);
}

template <typename It>
struct Slot {
  std::optional<It> it;
  long pos = 0;  // position in the forward order, -1 .. size
};

template <typename ContainerT>
struct Gen {
  using G = CombinationGenerator<ContainerT>;
  using V = typename std::remove_const_t<ContainerT>::value_type;
  std::vector<std::unique_ptr<std::remove_const_t<ContainerT>>> storage;
  std::unique_ptr<G> gen;
  Product model;
  struct Own {
    Slot<typename G::iterator> fwd[3];
    Slot<typename G::const_iterator> cfwd[2];
    Slot<typename G::reverse_iterator> rev[2];
    Slot<typename G::const_reverse_iterator> crev[2];
  };
  std::vector<Own> own;
  bool nofail = false;  // advancing cannot allocate

  typename G::iterator Make(typename G::iterator*, bool end) { return end ? gen->end() : gen->begin(); }
  template <typename T>
  T MakeC(bool end) {
    const G& g = *gen;
    return end ? g.end() : g.begin();
  }
};

// ---- operations on one kind of iterator -------------------------------------------------------
template <typename W, typename It>
void CheckAt(W& w, const Slot<It>& s, const std::string& after) {
  if (s.pos < 0 || s.pos >= w.model.size()) return;
  std::string got;
  size_t n = 0;
  if (!Must("iterator-error", "reading through an iterator after " + after, [&] {
        got = Show(**s.it);
        n = (*s.it)->size();
      }))
    return;
  const std::string want = w.model.At(s.pos);
  if (got != want || n != w.model.options.size())
    Bad("wrong-combination", "after " + after + ": the iterator at position " + std::to_string(s.pos) + " of " +
                                 w.model.Describe() + " shows " + got + " instead of " + want);
  LogS(got);
}

template <typename W, typename It>
void Step(W& w, Slot<It>* slots, int n_slots, int dir, Rng& r, const std::function<It(bool)>& make,
          const std::string& name) {
  const long size = w.model.size();
  const int si = static_cast<int>(r.Below(n_slots));
  Slot<It>& s = slots[si];
  Slot<It>& t = slots[r.Below(n_slots)];
  std::string what = name + std::to_string(si) + " at " + std::to_string(s.it ? s.pos : -9) + ": ";
  const int op = s.it && r.Chance(9, 10) ? r.Range(0, 14) : 15;
  // Logical distance d moves the forward position by dir * d.
  long lo, hi;  // allowed d
  if (dir > 0) {
    lo = -1 - s.pos;
    hi = size - s.pos;
  } else {
    lo = s.pos - size;
    hi = s.pos + 1;
  }
  long d = lo + static_cast<long>(r.Below(hi - lo + 1));
  if (r.Chance(1, 3)) d = r.Chance(1, 2) ? lo : hi;
  const long old = s.pos;
  auto moved = [&](long pos, const std::string& op_name, auto&& f) {
    const int st = Attempt(what + op_name, f);
    if (st == 1) s.pos = pos;
    what += op_name + (st == 1 ? "" : " (failed)");
    return st;
  };
  switch (op) {
    case 0:
      if (hi < 1) return;
      moved(old + dir, "++it", [&] {
        It& ret = ++*s.it;
        if (&ret != &*s.it) Bad("iterator-return", "++it does not return the iterator");
      });
      break;
    case 1: {
      if (hi < 1) return;
      Slot<It> before;
      before.pos = old;
      if (moved(old + dir, "it++", [&] { before.it.emplace((*s.it)++); }) == 1) CheckAt(w, before, what + " (the copy)");
      break;
    }
    case 2:
      if (lo > -1) return;
      moved(old - dir, "--it", [&] { --*s.it; });
      break;
    case 3: {
      if (lo > -1) return;
      Slot<It> before;
      before.pos = old;
      if (moved(old - dir, "it--", [&] { before.it.emplace((*s.it)--); }) == 1) CheckAt(w, before, what + " (the copy)");
      break;
    }
    case 4:
      moved(old + dir * d, "it += " + std::to_string(d), [&] { *s.it += d; });
      break;
    case 5:
      moved(old + dir * d, "it -= " + std::to_string(-d), [&] { *s.it -= -d; });
      break;
    case 6:
    case 7:
    case 8: {
      Slot<It> other;
      other.pos = old + dir * d;
      const char* nm[] = {"it + ", "it - ", "n + it, n = "};
      what += nm[op - 6] + std::to_string(op == 7 ? -d : d);
      const int st = Attempt(what, [&] {
        if (op == 6) other.it.emplace(*s.it + d);
        if (op == 7) other.it.emplace(*s.it - (-d));
        if (op == 8) other.it.emplace(d + *s.it);
      });
      if (st != 1) break;
      CheckAt(w, other, what);
      if (r.Chance(1, 2) && &s != &t) {
        Must("iterator-error", what + ", assigned to another iterator", [&] { t.it = std::move(other.it); });
        t.pos = old + dir * d;
        CheckAt(w, t, what + ", assigned to another iterator");
      }
      break;
    }
    case 9: {
      if (old + dir * d < 0 || old + dir * d >= size) return;
      std::string got;
      what += "it[" + std::to_string(d) + "]";
      if (Attempt(what, [&] { got = Show((*s.it)[d]); }) == 1 && got != w.model.At(old + dir * d))
        Bad("wrong-combination", what + " is " + got + " instead of " + w.model.At(old + dir * d));
      break;
    }
    case 10:
    case 11: {
      if (!t.it) return;
      bool eq = false, ne = false, lt = false, gt = false, le = false, ge = false;
      ptrdiff_t diff = 0;
      what += "compare";
      Must("iterator-error", what, [&] {
        eq = *s.it == *t.it;
        ne = *s.it != *t.it;
        lt = *s.it < *t.it;
        gt = *s.it > *t.it;
        le = *s.it <= *t.it;
        ge = *s.it >= *t.it;
        diff = *s.it - *t.it;
      });
      const long want = dir * (s.pos - t.pos);
      if (diff != want || eq != (want == 0) || ne != (want != 0) || lt != (want < 0) || gt != (want > 0) ||
          le != (want <= 0) || ge != (want >= 0))
        Bad("iterator-comparison", what + ": positions " + std::to_string(s.pos) + " and " + std::to_string(t.pos) +
                                       " give difference " + std::to_string(diff) + ", == " + std::to_string(eq) +
                                       ", < " + std::to_string(lt) + ", > " + std::to_string(gt));
      break;
    }
    case 12: {
      if (!t.it || &t == &s) return;
      what += "it = other";
      if (Attempt(what, [&] {
            It copy(*t.it);
            *s.it = copy;
          }) == 1)
        s.pos = t.pos;
      CheckAt(w, t, what + " (the source)");
      break;
    }
    case 13:
    case 14: {
      // A full walk, from one end to the other.
      if (size > 80) return;
      what += op == 13 ? "walk forward" : "walk backward";
      std::vector<std::string> got;
      const int st = Attempt(what, [&] {
        It a = make(false), b = make(true);
        if (op == 13) {
          for (It i = a; i != b && static_cast<int>(got.size()) <= size; ++i) got.push_back(Show(*i));
        } else {
          for (It i = b; i != a && static_cast<int>(got.size()) <= size;) got.push_back(Show(*--i));
        }
      });
      if (st != 1) break;
      std::vector<std::string> want;
      for (int p = 0; p < size; p++) want.push_back(w.model.At(p));
      if ((op == 13) != (dir > 0)) std::reverse(want.begin(), want.end());
      if (got != want)
        Bad("wrong-walk", what + " over " + w.model.Describe() + " lists " + Join(got) + " instead of " + Join(want));
      break;
    }
    case 15: {
      const bool end = r.Chance(1, 2);
      what += end ? "= end" : "= begin";
      if (Attempt(what, [&] {
            It i = make(end);
            if (s.it) *s.it = i;
            else s.it.emplace(i);
          }) == 1)
        s.pos = dir > 0 ? (end ? size : 0) : (end ? -1 : size - 1);
      break;
    }
  }
  if (s.it) CheckAt(w, s, what);
}

template <typename W, typename G, typename Find>
void Lookup(W& w, const G& gen, Rng& r, Find&& bad_find) {
  const long size = w.model.size();
  int op = r.Range(0, 4);
  std::string what;
  if (op == 0) {
    const long i = static_cast<long>(r.Below(2 * size + 4)) - size - 2;
    const long p = i < 0 ? i + size : i;
    what = "at(" + std::to_string(i) + ")";
    std::string got;
    Outcome o = Try([&] { got = Show(gen.at(i)); });
    if (p < 0 || p >= size) {
      if (o.end != End::kThrew && !(o.fault && o.end == End::kNoMem)) Bad("bounds", what + " of " + std::to_string(size) + " combinations returned " + got);
    } else if (!o.ok() && !(o.fault && o.end == End::kNoMem)) {
      Bad("unexpected-error", what + " raised " + o.what);
    } else if (o.ok() && got != w.model.At(p)) {
      Bad("wrong-combination", what + " is " + got + " instead of " + w.model.At(p));
    }
  } else if (op == 1 && size > 0) {
    const long i = static_cast<long>(r.Below(size));
    what = "operator[](" + std::to_string(i) + ")";
    std::string got;
    if (Attempt(what, [&] { got = Show(gen[i]); }) == 1 && got != w.model.At(i))
      Bad("wrong-combination", what + " is " + got + " instead of " + w.model.At(i));
  } else if (op == 2 && size > 0) {
    const long i = static_cast<long>(r.Below(size));
    what = "find of combination " + std::to_string(i);
    long got = -1;
    if (Attempt(what, [&] {
          auto c = gen[i];
          got = gen.find(c);
        }) == 1 && got != i)
      Bad("wrong-find", what + " returned " + std::to_string(got));
  } else if (op == 3 && (size == 0 || r.Chance(1, 3))) {
    // A combination of the wrong length; nothing at all where there are no combinations.
    long got = -1;
    const bool longer = size > 0 && r.Chance(1, 2);
    if (size > 0 && w.model.options.empty()) return;
    const long at = size > 0 ? static_cast<long>(r.Below(size)) : 0;
    what = size == 0 ? "find of nothing" : longer ? "find of a longer combination" : "find of a shorter combination";
    Outcome o = Try([&] {
      typename G::iterator::value_type c;
      if (size > 0) {
        c = gen[at];
        if (longer)
          c.push_back(c.front());
        else
          c.pop_back();
      }
      got = gen.find(c);
    });
    if (o.ok()) Bad("wrong-find", what + " returned " + std::to_string(got) + " for " + w.model.Describe());
  } else if (op == 3 && size > 0 && !w.model.options.empty()) {
    what = "find of a combination that is not there";
    int got = -1;
    Outcome o = Try([&] { got = bad_find(static_cast<long>(r.Below(size)), static_cast<int>(r.Below(w.model.options.size()))); });
    if (o.ok()) Bad("wrong-find", what + " returned " + std::to_string(got));
  } else {
    size_t n = 0;
    bool e = false;
    what = "size";
    Must("iterator-error", what, [&] {
      n = gen.size();
      e = gen.empty();
    });
    if (n != static_cast<size_t>(size) || e != (size == 0))
      Bad("size", "size() is " + std::to_string(n) + ", empty() " + std::to_string(e) + " for " + w.model.Describe());
  }
}

template <typename ContainerT>
void BuildGeneric(Run& run) {
  Rng& rng = run.rng;
  using W = Gen<ContainerT>;
  using G = typename W::G;
  using V = typename W::V;
  auto w = run.Keep<W>();
  w->nofail = std::is_same<V, int>::value;
  // More combinations than anyone could walk through.
  const bool large = rng.Chance(1, 6);
  const int num = large ? rng.Range(4, 14) : rng.Chance(1, 8) ? 0 : rng.Range(1, 4);
  std::vector<ContainerT*> opts;
  long total = 1;
  const bool alias = !large && rng.Chance(1, 6);
  for (int o = 0; o < num; o++) {
    int n = large ? rng.Range(1, 30) : rng.Range(1, 5);
    if (total * n > (large ? 1l << 50 : 150)) n = 1;
    total *= n;
    auto c = std::make_unique<std::remove_const_t<ContainerT>>();
    std::vector<std::string> names;
    for (int i = 0; i < n; i++) {
      c->push_back(MakeElement(i, o, V()));
      names.push_back(Str(c->back()));
    }
    // The same option may be used in several positions.
    if (alias && o > 0) {
      opts.push_back(opts[0]);
      total = total / n * static_cast<long>(opts[0]->size());
      names = w->model.options[0];
    } else {
      opts.push_back(c.get());
    }
    w->storage.push_back(std::move(c));
    w->model.options.push_back(names);
  }
  if (rng.Chance(1, 3)) {
    // A copy of a generator that is gone.
    auto first = std::make_unique<G>(opts);
    w->gen = std::make_unique<G>(*first);
  } else if (rng.Chance(1, 3)) {
    G first(opts);
    w->gen = std::make_unique<G>();
    *w->gen = rng.Chance(1, 2) ? std::move(first) : first;
  } else {
    w->gen = std::make_unique<G>(opts);
  }
  if (num > 0 && rng.Chance(1, 4)) {
    // An option without elements is refused.
    std::remove_const_t<ContainerT> empty;
    auto bad = opts;
    bad[rng.Below(bad.size())] = &empty;
    try {
      G g(bad);
      run.Violate("empty-option", "an option without elements was accepted");
    } catch (const std::invalid_argument&) {
    }
  }
  const int clients = rng.Chance(1, 2) ? 1 : rng.Range(2, 3);
  const int ops = clients == 1 ? rng.Range(15, 60) : rng.Range(6, 15);
  const bool faults = w->nofail && rng.Chance(1, 2);
  w->own.resize(clients);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int o = 0; o < ops; o++) {
      const int kind = static_cast<int>(rng.Below(10));
      const uint64_t sub = rng.Next();
      static const char* names[] = {"iterator", "iterator", "iterator", "const iterator", "const iterator",
                                    "reverse iterator", "reverse iterator", "const reverse iterator", "generator",
                                    "generator"};
      Op& op = run.AddOp(c, std::string("step a ") + names[kind], [=] {
        Rng r(sub);
        auto& own = w->own[c];
        G& gen = *w->gen;
        const G& cgen = gen;
        if (kind <= 2)
          Step<W, typename G::iterator>(
              *w, own.fwd, 3, 1, r, [&](bool e) { return e ? gen.end() : gen.begin(); }, "iterator ");
        else if (kind <= 4)
          Step<W, typename G::const_iterator>(
              *w, own.cfwd, 2, 1, r,
              [&](bool e) { return sub & 1 ? (e ? cgen.end() : cgen.begin()) : (e ? gen.cend() : gen.cbegin()); },
              "const iterator ");
        else if (kind <= 6)
          Step<W, typename G::reverse_iterator>(
              *w, own.rev, 2, -1, r, [&](bool e) { return e ? gen.rend() : gen.rbegin(); }, "reverse iterator ");
        else if (kind == 7)
          Step<W, typename G::const_reverse_iterator>(
              *w, own.crev, 2, -1, r,
              [&](bool e) { return sub & 1 ? (e ? cgen.rend() : cgen.rbegin()) : (e ? gen.crend() : gen.crbegin()); },
              "const reverse iterator ");
        else
          Lookup(*w, cgen, r, [&](long i, int slot) {
            auto comb = cgen[i];
            comb[slot] = MakeElement(99, 77, V());
            return cgen.find(comb);
          });
      });
      if (faults && rng.Chance(1, 5)) AddAllocFault(run, op, rng, 2, 50);
    }
  }
}

// ---- parameter generators -------------------------------------------------------------------
struct ParamWorld {
  VAL::const_symbol foreign{"foreign"};
  std::unique_ptr<Pddl> pddl;
  std::vector<Product> product;                      // per parameter list
  std::vector<const std::vector<Object>*> params;    // owned by the problem's actions
  std::vector<std::unique_ptr<ParameterGenerator>> shared;  // read by everybody
  std::vector<int> shared_of;
  struct Cell {
    std::unique_ptr<ParameterGenerator> gen;
    int of = -1;      // which parameter list; -1: default constructed
    bool unspecified = false;
    std::optional<ParameterGenerator::iterator> it;
    int pos = 0;
  };
  std::vector<std::vector<Cell>> cells;
  Product none;

  const Product& ModelOf(int of) const { return of < 0 ? none : product[of]; }

  // Reads everything back; `of` or, when the value is uncertain, one of several.
  int Identify(const ParameterGenerator& g, const std::vector<int>& candidates, const std::string& after) {
    std::vector<std::string> got;
    size_t n = 0;
    if (!Must("iterator-error", "reading a generator after " + after, [&] {
          n = g.size();
          for (const auto& c : g) {
            got.push_back(Show(c));
            if (got.size() > 400) break;
          }
        }))
      return candidates[0];
    for (int of : candidates) {
      const Product& m = ModelOf(of);
      if (static_cast<int>(n) != m.size() || got.size() != n) continue;
      bool same = true;
      for (size_t i = 0; i < n && same; i++) same = got[i] == m.At(static_cast<int>(i));
      if (same) {
        LogS(Join(got));
        return of;
      }
    }
    Bad("wrong-parameters", "after " + after + ": the generator lists " + Join(got) + " (size " + std::to_string(n) +
                                ") instead of " + ModelOf(candidates[0]).Describe());
    return candidates[0];
  }
};

void BuildParams(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<ParamWorld>();
  w->none.none = true;
  // A domain with a few types and, per parameter list, one action.
  const int types = rng.Range(1, 4);
  std::vector<int> parent(types, -1);
  for (int t = 1; t < types; t++)
    if (rng.Chance(1, 2)) parent[t] = static_cast<int>(rng.Below(t));
  const int objects = rng.Range(1, 5);
  std::vector<int> type_of(objects);
  const int consts = rng.Range(0, objects);
  std::string d = "(define (domain d) (:requirements :strips :typing)\n(:types";
  auto tn = [](int t) { return t < 0 ? std::string("object") : "t" + std::to_string(t); };
  for (int t = 0; t < types; t++) d += " " + tn(t) + " - " + tn(parent[t]);
  d += ")\n(:constants";
  std::vector<std::string> names;
  for (int o = 0; o < objects; o++) {
    type_of[o] = rng.Range(-1, types - 1);
    names.push_back((o % 2 ? "o" : "an_object_with_a_long_name_") + std::to_string(o));
    if (o < consts) d += " " + names[o] + " - " + tn(type_of[o]);
  }
  d += ")\n(:predicates (p))\n";
  auto is_a = [&](int o, int t) {
    if (t < 0) return true;
    for (int x = type_of[o]; x >= 0; x = parent[x])
      if (x == t) return true;
    return false;
  };
  const int lists = rng.Range(2, 4);
  for (int l = 0; l < lists; l++) {
    const int n = rng.Chance(1, 6) ? 0 : rng.Range(1, 3);
    Product p;
    d += "(:action a" + std::to_string(l) + " :parameters (";
    for (int i = 0; i < n; i++) {
      const int t = rng.Range(-1, types - 1);
      d += " ?x" + std::to_string(i) + " - " + tn(t);
      std::vector<std::string> option;
      for (int o = 0; o < objects; o++)
        if (is_a(o, t)) option.push_back(names[o]);
      if (option.empty()) p.none = true;
      p.options.push_back(option);
    }
    d += ") :precondition (p) :effect (not (p)))\n";
    if (p.none) p.options.clear();
    w->product.push_back(p);
  }
  d += ")\n";
  std::string pr = "(define (problem q) (:domain d) (:objects";
  for (int o = consts; o < objects; o++) pr += " " + names[o] + " - " + tn(type_of[o]);
  pr += ") (:init (p)) (:goal (p)))";
  sim::FsPut("/simfs/d.pddl", {d});
  w->pddl = std::make_unique<Pddl>("/simfs/d.pddl", pr);
  for (int l = 0; l < lists; l++) w->params.push_back(&w->pddl->actions()[l].parameters());
  for (int l = 0; l < lists; l++) {
    w->shared.push_back(std::make_unique<ParameterGenerator>(*w->pddl, *w->params[l]));
    w->shared_of.push_back(l);
  }
  const int clients = rng.Chance(1, 2) ? 1 : rng.Range(2, 3);
  const int ops = clients == 1 ? rng.Range(10, 40) : rng.Range(5, 12);
  const bool faults = rng.Chance(2, 3);
  w->cells.resize(clients);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    w->cells[c].resize(3);
    for (int o = 0; o < ops; o++) {
      const int kind = rng.Range(0, 11);
      const int i = rng.Range(0, 2), j = rng.Range(0, 2);
      const int list = static_cast<int>(rng.Below(lists));
      const uint64_t sub = rng.Next();
      static const char* what[] = {"build generator", "copy-construct generator", "copy-assign generator",
                                   "move-construct generator", "move-assign generator", "copy shared generator over",
                                   "destroy generator", "step an iterator of generator", "step an iterator of generator",
                                   "look into generator", "read the shared generators by", "self-assign generator"};
      const std::string label = std::string(what[kind]) + " " + std::to_string(i) + " (other: " + std::to_string(j) +
                                ", parameter list " + std::to_string(list) + ")";
      Op& op = run.AddOp(c, label, [=] {
        Rng r(sub);
        auto& a = w->cells[c][i];
        auto& b = w->cells[c][j];
        const int old = a.of;
        switch (kind) {
          case 0: {
            std::unique_ptr<ParameterGenerator> g;
            if (Attempt(label, [&] { g = std::make_unique<ParameterGenerator>(*w->pddl, *w->params[list]); }) == 1) {
              a.it.reset();
              a.gen = std::move(g);
              a.of = list;
              a.unspecified = false;
            }
            break;
          }
          case 1: {
            if (!b.gen || b.unspecified || i == j) return;
            std::unique_ptr<ParameterGenerator> g;
            if (Attempt(label, [&] { g = std::make_unique<ParameterGenerator>(*b.gen); }) == 1) {
              a.it.reset();
              a.gen = std::move(g);
              a.of = b.of;
              a.unspecified = false;
            }
            w->Identify(*b.gen, {b.of}, label + " (the source)");
            break;
          }
          case 2:
          case 5: {
            const ParameterGenerator* src = kind == 5 ? w->shared[list].get() : b.gen.get();
            const int of = kind == 5 ? w->shared_of[list] : b.of;
            if (src == nullptr || (kind == 2 && (b.unspecified || i == j))) return;
            if (!a.gen) a.gen = std::make_unique<ParameterGenerator>();
            a.it.reset();
            const int st = Attempt(label, [&] { *a.gen = *src; });
            if (st == 1) {
              a.of = of;
              a.unspecified = false;
            } else if (!a.unspecified) {
              sim::CurrentRun()->Probe("copy assignment failed for lack of memory");
              a.of = w->Identify(*a.gen, {old, of, -1}, label + " (failed)");
            }
            w->Identify(*src, {of}, label + " (the source)");
            break;
          }
          case 3: {
            if (!b.gen || b.unspecified || i == j) return;
            std::unique_ptr<ParameterGenerator> g;
            void* mem = operator new(sizeof(ParameterGenerator));
            Outcome out = Try([&] { g.reset(new (mem) ParameterGenerator(std::move(*b.gen))); });
            if (!out.ok()) {
              Bad("move-error", label + " raised " + out.what);
              return;
            }
            a.it.reset();
            b.it.reset();
            a.gen = std::move(g);
            a.of = b.of;
            a.unspecified = false;
            if (r.Chance(1, 2)) b.gen.reset();
            b.of = -1;
            b.unspecified = true;
            sim::CurrentRun()->Fired(sim::kSourceGone);
            break;
          }
          case 4: {
            if (!b.gen || b.unspecified || i == j) return;
            if (!a.gen) a.gen = std::make_unique<ParameterGenerator>();
            a.it.reset();
            b.it.reset();
            Outcome out = Try([&] { *a.gen = std::move(*b.gen); });
            if (!out.ok()) {
              Bad("move-error", label + " raised " + out.what);
              return;
            }
            a.of = b.of;
            a.unspecified = false;
            b.of = -1;
            b.unspecified = true;
            if (r.Chance(1, 2)) b.gen.reset();
            sim::CurrentRun()->Fired(sim::kSourceGone);
            break;
          }
          case 6:
            if (!a.gen) return;
            a.it.reset();
            Must("destroy", label, [&] { a.gen.reset(); });
            a.of = -1;
            a.unspecified = false;
            sim::CurrentRun()->Fired(sim::kSourceGone);
            break;
          case 7:
          case 8: {
            if (!a.gen || a.unspecified) return;
            const Product& m = w->ModelOf(a.of);
            const int size = m.size();
            if (!a.it) {
              const bool end = r.Chance(1, 3);
              if (Attempt(label, [&] { a.it.emplace(end ? a.gen->end() : a.gen->begin()); }) != 1) return;
              a.pos = end ? size : 0;
            } else {
              const int to = r.Range(-1, size);
              if (Attempt(label, [&] { *a.it += to - a.pos; }) == 1) a.pos = to;
            }
            if (a.pos >= 0 && a.pos < size) {
              std::string got;
              Must("iterator-error", label, [&] { got = Show(**a.it); });
              if (got != m.At(a.pos))
                Bad("wrong-combination", label + ": position " + std::to_string(a.pos) + " shows " + got +
                                             " instead of " + m.At(a.pos));
            }
            break;
          }
          case 9: {
            if (!a.gen || a.unspecified) return;
            struct View {
              const Product& model;
            } v{w->ModelOf(a.of)};
            Lookup(v, *a.gen, r, [&](long k, int slot) {
              // An element that is not in the option at all.
              auto comb = (*a.gen)[k];
              comb[slot] = Object(static_cast<const VAL::pddl_type_list*>(nullptr), &w->foreign);
              return a.gen->find(comb);
            });
            break;
          }
          case 10:
            for (size_t k = 0; k < w->shared.size(); k++) w->Identify(*w->shared[k], {w->shared_of[k]}, label);
            return;
          case 11: {
            if (!a.gen || a.unspecified) return;
            a.it.reset();
            const ParameterGenerator& self = *a.gen;
            Attempt(label, [&] { *a.gen = self; });
            break;
          }
        }
        if (a.gen && !a.unspecified && a.of != -2) w->Identify(*a.gen, {a.of}, label);
        if (b.gen && !b.unspecified) w->Identify(*b.gen, {b.of}, label + " (the other)");
      });
      if (faults && (kind <= 5 || kind == 11) && rng.Chance(1, 3)) AddAllocFault(run, op, rng, 8, 6);
    }
  }
  run.AtEnd([=] {
    for (size_t k = 0; k < w->shared.size(); k++) w->Identify(*w->shared[k], {w->shared_of[k]}, "the run");
  });
}

void Build(Run& run) {
  const int k = run.rng.Range(0, 3);
  if (k == 0) BuildGeneric<const std::vector<int>>(run);
  else if (k == 1) BuildGeneric<std::vector<std::string>>(run);
  else BuildParams(run);
}

sim::Register reg({"C07", Build,
                   "One run: either 1-3 clients step up to 9 iterators each (forward, const, reverse) over one generator of "
                   "0-4 options, or 1-3 clients build, copy, move, assign and destroy parameter generators of one loaded "
                   "problem and read shared ones, with allocation failures inside copies. Non-trivial: at least 4 "
                   "operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 4; },
                   {"include/symbolic/utils/combination_generator.h", "include/symbolic/utils/parameter_generator.h",
                    "src/utils/parameter_generator.cc", "src/object.cc", "src/pddl.cc (loading)"},
                   {"allocator (seeded failures)", "thread scheduler (seeded)", "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory"}});
}  // namespace
SIM_HARNESS_END
