// C03: a search time limit bounds every advance and never cuts one short.
#include "work/search.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::BreadthFirstSearch;
using symbolic::Planner;

// A planner node whose tests take simulated time.
struct Watch {
  std::function<void()> on_test, on_child;
};
class TimedNode {
 public:
  class iterator;
  TimedNode(const Planner::Node& n, const Watch* w) : node_(n), watch_(w) {}
  explicit operator bool() const {
    {
      sim::Outside out;
      watch_->on_test();
    }
    return static_cast<bool>(node_);
  }
  inline iterator begin() const;
  inline iterator end() const;
  const Planner::Node& node() const { return node_; }
  friend std::ostream& operator<<(std::ostream& os, const TimedNode& n) { return os << n.node_; }

 private:
  Planner::Node node_;
  const Watch* watch_;
};
class TimedNode::iterator {
 public:
  iterator(const Watch* w, Planner::Node::iterator it) : watch_(w), it_(it) {}
  iterator& operator++() {
    {
      sim::Outside out;
      watch_->on_child();
    }
    ++it_;
    return *this;
  }
  bool operator==(const iterator& o) const { return it_ == o.it_; }
  bool operator!=(const iterator& o) const { return !(it_ == o.it_); }
  TimedNode operator*() const { return TimedNode(*it_, watch_); }

 private:
  const Watch* watch_;
  Planner::Node::iterator it_;
};
TimedNode::iterator TimedNode::begin() const { return iterator(watch_, node_.begin()); }
TimedNode::iterator TimedNode::end() const { return iterator(watch_, node_.end()); }

struct Timed {
  std::unique_ptr<AnySearch> search;
  std::vector<std::string> plans;  // in the order yielded without a limit
  uint64_t limit_ns = 0;           // 0: none
  size_t nodes = 0;                // tests an exhaustive search makes
};

struct TimedCursor {
  std::unique_ptr<AnyIt> it;
  const Timed* of = nullptr;
  size_t got = 0;
  size_t tests = 0;
  bool ended = false;
};

struct World : SearchWorld {
  std::vector<std::unique_ptr<Timed>> timed;
  std::vector<std::unique_ptr<Watch>> watches;
  // Of the advance each client is in.
  struct Now {
    std::vector<uint64_t> begun;  // when nodes were tested
    uint64_t first_read = 0;
    bool read = false;
    uint64_t reads = 0;
    uint64_t fault_at = 0;  // which test or read the op's clock faults hit
    bool fault_on_read = false;
    bool fault_done = false;
  };
  std::vector<Now> now;
  uint64_t test_cost = 0, child_cost = 0, spike = 0;
  bool slow = false;  // a search takes minutes to years
  bool live = false;  // costs and faults apply

  Now* Mine() {
    const int c = sim::ClientId();
    return c >= 0 && c < static_cast<int>(now.size()) ? &now[c] : nullptr;
  }
  void Faults(Now* n) {
    if (n->fault_done) return;
    n->fault_done = true;
    if (const Fault* f = sim::OpFault(sim::kStall)) {
      sim::Advance(static_cast<uint64_t>(f->arg));
      sim::CurrentRun()->Fired(sim::kStall);
    }
    if (const Fault* f = sim::OpFault(sim::kWallJump)) {
      sim::JumpWall(f->arg);
      sim::CurrentRun()->Fired(sim::kWallJump);
    }
  }
  void Test(uint64_t h) {
    if (!live) return;
    Now* n = Mine();
    if (n == nullptr) return;
    n->begun.push_back(sim::NowMono());
    // Two hundred years are enough: clocks count nanoseconds in 63 bits.
    if (sim::NowMono() < 6000000000000000000ull) sim::Advance(h % 5 == 0 ? spike : test_cost);
    if (!n->fault_on_read && n->begun.size() == n->fault_at) Faults(n);
  }
  void Child() {
    if (live) sim::Advance(child_cost);
  }
  void Read() {
    if (!live) return;
    Now* n = Mine();
    if (n == nullptr) return;
    n->reads++;
    if (n->fault_on_read && n->reads == n->fault_at) Faults(n);
    if (!n->read) n->first_read = sim::NowMono();
    n->read = true;
  }
};

// Advances once and checks the time it took and where it arrived.
bool Advance(World& w, TimedCursor& c, const std::string& where, const std::function<bool()>& call) {
  World::Now* n = w.Mine();
  n->begun.clear();
  n->read = false;
  n->reads = 0;
  const uint64_t t0 = sim::NowMono();
  if (!call()) return false;
  const uint64_t t1 = sim::NowMono();
  const Timed& t = *c.of;
  c.tests += n->begun.size();
  bool end = false;
  if (!Must("comparison-error", "comparing with the end", [&] { end = c.it->IsEnd(); })) return false;
  LogN(t1 - t0);
  const std::string took = where + ": " + t.search->name + " took " + std::to_string(t1 - t0) + " ns of a limit of " +
                           std::to_string(t.limit_ns) + " ns, testing " + std::to_string(n->begun.size()) + " nodes";
  if (t.limit_ns > 0 && !n->begun.empty()) {
    // The limit counts from the start of the advance, at the latest from its first node.
    uint64_t start = n->begun.front();
    if (n->read) start = std::min(start, n->first_read);
    size_t late = 0;
    for (uint64_t b : n->begun) late += b > start + t.limit_ns;
    if (late > 1) Bad("overrun", took + ", " + std::to_string(late) + " of which it began after the limit");
  }
  if (c.ended) {
    if (!end) Bad("after-end", took + ", and left its end");
    return !sim::CurrentRun()->failed();
  }
  if (end) {
    LogS("end");
    c.ended = true;
    const bool out_of_time = t.limit_ns > 0 && t1 - t0 >= t.limit_ns;
    if (out_of_time && c.tests < t.nodes) sim::CurrentRun()->Probe("search expired");
    if (out_of_time) return true;
    if (c.got < t.plans.size())
      Bad("cut-short", took + ", and ended after " + std::to_string(c.got) + " of " + std::to_string(t.plans.size()) + " plans");
    else if (c.tests < t.nodes)
      Bad("cut-short", took + ", and ended after testing " + std::to_string(c.tests) + " of " + std::to_string(t.nodes) + " nodes");
    sim::CurrentRun()->Probe("search exhausted");
    return !sim::CurrentRun()->failed();
  }
  const std::string key = c.it->Key(where);
  LogS(key);
  if (c.got >= t.plans.size() || t.plans[c.got] != key)
    Bad("not-a-prefix", took + ", and yielded " + key + " instead of " +
                            (c.got < t.plans.size() ? t.plans[c.got] : "the end"));
  c.got++;
  return !sim::CurrentRun()->failed();
}

uint64_t SomeLimit(Rng& rng, const World& w) {
  if (rng.Chance(1, 5)) return 0;
  if (rng.Chance(1, 30)) {
    // More than any clock will count.
    static const uint64_t endless_us[] = {9223372036854775ull, 9223372036854776ull, 18446744073709552ull, 9223372036854775807ull};
    return endless_us[rng.Below(4)];
  }
  if (w.slow && rng.Chance(1, 2)) {
    // Around the largest numbers of micro- and milliseconds that 31 and 32 bits hold, a day, 3 years, 100 years.
    static const uint64_t long_us[] = {1800000000ull, 2147483647ull, 2147483648ull, 2200000000ull,    4294967295ull,     4294967296ull,
                                       4300000000ull, 6000000000ull, 9000000000ull, 86400000000ull, 94608000000000ull, 3153600000000000ull};
    return long_us[rng.Below(12)];
  }
  static const uint64_t us[] = {1, 2, 5, 20, 100, 1000, 50000, 3000000, 3600000000ull};
  if (rng.Chance(1, 2)) return us[rng.Below(9)];
  return std::max<uint64_t>(1, (w.test_cost + w.child_cost) * rng.Range(1, 30) / 1000);
}

template <typename NodeT, typename KeyFn>
bool AddTimed(World& w, Rng& rng, const NodeT& root, const PathTree& t, int depth, const std::string& about, KeyFn key) {
  auto timed = std::make_unique<Timed>();
  const uint64_t us = SomeLimit(rng, w);
  timed->limit_ns = std::min<uint64_t>(us, 9000000000000000ull) * 1000;
  for (const PathTree::N& n : t.nodes) timed->nodes += n.depth <= depth;
  const bool verbose = rng.Chance(1, 8);
  const Expected all = t.ByLength(depth);
  auto plain = std::make_unique<SearchOf<BreadthFirstSearch<NodeT>, NodeT>>();
  plain->s = std::make_unique<BreadthFirstSearch<NodeT>>(root, PathTree::Limit(depth));
  plain->key = key;
  plain->name = "untimed";
  if (!Must("untimed", "searching without a limit", [&] { timed->plans = plain->Loop(all.plans.size() + 2); })) return false;
  auto x = std::make_unique<SearchOf<BreadthFirstSearch<NodeT>, NodeT>>();
  x->s = std::make_unique<BreadthFirstSearch<NodeT>>(root, PathTree::Limit(depth), verbose, std::chrono::microseconds(us));
  x->key = key;
  x->name = about + " with " + (us ? "limit " + std::to_string(us) + " us" : "no limit");
  timed->search = std::move(x);
  w.timed.push_back(std::move(timed));
  return true;
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  Silence();
  const bool generic = rng.Chance(2, 3);
  const int clients = rng.Chance(1, 2) ? 1 : rng.Range(2, 3);
  static const uint64_t costs[] = {0, 100, 1000, 7000, 40000, 1000000};
  w->test_cost = costs[rng.Below(6)];
  w->child_cost = rng.Chance(1, 2) ? 0 : costs[rng.Below(4)];
  if (rng.Chance(1, 5)) {
    run.Probe("slow searches");
    w->slow = true;
    static const uint64_t seconds[] = {1, 60, 300, 1500, 3000, 40000, 20000000};
    w->test_cost = seconds[rng.Below(7)] * 1000000000 + rng.Below(1000);
  }
  w->spike = w->slow || rng.Chance(1, 2) ? w->test_cost : w->test_cost * rng.Range(2, 200);
  sim::SetReadCost(rng.Chance(1, 3) ? 0 : rng.Range(1, 2000));
  sim::SetClockHook([p = w.get()] { p->Read(); });
  w->now.resize(clients);
  const int searches = rng.Range(1, 3);
  if (generic) {
    const int roots = rng.Range(1, 2);
    const GraphSize size = GraphSize::Random(rng);
    if (size.big) run.Probe("big graph");
    w->graphs.reserve(roots);
    w->roots.reserve(roots);
    for (int g = 0; g < roots; g++) {
      w->graphs.push_back(Graph::Random(rng, size.big));
      w->graphs[g].on_test = [p = w.get()](int v, int e) { p->Test(sim::Mix(v + 1, e + 9)); };
      w->graphs[g].on_child = [p = w.get()](int, int) { p->Child(); };
      w->roots.emplace_back(&w->graphs[g], 0, -1);
    }
    for (int s = 0; s < searches; s++) {
      const int g = static_cast<int>(rng.Below(roots));
      PathTree t;
      const int known = Unfold(w->graphs[g], rng.Range(0, size.depth), size.limit, &t);
      const int depth = t.Deeper(rng, known);
      if (!AddTimed<GNode>(*w, rng, w->roots[g], t, depth, "search " + std::to_string(s) + " (graph " + std::to_string(g) + ", depth " + std::to_string(depth) + ")",
                           [](const std::vector<GNode>& p, const std::string& where) { return PlanKey(p, where); }))
        return;
    }
  } else {
    auto pl = std::make_unique<Planning>();
    if (!pl->Make(rng, PlanningOptions(rng), rng.Range(1, 4), 60)) {
      if (!run.failed()) run.Probe("no usable problem drawn");
      return;
    }
    auto watch = std::make_unique<Watch>();
    watch->on_test = [p = w.get()] { p->Test(p->Mine() ? p->Mine()->begun.size() : 0); };
    watch->on_child = [p = w.get()] { p->Child(); };
    auto root = run.Keep<TimedNode>(pl->planner->root(), watch.get());
    Planning* raw = pl.get();
    w->plannings.push_back(std::move(pl));
    w->watches.push_back(std::move(watch));
    for (int s = 0; s < searches; s++) {
      const int depth = rng.Chance(1, 3) ? raw->tree.Deeper(rng, raw->depth) : rng.Range(0, raw->depth);
      if (!AddTimed<TimedNode>(*w, rng, *root, raw->tree, depth, "search " + std::to_string(s) + " (planner, depth " + std::to_string(depth) + ")",
                               [raw](const std::vector<TimedNode>& p, const std::string& where) {
                                 std::vector<Planner::Node> q;
                                 for (const TimedNode& n : p) q.push_back(n.node());
                                 return raw->PlanKey(q, where);
                               }))
        return;
    }
  }
  w->live = true;

  auto cursors = run.Keep<std::vector<std::vector<TimedCursor>>>(clients);
  const int ops = clients == 1 ? rng.Range(3, 12) : rng.Range(2, 6);
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    (*cursors)[c].resize(2);
    for (int o = 0; o < ops; o++) {
      const int i = static_cast<int>(rng.Below(2));
      const Timed* t = w->timed[rng.Below(w->timed.size())].get();
      const int k = o == 0 ? 0 : rng.Range(0, 9);
      const uint64_t fault_at = rng.Range(1, rng.Chance(1, 2) ? 3 : 12);
      const bool on_read = rng.Chance(1, 2);
      std::string label = k <= 1 ? "start " + t->search->name : k == 2 ? "copy an iterator" : k <= 5 ? "run to the end" : "step";
      sim::Op& op = run.AddOp(c, label, [=] {
        auto& mine = (*cursors)[c];
        TimedCursor& a = mine[i];
        World::Now* n = w->Mine();
        n->fault_at = fault_at;
        n->fault_on_read = on_read;
        n->fault_done = false;
        auto start = [&] {
          a = TimedCursor();
          a.of = t;
          return Advance(*w, a, label, [&] { return Must("begin-error", label, [&] { a.it = a.of->search->Begin(); }); });
        };
        auto step = [&](const std::string& where) {
          return Advance(*w, a, where, [&] { return Must("step-error", where, [&] { a.it->Step(); }); });
        };
        if (k <= 1 || !a.it) {
          start();
          return;
        }
        if (k == 2) {
          TimedCursor& b = mine[1 - i];
          std::unique_ptr<AnyIt> copy;
          if (!Must("copy-error", label, [&] { copy = a.it->Copy(); })) return;
          b = TimedCursor();
          b.it = std::move(copy);
          b.of = a.of;
          b.got = a.got;
          b.tests = a.tests;
          b.ended = a.ended;
          return;
        }
        if (k <= 5) {
          for (int m = 0; m < 200 && !a.ended; m++)
            if (!step(label)) return;
          step(label + " and beyond");
          return;
        }
        step(label);
      });
      if (rng.Chance(1, 4)) {
        static const int64_t jumps[] = {1000000, 5000000000ll, 3600000000000ll, -1000000, -5000000000ll, -3600000000000ll};
        op.faults.push_back({sim::kWallJump, jumps[rng.Below(6)]});
        run.Planned(sim::kWallJump);
      }
      if (rng.Chance(1, 4)) {
        static const int64_t stalls[] = {1000, 50000, 3000000, 60000000000ll, 2200000000000ll, 4300000000000ll};
        op.faults.push_back({sim::kStall, stalls[rng.Below(w->slow ? 6 : 4)]});
        run.Planned(sim::kStall);
      }
    }
  }
}

sim::Register reg({"C03", Build,
                   "One run: 1-3 clients advance, copy and restart iterators over 1-3 shared breadth-first searches with time "
                   "limits between none, 1 us, 100 years and the largest number there is, while testing nodes and reading the clock cost simulated time, clients "
                   "stall and the wall clock jumps back and forth; every advance is checked against the simulated clock and "
                   "the plans of the same search without a limit. Non-trivial: at least 2 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 2; },
                   {"include/symbolic/planning/breadth_first_search.h", "include/symbolic/planning/planner.h",
                    "src/planning/planner.cc", "src/pddl.cc", "src/action.cc", "src/formula.cc", "src/state.cc"},
                   {"thread scheduler (seeded)", "clocks (simulated)", "VAL parser (stand-in)"},
                   {"time passes only when nodes are tested or expanded, clocks are read, and clients stall",
                    "preemption happens at memory accesses, with sequentially consistent memory"}});
}  // namespace
SIM_HARNESS_END
