// C17: names are the identity of facts, objects, calls and states, in text and out of it.
#include <streambuf>
#include <unordered_set>

#include "work/queries.h"

SIM_HARNESS_BEGIN
namespace {
using namespace simw;
using symbolic::Object;
using symbolic::Proposition;
using symbolic::PropositionRef;
using symbolic::SignedProposition;

struct World : QWorld {
  std::unique_ptr<symbolic::Pddl> twin;      // the same texts, loaded again
  std::vector<model::Atom> atoms;            // facts in use
  std::vector<Proposition> shared;           // the facts themselves, read by all
};

// A stream whose device is full after `room` characters.
class FullBuf : public std::streambuf {
 public:
  explicit FullBuf(size_t room) : room_(room) {}
  std::string text;

 protected:
  int overflow(int c) override {
    if (text.size() >= room_ || c == EOF) return EOF;
    text.push_back(static_cast<char>(c));
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    const size_t fit = std::min<size_t>(n, room_ - text.size());
    text.append(s, fit);
    return static_cast<std::streamsize>(fit);
  }

 private:
  size_t room_;
};

std::vector<std::string> ArgNames(const World& w, const model::Atom& a) {
  std::vector<std::string> v;
  for (int o : a.args) v.push_back(w.p.objects[o]);
  return v;
}

// name(arguments) with any layout between the parentheses.
std::string Layout(Rng& r, const std::string& name, const std::vector<std::string>& args, bool plain) {
  static const char* const seps[] = {", ", ",", " , ", " ", "\t", ",\n", "  "};
  static const char* const pads[] = {"", " ", "\t", "  ", "\n"};
  std::string t = name + "(";
  if (!plain) t += pads[r.Below(5)];
  const char* sep = seps[r.Below(7)];
  for (size_t k = 0; k < args.size(); k++) {
    if (k > 0) t += plain ? ", " : sep;
    t += args[k];
    if (!plain && r.Chance(1, 4)) sep = seps[r.Below(7)];
  }
  if (!plain) t += pads[r.Below(5)];
  return t + ")";
}

// A fact made in one of the ways there are. Runs inside a call.
Proposition Make(const symbolic::Pddl& pddl, const model::Problem& p, const model::Atom& a, int way, const std::string& text) {
  const std::string& name = p.preds[a.pred].name;
  auto objects = [&] {
    std::vector<Object> v;
    for (int o : a.args) v.emplace_back(pddl, p.objects[o]);
    return v;
  };
  switch (way) {
    case 0: {
      const std::vector<Object> v = objects();
      return Proposition(name, v);
    }
    case 1: return Proposition(name, objects());
    case 2: return Proposition(pddl, text);
    case 3: {
      const std::vector<Object> v = objects();
      const PropositionRef ref(&name, &v, std::hash<std::string>{}(name));
      return Proposition(ref);
    }
    case 4: {
      const Proposition f(name, objects());
      Proposition g(f);
      return g;
    }
    case 5: {
      Proposition f(name, objects());
      Proposition g(std::move(f));
      return g;
    }
    case 6: {
      Proposition g;
      const Proposition f(name, objects());
      g = f;
      return g;
    }
    case 7: {
      const SignedProposition f(name, objects(), way % 2 == 0);
      return f;
    }
    case 8: {
      SignedProposition f(Proposition(pddl, text), true);
      return std::move(f);
    }
    case 9: {
      const Proposition f(pddl, text);
      return Proposition(pddl, f.to_string());
    }
    default: {
      // By the objects the problem lists.
      std::vector<Object> v;
      for (int o : a.args)
        for (const auto* list : {&pddl.objects(), &pddl.constants()}) {
          bool found = false;
          for (const Object& x : *list)
            if (x.name() == p.objects[o]) {
              v.push_back(x);
              found = true;
              break;
            }
          if (found) break;
        }
      return Proposition(name, std::move(v));
    }
  }
}

std::string Pddl(const std::string& name, const std::vector<std::string>& args) {
  std::string t = "(" + name;
  for (const std::string& a : args) t += " " + a;
  return t + ")";
}

void CheckFact(const World& w, const model::Atom& a, const symbolic::PropositionBase& f, const std::string& text,
               const std::string& pddl, const std::string& where) {
  const std::string want = w.p.Show(a);
  if (f.name() != w.p.preds[a.pred].name || ShowFact(f) != want) {
    Bad("fact", where + " is " + ShowFact(f));
    return;
  }
  if (text != want) Bad("text", where + " is written " + text);
  if (pddl != Pddl(w.p.preds[a.pred].name, ArgNames(w, a))) Bad("text", where + " is written " + pddl + " in PDDL");
}

struct Compared {
  bool eq = false, ne = false, lt = false, gt = false;
};
Compared CompareFacts(const symbolic::PropositionBase& a, const symbolic::PropositionBase& b) {
  return {a == b, a != b, a < b, b < a};
}
void CheckCompared(const std::string& a, const std::string& b, bool same, const Compared& c) {
  if (c.eq != same || c.ne == same) Bad("equality", a + " and " + b + " are " + (c.eq ? "equal" : c.ne ? "unequal" : "neither"));
  if ((c.lt || c.gt) == same) Bad("order", a + " and " + b + (c.lt || c.gt ? " are ordered" : " are not ordered"));
  if (c.lt && c.gt) Bad("order", a + " and " + b + " come before each other");
}

void Facts(World& w, Rng& r) {
  const model::Problem& p = w.p;
  std::vector<model::Atom> as;
  for (int k = 0; k < 3; k++) {
    if (k > 0 && r.Chance(1, 3)) as.push_back(as[r.Below(k)]);
    else as.push_back(w.atoms[r.Below(w.atoms.size())]);
  }
  if (r.Chance(1, 3) && as[0].args.size() > 1) {
    // The same arguments the other way round.
    as[1] = as[0];
    std::reverse(as[1].args.begin(), as[1].args.end());
  }
  struct Made {
    std::vector<Proposition> facts;
    std::vector<std::string> text, pddl;
    std::vector<size_t> hash;
    std::vector<Compared> cmp;
    bool in_set[3] = {};
  };
  int way[3];
  bool twin[3];
  std::string in[3], where[3];
  for (int k = 0; k < 3; k++) {
    way[k] = r.Range(0, 10);
    twin[k] = r.Chance(1, 3);
    in[k] = Layout(r, p.preds[as[k].pred].name, ArgNames(w, as[k]), r.Chance(1, 3));
    where[k] = p.Show(as[k]) + (twin[k] ? " of the twin" : "") + " made in way " + std::to_string(way[k]);
  }
  const size_t at = r.Below(w.shared.size());
  LogS(where[0] + ", " + where[1] + ", " + where[2]);
  Made m;
  auto work = [&] {
    m = Made();
    m.facts.reserve(3);
    for (int k = 0; k < 3; k++) m.facts.push_back(Make(twin[k] ? *w.twin : *w.pddl, p, as[k], way[k], in[k]));
    for (int k = 0; k < 3; k++) {
      m.text.push_back(m.facts[k].to_string());
      m.pddl.push_back(m.facts[k].to_pddl());
      m.hash.push_back(m.facts[k].hash());
    }
    m.cmp = {CompareFacts(m.facts[0], m.facts[1]), CompareFacts(m.facts[1], m.facts[2]), CompareFacts(m.facts[0], m.facts[2]),
             CompareFacts(m.facts[0], w.shared[at])};
    symbolic::State s;
    s.insert(m.facts[0]);
    for (int k = 0; k < 3; k++) m.in_set[k] = s.contains(m.facts[k]);
  };
  const int done = Attempt("making and comparing facts", work);
  if (done < 0) return;
  if (done == 0) {
    LogS("no memory");
    if (!Must("unexpected-error", "again: making and comparing facts", work)) return;
  }
  for (int k = 0; k < 3; k++) CheckFact(w, as[k], m.facts[k], m.text[k], m.pddl[k], where[k]);
  if (sim::CurrentRun()->failed()) return;
  static const int pairs[3][2] = {{0, 1}, {1, 2}, {0, 2}};
  for (int k = 0; k < 3; k++) {
    const int i = pairs[k][0], j = pairs[k][1];
    const bool same = as[i] == as[j];
    CheckCompared(where[i], where[j], same, m.cmp[k]);
    if (same && m.hash[i] != m.hash[j]) Bad("hash", where[i] + " and " + where[j] + " have different hashes");
    if (i == 0 && m.in_set[j] != same) Bad("contains", "a state of " + where[0] + (same ? " lacks " : " has ") + where[j]);
  }
  CheckCompared(where[0], "shared " + p.Show(w.atoms[at]), as[0] == w.atoms[at], m.cmp[3]);
  if (m.cmp[0].lt && m.cmp[1].lt && !m.cmp[2].lt) Bad("order", where[0] + " < " + where[1] + " < " + where[2] + " but not first before last");
  if (m.cmp[0].gt && m.cmp[1].gt && !m.cmp[2].gt) Bad("order", where[0] + " > " + where[1] + " > " + where[2] + " but not first after last");
  // The order is that of the names, whichever load a fact is of.
  Compared plain;
  const Proposition a = w.Fact(as[0]), b = w.Fact(as[1]);
  if (!Must("unexpected-error", "comparing facts", [&] { plain = CompareFacts(a, b); })) return;
  if (plain.lt != m.cmp[0].lt || plain.gt != m.cmp[0].gt) Bad("order", where[0] + " and " + where[1] + " are ordered otherwise than " + p.Show(as[0]) + " and " + p.Show(as[1]));
}

void References(World& w, Rng& r) {
  const model::Problem& p = w.p;
  const model::Atom& a = w.atoms[r.Below(w.atoms.size())];
  const size_t at = r.Chance(1, 2) ? r.Below(w.shared.size()) : static_cast<size_t>(&a - w.atoms.data());
  const bool positive = r.Chance(1, 2);
  LogS("reference to " + p.Show(a) + " beside " + p.Show(w.atoms[at]));
  std::string text, pddl, sign;
  Compared c, d;
  size_t hash = 0;
  bool pos = false;
  const std::string name = p.preds[a.pred].name;
  std::vector<Object> args = w.Objects(a.args);
  const PropositionRef ref(&name, &args, std::hash<std::string>{}(name));
  auto work = [&] {
    text = ref.to_string();
    pddl = ref.to_pddl();
    hash = ref.hash();
    c = CompareFacts(ref, w.shared[at]);
    const SignedProposition s(Proposition(ref), positive);
    d = CompareFacts(s, w.shared[at]);
    sign = s.sign();
    pos = s.is_pos();
  };
  const int done = Attempt("referring to a fact", work);
  if (done < 0) return;
  if (done == 0 && !Must("unexpected-error", "again: referring to a fact", work)) return;
  CheckFact(w, a, ref, text, pddl, "reference to " + p.Show(a));
  const bool same = a == w.atoms[at];
  CheckCompared("reference to " + p.Show(a), p.Show(w.atoms[at]), same, c);
  CheckCompared("signed " + p.Show(a), p.Show(w.atoms[at]), same, d);
  if (same && hash != w.shared[at].hash()) Bad("hash", "a reference to " + p.Show(a) + " has another hash");
  if (pos != positive || sign != (positive ? "+" : "-")) Bad("sign", p.Show(a) + " has the sign " + sign);
}

void Objects(World& w, Rng& r) {
  const model::Problem& p = w.p;
  const int o = static_cast<int>(r.Below(p.objects.size())), o2 = static_cast<int>(r.Below(p.objects.size()));
  const bool twin = r.Chance(1, 3);
  LogS("object " + p.objects[o] + " and " + p.objects[o2]);
  struct Got {
    bool eq = false, ne = false, lt = false, gt = false, thash = false;
    bool teq = false, tlt = false, tgt = false, sub = false;
    size_t h1 = 0, h2 = 0;
    std::string name, type, printed, list, none;
    std::vector<std::string> chain;
    std::vector<bool> is;
  } g;
  auto work = [&] {
    g = Got();
    const Object a(twin ? *w.twin : *w.pddl, p.objects[o]), b(*w.pddl, p.objects[o2]);
    g.eq = a == b;
    g.ne = a != b;
    g.lt = a < b;
    g.gt = b < a;
    g.h1 = a.hash();
    g.h2 = b.hash();
    g.thash = std::hash<Object>{}(a) == g.h1;
    g.teq = a.type() == b.type();
    g.tlt = a.type() < b.type();
    g.tgt = b.type() < a.type();
    g.sub = a.type().IsSubtype(b.type());
    g.none = Object::Type().name();
    g.name = a.name();
    g.type = a.type().name();
    g.chain = a.type().ListTypes();
    for (int t = -1; t < static_cast<int>(p.type_names.size()); t++) g.is.push_back(a.type().IsSubtype(p.TypeName(t)));
    for (int t = -1; t < static_cast<int>(p.type_names.size()); t++) {
      // By the type of an object of that type, too.
      for (size_t k = 0; k < p.objects.size(); k++)
        if (p.type_of[k] == t) {
          if (a.type().IsSubtype(Object(*w.pddl, p.objects[k]).type()) != g.is[t + 1]) g.is[t + 1] = !p.IsA(o, t);
          break;
        }
    }
    std::stringstream ss;
    ss.exceptions(std::ios_base::badbit);
    ss << a << "|" << a.type();
    g.printed = ss.str();
    std::stringstream ls;
    ls.exceptions(std::ios_base::badbit);
    ls << std::vector<Object>{a, b, a};
    g.list = ls.str();
  };
  const int done = Attempt("asking about objects", work);
  if (done < 0) return;
  if (done == 0 && !Must("unexpected-error", "again: asking about objects", work)) return;
  const std::string& n = p.objects[o];
  const std::string& n2 = p.objects[o2];
  if (g.name != n) Bad("object", n + " is called " + g.name);
  CheckCompared(n, n2, o == o2, {g.eq, g.ne, g.lt, g.gt});
  if (o == o2 && g.h1 != g.h2) Bad("hash", n + " has two hashes");
  if (!g.thash) Bad("hash", n + " has another standard hash");
  std::vector<std::string> chain;
  for (int t = p.type_of[o]; t >= 0; t = p.parent[t]) chain.push_back(p.TypeName(t));
  chain.push_back("object");
  {
    const int t = p.type_of[o], t2 = p.type_of[o2];
    if (g.teq != (t == t2) || (t == t2 && (g.tlt || g.tgt)) || (t != t2 && g.tlt == g.tgt))
      Bad("type-order", "the types of " + n + " and " + n2 + " compare as " + (g.teq ? "==" : "") + (g.tlt ? "<" : "") + (g.tgt ? ">" : ""));
    if (g.sub != p.IsA(o, t2)) Bad("type", n + (g.sub ? " is" : " is not") + " of the type of " + n2);
  }
  if (g.type != chain[0]) Bad("type", n + " is of type " + g.type + " instead of " + chain[0]);
  if (g.chain != chain) Bad("type", n + " has the types " + Join(g.chain) + " instead of " + Join(chain));
  for (int t = -1; t < static_cast<int>(p.type_names.size()); t++)
    if (g.is[t + 1] != p.IsA(o, t)) Bad("type", n + (g.is[t + 1] ? " is" : " is no") + " " + p.TypeName(t));
  if (g.none != "object") Bad("type", "what has no type is of type " + g.none);
  if (g.printed != n + "|" + chain[0]) Bad("text", n + " is printed as " + g.printed);
  if (g.list != n + ", " + n2 + ", " + n) Bad("text", n + ", " + n2 + ", " + n + " are printed as " + g.list);
}

void States(World& w, Rng& r) {
  const size_t at = r.Below(w.ms.size());
  const symbolic::State& s = w.rs[at];
  const bool twin = r.Chance(1, 3), partial = r.Chance(1, 3);
  LogS(std::string(partial ? "partial state" : "state") + " to text and back");
  std::unordered_set<std::string> pos, neg;
  symbolic::State back;
  symbolic::PartialState pback;
  std::pair<std::set<std::string>, std::set<std::string>> sorted;
  std::string printed;
  bool eq = false, hash = false;
  const symbolic::Pddl& pddl = twin ? *w.twin : *w.pddl;
  auto work = [&] {
    if (partial) {
      auto t = w.rp[at].Stringify();
      sorted = symbolic::Stringify(w.rp[at]);
      pback = symbolic::PartialState(pddl, t.first, t.second);
      pos = std::move(t.first);
      neg = std::move(t.second);
      eq = pback == w.rp[at] && !(pback != w.rp[at]) && !(pback < w.rp[at]) && !(w.rp[at] < pback);
      hash = true;
      std::stringstream ss;
      ss.exceptions(std::ios_base::badbit);
      ss << w.rp[at];
      printed = ss.str();
    } else {
      pos = s.Stringify();
      sorted.first = symbolic::Stringify(s);
      back = symbolic::State(pddl, pos);
      eq = back == s && !(back != s) && !(back < s) && !(s < back);
      hash = std::hash<symbolic::State>{}(back) == std::hash<symbolic::State>{}(s);
      std::stringstream ss;
      ss.exceptions(std::ios_base::badbit);
      ss << s;
      printed = ss.str();
    }
  };
  const int done = Attempt("writing and reading a state", work);
  if (done < 0) return;
  if (done == 0 && !Must("unexpected-error", "again: writing and reading a state", work)) return;
  std::multiset<std::string> want, have;
  if (sorted.first != std::set<std::string>(pos.begin(), pos.end()) || sorted.second != std::set<std::string>(neg.begin(), neg.end()))
    Bad("text", "the sorted text of a state is {" + Join(sorted.first) + "}, not {" + Join(sorted.second) + "} instead of {" + Join(pos) + "}, not {" + Join(neg) + "}");
  if (partial) {
    std::set<std::string> p, n;
    for (auto& f : w.mp[at]) (f.second ? p : n).insert(w.p.Show(f.first));
    if (std::set<std::string>(pos.begin(), pos.end()) != p || std::set<std::string>(neg.begin(), neg.end()) != n) {
      Bad("text", "the text of a partial state is {" + Join(pos) + "}, not {" + Join(neg) + "} instead of " + w.Show(w.mp[at]));
      return;
    }
    model::Partial m;
    if (!w.Read(pback, "partial state read back", &m)) return;
    if (m != w.mp[at] || !eq) Bad("round-trip", "a partial state reads back as " + w.Show(m) + (eq ? "" : ", unequal") + " instead of " + w.Show(w.mp[at]));
    for (const std::string& f : p) want.insert(f);
    for (const std::string& f : n) want.insert("not " + f);
    std::stringstream ss(printed);
    std::string line;
    while (std::getline(ss, line))
      if (!line.empty() && line[0] == '\t') have.insert(line.substr(1));
  } else {
    const auto facts = w.p.Strings(w.ms[at]);
    if (std::set<std::string>(pos.begin(), pos.end()) != facts) {
      Bad("text", "the text of a state is {" + Join(pos) + "} instead of " + w.p.Show(w.ms[at]));
      return;
    }
    const auto b = FactsOf(back, "state read back");
    if (b != facts || !eq || !hash)
      Bad("round-trip", "a state reads back as {" + Join(b) + "}" + (eq ? "" : ", unequal") + (hash ? "" : ", with another hash") + " instead of " + w.p.Show(w.ms[at]));
    for (const std::string& f : facts) want.insert(f);
    // One "name(a, b)" after the other.
    size_t from = 0;
    for (;;) {
      while (from < printed.size() && (printed[from] == '{' || printed[from] == ' ' || printed[from] == ',')) from++;
      const size_t close = printed.find(')', from);
      if (close == std::string::npos) break;
      have.insert(printed.substr(from, close + 1 - from));
      from = close + 1;
    }
  }
  if (have != want) Bad("text", "a state of " + Join(want) + " is printed as " + printed);
}

void Calls(World& w, Rng& r, bool bad) {
  const model::Problem& p = w.p;
  CallText c;
  if (!SomeCall(r, w, bad, nullptr, &c)) return;
  const bool twin = r.Chance(1, 3);
  const symbolic::Pddl& pddl = twin ? *w.twin : *w.pddl;
  if (!bad) {
    std::vector<std::string> names;
    for (int o : c.args) names.push_back(p.objects[o]);
    c.text = Layout(r, p.actions[c.action].name, names, r.Chance(1, 3));
  }
  LogS((bad ? "ill-formed call " : "call ") + c.text);
  std::string name, text, again, own, plain;
  std::vector<std::string> args, args2, args3, list;
  bool same = false;
  auto work = [&] {
    args.clear();
    args2.clear();
    args3.clear();
    auto aa = symbolic::Action::Parse(pddl, c.text);
    name = aa.first.name();
    text = aa.first.to_string(aa.second);
    own = aa.first.to_string();
    const auto back = symbolic::Action::Parse(*w.pddl, text);
    again = back.first.to_string(back.second);
    same = back.first == aa.first && back.second == aa.second && !(back.first < aa.first) && !(aa.first < back.first);
    for (const Object& o : aa.second) args.push_back(o.name());
    for (const Object& o : Object::ParseArguments(pddl, c.text)) args2.push_back(o.name());
    for (const Object& o : Object::ParseArguments(pddl, args)) args3.push_back(o.name());
    list = symbolic::Stringify(aa.second);
    plain = symbolic::Action(pddl, name).to_string();
  };
  if (bad) {
    sim::CurrentRun()->Fired(sim::kBadArgument);
    const Outcome x = Try(work);
    if (x.ok()) Bad("made-up", "the call " + c.text + " was read as " + text);
    else if (x.end == End::kNoMem && !x.fault) Bad("unexpected-error", "reading " + c.text + " ran out of memory");
    return;
  }
  const int done = Attempt("reading " + c.text, work);
  if (done < 0) return;
  if (done == 0 && !Must("unexpected-error", "again: reading " + c.text, work)) return;
  std::vector<std::string> want;
  for (int o : c.args) want.push_back(p.objects[o]);
  const std::string canon = p.Call(p.actions[c.action], c.args);
  if (name != p.actions[c.action].name || args != want || args2 != want || args3 != want || list != want)
    Bad("call", "the call " + c.text + " was read as " + name + " of " + Join(args) + " / " + Join(args2) + " / " + Join(list));
  if (text != canon || again != canon || !same) Bad("round-trip", "the call " + canon + " is written " + text + " and reads back as " + again + (same ? "" : ", unequal"));
  if (own != plain || own.compare(0, name.size() + 1, name + "(") != 0) Bad("text", "the action " + name + " is written " + own + " and " + plain);
}

// Predicates and actions are written with the parameters they have.
void Signatures(World& w, Rng& r) {
  const model::Problem& p = w.p;
  const bool action = r.Chance(1, 2);
  const auto& preds = w.pddl->predicates();
  const auto& actions = w.pddl->actions();
  if (action ? actions.empty() : preds.empty()) return;
  const size_t k = r.Below(action ? actions.size() : preds.size());
  std::vector<std::string> some;
  for (int n = r.Range(0, 3); n > 0; n--) some.push_back(r.Pick(p.objects));
  LogS(std::string("signature of ") + (action ? "an action" : "a predicate"));
  std::string name, text, streamed, of, params_text;
  std::vector<std::string> params;
  auto work = [&] {
    params.clear();
    std::vector<Object> v;
    for (const std::string& o : some) v.emplace_back(*w.pddl, o);
    std::stringstream ss, ps;
    ss.exceptions(std::ios_base::badbit);
    ps.exceptions(std::ios_base::badbit);
    auto read = [&](const auto& x) {
      name = x.name();
      for (const Object& o : x.parameters()) params.push_back(o.name());
      text = x.to_string();
      of = x.to_string(v);
      ss << x;
      ps << x.parameters();
    };
    if (action) read(actions[k]);
    else read(preds[k]);
    streamed = ss.str();
    params_text = ps.str();
  };
  const int done = Attempt("writing a signature", work);
  if (done < 0) return;
  if (done == 0 && !Must("unexpected-error", "again: writing a signature", work)) return;
  auto listed = [](const std::vector<std::string>& v) {
    std::string t;
    for (size_t i = 0; i < v.size(); i++) t += (i == 0 ? "" : ", ") + v[i];
    return t;
  };
  const std::string want = name + "(" + listed(params) + ")";
  if (text != want || streamed != want) Bad("text", want + " is written " + text + " and " + streamed);
  if (of != name + "(" + listed(some) + ")") Bad("text", name + " of " + listed(some) + " is written " + of);
  if (params_text != listed(params)) Bad("text", "the parameters of " + want + " are written " + params_text);
}

// A condition read from what the library writes: an independent reader and interpreter of its text.
struct Text {
  std::string head;         // of a list; empty for a word
  std::string word;
  std::vector<Text> kids;   // of a list, without its head; a quantifier has its body only
  std::vector<std::pair<std::string, int>> vars;  // of a quantifier: names and types
};
class TextReader {
 public:
  TextReader(const model::Problem& p, const std::string& s) : p_(p) {
    std::string t;
    for (char c : s) {
      if (c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t') {
        if (!t.empty()) words_.push_back(t);
        t.clear();
        if (c == '(' || c == ')') words_.push_back(std::string(1, c));
      } else {
        t += c;
      }
    }
    if (!t.empty()) words_.push_back(t);
  }
  bool All(Text* t) { return One(t) && at_ == words_.size(); }

 private:
  bool Is(const char* w) { return at_ < words_.size() && words_[at_] == w && ++at_; }
  bool Word(std::string* w) {
    if (at_ >= words_.size() || words_[at_] == "(" || words_[at_] == ")") return false;
    *w = words_[at_++];
    return true;
  }
  static std::string Name(const std::string& w) { return w[0] == '?' ? w.substr(1) : w; }
  bool One(Text* t) {
    if (!Is("(")) {
      if (!Word(&t->word)) return false;
      t->word = Name(t->word);
      return true;
    }
    if (!Word(&t->head)) return false;
    if (t->head == "forall" || t->head == "exists") {
      if (!Is("(")) return false;
      size_t untyped = 0;
      while (!Is(")")) {
        std::string w;
        if (!Word(&w)) return false;
        if (w == "-") {
          if (!Word(&w)) return false;
          int type = -2;
          for (int k = -1; k < static_cast<int>(p_.type_names.size()); k++)
            if (p_.TypeName(k) == w) type = k;
          if (type == -2 || untyped == t->vars.size()) return false;
          for (; untyped < t->vars.size(); untyped++) t->vars[untyped].second = type;
        } else {
          t->vars.emplace_back(Name(w), -1);
        }
      }
      t->kids.emplace_back();
      return One(&t->kids[0]) && Is(")");
    }
    while (!Is(")")) {
      t->kids.emplace_back();
      if (!One(&t->kids.back())) return false;
    }
    return true;
  }
  const model::Problem& p_;
  std::vector<std::string> words_;
  size_t at_ = 0;
};
// 1 true, 0 false, -1 the text means nothing.
int Meaning(const model::Problem& p, const Text& t, std::vector<std::pair<std::string, int>>& env, const model::State& s) {
  if (t.head == "and" || t.head == "or") {
    int v = t.head == "and";
    for (const Text& k : t.kids) {
      const int x = Meaning(p, k, env, s);
      if (x < 0) return x;
      v = t.head == "and" ? v & x : v | x;
    }
    return v;
  }
  if (t.head == "not") {
    if (t.kids.size() != 1) return -1;
    const int x = Meaning(p, t.kids[0], env, s);
    return x < 0 ? x : 1 - x;
  }
  if (t.head == "forall" || t.head == "exists") {
    std::vector<int> types;
    for (auto& v : t.vars) types.push_back(v.second);
    const bool all = t.head == "forall";
    int v = all;
    for (const std::vector<int>& args : p.Args(types)) {
      for (size_t k = 0; k < args.size(); k++) env.emplace_back(t.vars[k].first, args[k]);
      const int x = Meaning(p, t.kids[0], env, s);
      env.resize(env.size() - args.size());
      if (x < 0) return x;
      v = all ? v & x : v | x;
    }
    return v;
  }
  if (t.head.empty()) return -1;
  std::vector<int> args;
  for (const Text& k : t.kids) {
    if (!k.head.empty()) return -1;
    int o = -1;
    for (auto& v : env)
      if (v.first == k.word) o = v.second;
    if (o < 0) o = p.FindObject(k.word);
    if (o < 0) return -1;
    args.push_back(o);
  }
  if (t.head == "=") return args.size() == 2 ? args[0] == args[1] : -1;
  for (size_t k = 0; k < p.preds.size(); k++)
    if (p.preds[k].name == t.head) {
      model::Atom a;
      a.pred = static_cast<int>(k);
      a.args = args;
      return args.size() == p.preds[k].params.size() ? s.count(a) > 0 : -1;
    }
  for (int k = -1; k < static_cast<int>(p.type_names.size()); k++)
    if (p.TypeName(k) == t.head) return args.size() == 1 ? p.IsA(args[0], k) : -1;
  return -1;
}

// The text of a condition means what the condition means.
void Conditions(World& w, Rng& r) {
  const model::Problem& p = w.p;
  // Variables are written as objects are: the text is ambiguous where an object is called like one.
  if (p.objects[0][0] == 'x') return;
  const bool goal = r.Chance(1, 3) || p.actions.empty();
  const size_t a = goal ? 0 : r.Below(p.actions.size());
  const size_t at = r.Below(w.ms.size());
  const std::vector<std::vector<int>> all = goal ? std::vector<std::vector<int>>{{}} : p.Args(p.actions[a].params);
  LogS("text of " + (goal ? std::string("the goal") : "the precondition of " + p.actions[a].name));
  std::string text, printed;
  std::vector<std::string> names;
  auto work = [&] {
    names.clear();
    if (goal) {
      text = w.pddl->goal().to_string();
    } else {
      const symbolic::Action action(*w.pddl, p.actions[a].name);
      for (const Object& o : action.parameters()) names.push_back(o.name());
      text = action.preconditions().to_string();
    }
    std::stringstream ss;
    ss.exceptions(std::ios_base::badbit);
    if (goal) ss << w.pddl->goal();
    else ss << symbolic::Action(*w.pddl, p.actions[a].name).preconditions();
    printed = ss.str();
  };
  const int done = Attempt("writing a condition", work);
  if (done < 0) return;
  if (done == 0 && !Must("unexpected-error", "again: writing a condition", work)) return;
  if (printed != text) Bad("text", "a condition is written " + text + " and " + printed);
  const std::string of = goal ? "the goal " : "the precondition of " + p.actions[a].name + " ";
  Text t;
  if (!TextReader(p, text).All(&t)) {
    Bad("condition-text", of + "is written " + text);
    return;
  }
  for (int n = 0; n < 4 && !all.empty(); n++) {
    const std::vector<int>& args = all[r.Below(all.size())];
    const model::State s = n == 0 ? w.ms[at] : p.RandomState(r, true);
    const bool want = p.Holds(goal ? p.goal : p.actions[a].pre, args, s);
    std::vector<std::pair<std::string, int>> env;
    for (size_t k = 0; k < args.size(); k++) env.emplace_back(k < names.size() ? names[k] : "", args[k]);
    const int have = Meaning(p, t, env, s);
    if (have != want) {
      std::vector<std::string> list;
      for (int o : args) list.push_back(p.objects[o]);
      Bad("condition-text", of + (want ? "holds" : "does not hold") + " for (" + Join(list) + ") in " + p.Show(s) + " but its text " +
                                (have < 0 ? "means nothing: " : have ? "does: " : "does not: ") + text);
      return;
    }
  }
}

// Text naming nothing there is, among text that does: refused as a whole.
void Unknown(World& w, Rng& r) {
  const model::Problem& p = w.p;
  const size_t at = r.Below(w.ms.size());
  model::Atom a = w.atoms[r.Below(w.atoms.size())];
  if (a.args.empty()) return;
  std::vector<std::string> names = ArgNames(w, a);
  static const char* const nobody[] = {"nobody", "Nobody", "?x0", "object"};
  std::string& name = names[r.Below(names.size())];
  const std::string old = name;
  const int how = r.Range(0, 5);
  name = how < 4 ? nobody[how] : how == 4 ? name + "x" : name.substr(0, name.size() - 1) + "#";
  if (p.FindObject(name) >= 0) return;
  const std::string text = Layout(r, p.preds[a.pred].name, names, true);
  const int what = r.Range(0, 4);
  LogS("unknown object in " + text);
  sim::CurrentRun()->Fired(sim::kBadArgument);
  symbolic::State s = w.rs[at];
  symbolic::PartialState ps = w.rp[at];
  bool answered = false;
  std::string made;
  const Outcome x = Try([&] {
    switch (what) {
      case 0: made = Proposition(*w.pddl, text).to_string(); break;
      case 1: s.emplace(*w.pddl, text); break;
      case 2: ps.emplace(*w.pddl, text); break;
      case 3: {
        auto facts = w.rs[at].Stringify();
        facts.insert(text);
        made = std::to_string(symbolic::State(*w.pddl, facts).size());
        break;
      }
      default: made = Object(*w.pddl, name).name(); break;
    }
    answered = true;
  });
  if (answered) Bad("made-up", text + " was read although there is no object " + name + " (" + made + ")");
  else if (x.end == End::kNoMem && !x.fault) Bad("unexpected-error", "reading " + text + " ran out of memory");
  if (FactsOf(s, "state") != p.Strings(w.ms[at])) Bad("changed", "a state was changed by a fact that could not be read");
  model::Partial m;
  if (!w.Read(ps, "partial state", &m)) return;
  if (m != w.mp[at]) Bad("changed", "a partial state was changed by a fact that could not be read");
}

// Written to a device that is full after a while: what is written is the beginning of the text, and
// the stream says so.
void Full(World& w, Rng& r) {
  const size_t at = r.Below(w.ms.size()), f = r.Below(w.shared.size());
  const int what = r.Range(0, 5);
  if (what >= 3 && w.pddl->actions().empty()) return;
  const size_t k = what >= 3 ? r.Below(w.pddl->actions().size()) : 0;
  auto write = [&](std::ostream& os) {
    switch (what) {
      case 0: os << w.shared[f]; break;
      case 1: os << w.rs[at]; break;
      case 2: os << w.rp[at]; break;
      case 3: os << w.pddl->actions()[k]; break;
      case 4: os << w.pddl->actions()[k].preconditions(); break;
      default: os << w.pddl->actions()[k].parameters(); break;
    }
  };
  FullBuf all(1u << 20);
  bool good = false;
  if (!Must("unexpected-error", "writing", [&] {
        std::ostream os(&all);
        write(os);
        good = os.good();
      }))
    return;
  if (!good) Bad("text", "a stream with room failed");
  const size_t room = r.Below(all.text.size() + 2);
  LogS("a device with room for " + std::to_string(room) + " of " + std::to_string(all.text.size()) + " characters, text " + std::to_string(what));
  FullBuf some(room);
  bool failed = false;
  if (!Must("unexpected-error", "writing to a full device", [&] {
        std::ostream os(&some);
        write(os);
        failed = os.fail();
      }))
    return;
  if (room < all.text.size()) sim::CurrentRun()->Fired(sim::kFullDevice);
  const bool cut = room < all.text.size();
  if (some.text != all.text.substr(0, room)) Bad("text", "a full device got " + some.text + " of " + all.text);
  if (failed != cut) Bad("text", cut ? "a full device went unnoticed" : "a device that is just full is taken to have failed");
}

void Build(Run& run) {
  Rng& rng = run.rng;
  auto w = run.Keep<World>();
  model::Options o;
  o.max_objects = rng.Range(2, 6);
  o.max_action_arity = rng.Chance(1, 5) ? 3 : 2;
  o.outsize = 10;
  o.max_preds = 5;
  o.max_actions = 4;
  o.max_types = 4;
  o.max_depth = 2;
  o.max_arity = rng.Range(1, 3);
  if (rng.Chance(1, 4)) o.max_axioms = 2;
  if (rng.Chance(1, 4)) o.max_rules = 2;
  if (!BuildQWorld(run, w.get(), o, rng.Range(1, 3))) return;
  w->atoms = w->p.AllAtoms();
  rng.Shuffle(w->atoms);
  if (w->atoms.size() > 12) w->atoms.resize(12);
  if (w->atoms.empty()) return;
  for (const model::Atom& a : w->atoms) w->shared.push_back(w->Fact(a));
  if (!Must("load", "loading the problem again", [&] { w->twin = std::make_unique<symbolic::Pddl>("/simfs/d.pddl", w->p.ProblemText()); })) return;
  const int clients = rng.Chance(1, 3) ? 1 : rng.Range(2, 4);
  const int ops = clients == 1 ? rng.Range(6, 18) : rng.Range(3, 8);
  NewOwn(w.get(), clients);
  static const Kinds others = {{kNextState, 3}, {kActionValid, 3}, {kPrint, 4}, {kFactText, 3}, {kTupleText, 2},
                               {kListActionsText, 2}, {kListArgumentsText, 2}, {kGoalText, 2}, {kOwnStep, 3}};
  for (int c = 0; c < clients; c++) {
    run.AddClient();
    for (int k = 0; k < ops; k++) {
      const uint64_t sub = rng.Next();
      const int kind = rng.Range(0, 18);
      static const char* const names[] = {"facts", "facts", "facts", "facts", "references", "references", "objects", "objects",
                                          "state text", "state text", "call text", "call text", "ill-formed call", "unknown object",
                                          "full device", "text query", "signature",
                                          "condition", "condition"};
      sim::Op& op = run.AddOp(c, names[kind], [=] {
        Rng r(sub);
        if (kind < 4) Facts(*w, r);
        else if (kind < 6) References(*w, r);
        else if (kind < 8) Objects(*w, r);
        else if (kind < 10) States(*w, r);
        else if (kind < 12) Calls(*w, r, false);
        else if (kind == 12) Calls(*w, r, true);
        else if (kind == 13) Unknown(*w, r);
        else if (kind == 14) Full(*w, r);
        else if (kind == 16) Signatures(*w, r);
        else if (kind > 16) Conditions(*w, r);
        else {
          const Query q = DrawQuery(r, *w, c, others, false);
          if (!q) return;
          LogS(q.label);
          if (Answer(q) && q.commit) q.commit();
        }
        if (!sim::CurrentRun()->failed() && r.Chance(1, 3)) CheckUntouched(*w, c, std::string("after ") + names[kind]);
      });
      if (kind == 14) run.Planned(sim::kFullDevice);
      else if (kind != 15 && rng.Chance(1, 3)) AddAllocFault(run, op, rng, 30, 3);
    }
  }
  run.AtEnd([=] {
    CheckUntouched(*w, -1, "at the end");
    for (size_t k = 0; k < w->shared.size(); k++)
      if (ShowFact(w->shared[k]) != w->p.Show(w->atoms[k])) Bad("changed", "shared " + w->p.Show(w->atoms[k]) + " has become " + ShowFact(w->shared[k]));
  });
}

sim::Register reg({"C17", Build,
                   "One run: 1-4 clients make facts, objects, calls and states of one random problem and of a second load of it in eleven "
                   "ways (parts, text of any layout, references, copies, moves, signed), compare, hash, order, write and read them back, "
                   "with failing allocations, full devices, unknown names and ill-formed calls; names are the identity in the reference "
                   "model. Non-trivial: at least 3 operations ran.",
                   [](const sim::RunResult& r) { return r.ops_run >= 3; },
                   {"src/proposition.cc", "src/object.cc", "src/state.cc", "src/action.cc", "src/predicate.cc", "src/pddl.cc",
                    "src/formula.cc", "include/symbolic/proposition.h", "include/symbolic/object.h", "include/symbolic/state.h"},
                   {"thread scheduler (seeded)", "allocator (fault-injecting)", "output device (full after any character)",
                    "VAL parser (stand-in)"},
                   {"preemption happens at memory accesses, with sequentially consistent memory",
                    "text outside the form name(arguments) is not judged"}});
}  // namespace
SIM_HARNESS_END
