// Recursive-descent reader behind the stand-in VAL interface. One yyparse() reads one top-level
// (define ...) form from the lexer's stream. the_domain / the_problem are set only after the form
// was read completely and without error.
#include <VAL/FlexLexer.h>
#include <VAL/ptree.h>

#include <unistd.h>

#include <cctype>
#include <cstdlib>
#include <stdexcept>

int line_no = 1;
const char* current_filename = nullptr;
int yydebug = 0;

namespace VAL {
std::string pddl_req_flags_string(pddl_req_flag) { return ""; }
problem::~problem() {
  if (objects == nullptr) return;
  for (const_symbol* s : *objects) delete s;
  objects->clear();
}
analysis::~analysis() {
  delete the_problem;
  for (size_t i = owned.size(); i > 0; i--) delete owned[i - 1];
}
}  // namespace VAL

namespace {

using namespace VAL;

struct SyntaxError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct Sexp {
  bool atom = false;
  std::string text;
  std::vector<Sexp> list;
};

class Reader {
 public:
  explicit Reader(const std::string& s) : s_(s) {}
  Sexp ReadForm() {
    Skip();
    if (p_ >= s_.size()) throw SyntaxError("unexpected end of input");
    Sexp e;
    if (s_[p_] == '(') {
      p_++;
      for (;;) {
        Skip();
        if (p_ >= s_.size()) throw SyntaxError("unexpected end of input");
        if (s_[p_] == ')') {
          p_++;
          return e;
        }
        e.list.push_back(ReadForm());
      }
    }
    if (s_[p_] == ')') throw SyntaxError("unexpected )");
    e.atom = true;
    while (p_ < s_.size() && !isspace(static_cast<unsigned char>(s_[p_])) && s_[p_] != '(' && s_[p_] != ')' &&
           s_[p_] != ';') {
      e.text += s_[p_++];
    }
    return e;
  }

 private:
  void Skip() {
    while (p_ < s_.size()) {
      if (s_[p_] == ';') {
        while (p_ < s_.size() && s_[p_] != '\n') p_++;
      } else if (isspace(static_cast<unsigned char>(s_[p_]))) {
        if (s_[p_] == '\n') line_no++;
        p_++;
      } else {
        return;
      }
    }
  }
  const std::string& s_;
  size_t p_ = 0;
};

const std::string& Atom(const Sexp& e) {
  if (!e.atom) throw SyntaxError("expected a name");
  return e.text;
}
const std::vector<Sexp>& List(const Sexp& e) {
  if (e.atom) throw SyntaxError("expected a list");
  return e.list;
}

using Scope = std::map<std::string, parameter_symbol*>;

class Builder {
 public:
  explicit Builder(analysis* a) : a_(*a) {}

  void Define(const Sexp& form) {
    const auto& l = List(form);
    if (l.size() < 2 || Atom(l[0]) != "define") throw SyntaxError("expected (define ...)");
    const auto& head = List(l[1]);
    if (head.size() != 2) throw SyntaxError("bad header");
    if (Atom(head[0]) == "domain") {
      Domain(Atom(head[1]), l);
    } else if (Atom(head[0]) == "problem") {
      Problem(Atom(head[1]), l);
    } else {
      throw SyntaxError("bad header");
    }
  }

 private:
  // As in VAL, what is declared without a type has none.
  pddl_type* Type(const std::string& name) {
    if (name.empty()) return nullptr;
    auto it = a_.types.find(name);
    if (it == a_.types.end()) throw SyntaxError("undeclared type " + name);
    return it->second;
  }

  // names - type names - type ...
  template <typename F>
  void Typed(const std::vector<Sexp>& l, size_t from, F emit) {
    size_t first = from;
    for (size_t i = from; i < l.size(); i++) {
      if (Atom(l[i]) != "-") continue;
      if (i + 1 >= l.size()) throw SyntaxError("missing type");
      for (size_t j = first; j < i; j++) emit(Atom(l[j]), Atom(l[i + 1]));
      first = ++i + 1;
    }
    for (size_t j = first; j < l.size(); j++) emit(Atom(l[j]), std::string());
  }

  pddl_type* NewType(const std::string& name) {
    auto it = a_.types.find(name);
    if (it != a_.types.end()) return it->second;
    pddl_type* t = a_.Own<pddl_type>(name);
    a_.types[name] = t;
    return t;
  }

  var_symbol_list* Vars(const std::vector<Sexp>& l, size_t from, Scope* scope) {
    var_symbol_list* vars = a_.Own<var_symbol_list>();
    Typed(l, from, [&](const std::string& n, const std::string& t) {
      if (n.size() < 2 || n[0] != '?') throw SyntaxError("expected a variable, found " + n);
      var_symbol* v = a_.Own<var_symbol>(n.substr(1));
      v->type = Type(t);
      vars->push_back(v);
      if (scope != nullptr) (*scope)[v->getName()] = v;
    });
    return vars;
  }

  parameter_symbol* Term(const std::string& n, const Scope& scope) {
    if (!n.empty() && n[0] == '?') {
      auto it = scope.find(n.substr(1));
      if (it == scope.end()) throw SyntaxError("undeclared variable " + n);
      return it->second;
    }
    auto it = a_.constants.find(n);
    if (it != a_.constants.end()) return it->second;
    auto io = objects_.find(n);
    if (io != objects_.end()) return io->second;
    throw SyntaxError("undeclared object " + n);
  }

  pred_symbol* Pred(const std::string& n, size_t arity, bool declare) {
    auto it = a_.preds.find(n);
    if (it != a_.preds.end()) return it->second;
    if (!declare && n != "=" && !(arity == 1 && a_.types.count(n) > 0)) {
      throw SyntaxError("undeclared predicate " + n);
    }
    pred_symbol* p = a_.Own<pred_symbol>(n);
    a_.preds[n] = p;
    return p;
  }

  proposition* Prop(const Sexp& e, const Scope& scope) {
    const auto& l = List(e);
    if (l.empty()) throw SyntaxError("empty proposition");
    proposition* p = a_.Own<proposition>();
    p->head = Pred(Atom(l[0]), l.size() - 1, false);
    p->args = a_.Own<parameter_symbol_list>();
    for (size_t i = 1; i < l.size(); i++) p->args->push_back(Term(Atom(l[i]), scope));
    return p;
  }

  goal* Goal(const Sexp& e, const Scope& scope) {
    const auto& l = List(e);
    if (l.empty()) return a_.Own<conj_goal>();
    const std::string& h = Atom(l[0]);
    if (h == "and") {
      conj_goal* g = a_.Own<conj_goal>();
      for (size_t i = 1; i < l.size(); i++) g->goals.push_back(Goal(l[i], scope));
      return g;
    }
    if (h == "or") {
      disj_goal* g = a_.Own<disj_goal>();
      for (size_t i = 1; i < l.size(); i++) g->goals.push_back(Goal(l[i], scope));
      return g;
    }
    if (h == "not") {
      if (l.size() != 2) throw SyntaxError("bad not");
      return a_.Own<neg_goal>(Goal(l[1], scope));
    }
    if (h == "forall" || h == "exists") {
      if (l.size() != 3) throw SyntaxError("bad quantifier");
      Scope inner = scope;
      var_symbol_list* v = Vars(List(l[1]), 0, &inner);
      return a_.Own<qfied_goal>(h == "forall" ? E_FORALL : E_EXISTS, v, Goal(l[2], inner));
    }
    return a_.Own<simple_goal>(Prop(e, scope));
  }

  void Effect(const Sexp& e, const Scope& scope, effect_lists* out) {
    const auto& l = List(e);
    if (l.empty()) return;
    const std::string& h = Atom(l[0]);
    if (h == "and") {
      for (size_t i = 1; i < l.size(); i++) Effect(l[i], scope, out);
    } else if (h == "not") {
      if (l.size() != 2) throw SyntaxError("bad not");
      out->del_effects.push_back(a_.Own<simple_effect>(Prop(l[1], scope)));
    } else if (h == "forall") {
      if (l.size() != 3) throw SyntaxError("bad forall");
      Scope inner = scope;
      var_symbol_list* v = Vars(List(l[1]), 0, &inner);
      effect_lists* sub = a_.Own<effect_lists>();
      Effect(l[2], inner, sub);
      out->forall_effects.push_back(a_.Own<forall_effect>(v, sub));
    } else if (h == "when") {
      if (l.size() != 3) throw SyntaxError("bad when");
      goal* c = Goal(l[1], scope);
      effect_lists* sub = a_.Own<effect_lists>();
      Effect(l[2], scope, sub);
      out->cond_effects.push_back(a_.Own<cond_effect>(c, sub));
    } else {
      out->add_effects.push_back(a_.Own<simple_effect>(Prop(e, scope)));
    }
  }

  void Operator(const std::vector<Sexp>& l, bool is_axiom, domain* d) {
    operator_* op = is_axiom ? static_cast<operator_*>(a_.Own<axiom>()) : a_.Own<VAL::action>();
    size_t i = 1;
    std::string name = "axiom";
    if (!is_axiom) {
      if (l.size() < 2) throw SyntaxError("action without a name");
      name = Atom(l[i++]);
    }
    op->name = a_.Own<operator_symbol>(name);
    Scope scope;
    for (; i + 1 < l.size(); i += 2) {
      const std::string& key = Atom(l[i]);
      if (key == ":parameters" || key == ":vars") {
        op->parameters = Vars(List(l[i + 1]), 0, &scope);
      } else if (key == ":precondition" || key == ":context") {
        op->precondition = Goal(l[i + 1], scope);
      } else if (key == ":effect" || key == ":implies") {
        op->effects = a_.Own<effect_lists>();
        Effect(l[i + 1], scope, op->effects);
      } else {
        throw SyntaxError("unknown key " + key);
      }
    }
    if (i != l.size()) throw SyntaxError("odd action body");
    if (op->parameters == nullptr) op->parameters = a_.Own<var_symbol_list>();
    if (op->precondition == nullptr) op->precondition = a_.Own<conj_goal>();
    if (op->effects == nullptr) op->effects = a_.Own<effect_lists>();
    d->ops_store.push_back(op);
  }

  void Domain(const std::string& name, const std::vector<Sexp>& l) {
    domain* d = a_.Own<domain>();
    d->name = name;
    d->ops = &d->ops_store;
    d->drvs = &d->drvs_store;
    NewType("object");
    for (size_t i = 2; i < l.size(); i++) {
      const auto& s = List(l[i]);
      if (s.empty()) throw SyntaxError("empty section");
      const std::string& key = Atom(s[0]);
      if (key == ":requirements") {
      } else if (key == ":types") {
        d->types = a_.Own<pddl_type_list>();
        std::vector<std::pair<std::string, std::string>> decls;
        Typed(s, 1, [&](const std::string& n, const std::string& t) { decls.emplace_back(n, t.empty() ? "object" : t); });
        for (auto& p : decls) {
          pddl_type* t = NewType(p.first);
          pddl_type* parent = NewType(p.second);
          if (t == parent) continue;
          t->type = parent;
          d->types->push_back(t);
        }
        d->types->push_back(NewType("object"));
      } else if (key == ":constants") {
        d->constants = a_.Own<const_symbol_list>();
        Typed(s, 1, [&](const std::string& n, const std::string& t) {
          const_symbol* c = a_.Own<const_symbol>(n);
          c->type = Type(t);
          d->constants->push_back(c);
          a_.constants[n] = c;
        });
      } else if (key == ":predicates") {
        d->predicates = &d->predicates_store;
        for (size_t j = 1; j < s.size(); j++) {
          const auto& p = List(s[j]);
          if (p.empty()) throw SyntaxError("empty predicate");
          pred_symbol* h = Pred(Atom(p[0]), p.size() - 1, true);
          d->predicates_store.push_back(a_.Own<pred_decl>(h, Vars(p, 1, nullptr)));
        }
      } else if (key == ":action") {
        Operator(s, false, d);
      } else if (key == ":axiom") {
        Operator(s, true, d);
      } else if (key == ":derived") {
        if (s.size() != 3) throw SyntaxError("bad derived");
        const auto& h = List(s[1]);
        if (h.empty()) throw SyntaxError("bad derived head");
        Scope scope;
        Vars(h, 1, &scope);
        proposition* p = a_.Own<proposition>();
        p->head = Pred(Atom(h[0]), h.size() - 1, false);
        p->args = a_.Own<parameter_symbol_list>();
        for (size_t j = 1; j < h.size(); j++) {
          if (Atom(h[j]) == "-") {
            j++;
            continue;
          }
          p->args->push_back(scope.at(Atom(h[j]).substr(1)));
        }
        d->drvs_store.push_back(a_.Own<derivation_rule>(p, Goal(s[2], scope)));
      } else {
        throw SyntaxError("unknown section " + key);
      }
    }
    if (d->types == nullptr) {
      d->types = a_.Own<pddl_type_list>();
      d->types->push_back(NewType("object"));
    }
    a_.the_domain = d;
  }

  void Problem(const std::string& name, const std::vector<Sexp>& l) {
    if (a_.the_domain == nullptr) throw SyntaxError("problem without a domain");
    std::unique_ptr<problem> p = std::make_unique<problem>();
    p->name = name;
    for (size_t i = 2; i < l.size(); i++) {
      const auto& s = List(l[i]);
      if (s.empty()) throw SyntaxError("empty section");
      const std::string& key = Atom(s[0]);
      if (key == ":domain") {
        if (s.size() != 2) throw SyntaxError("bad :domain");
        p->domain_name = Atom(s[1]);
        if (p->domain_name != a_.the_domain->name) throw SyntaxError("problem is for another domain");
      } else if (key == ":objects") {
        if (p->objects == nullptr) p->objects = a_.Own<const_symbol_list>();
        Typed(s, 1, [&](const std::string& n, const std::string& t) {
          pddl_type* type = Type(t);
          std::unique_ptr<const_symbol> c = std::make_unique<const_symbol>(n);
          c->type = type;
          p->objects->push_back(c.get());
          const_symbol* raw = c.release();
          objects_[n] = raw;
        });
      } else if (key == ":init") {
        if (p->initial_state == nullptr) p->initial_state = a_.Own<effect_lists>();
        for (size_t j = 1; j < s.size(); j++) Effect(s[j], Scope(), p->initial_state);
      } else if (key == ":goal") {
        if (s.size() != 2) throw SyntaxError("bad :goal");
        p->the_goal = Goal(s[1], Scope());
      } else {
        throw SyntaxError("unknown section " + key);
      }
    }
    a_.the_problem = p.release();
  }

  analysis& a_;
  std::map<std::string, const_symbol*> objects_;
};

}  // namespace

int yyparse() {
  std::istream* in = VAL::yfl->input();
  std::string text;
  char buf[512];
  while (in->good()) {
    in->read(buf, sizeof(buf));
    text.append(buf, static_cast<size_t>(in->gcount()));
  }
  if (in->bad()) {
    // What a flex scanner does.
    static const char message[] = "input in flex scanner failed\n";
    if (write(2, message, sizeof(message) - 1) < 0) abort();
    _exit(2);
  }
  try {
    Reader reader(text);
    const Sexp form = reader.ReadForm();
    Builder(VAL::current_analysis).Define(form);
  } catch (const SyntaxError& e) {
    VAL::current_analysis->error_list.errors.push_back(e.what());
    return 1;
  }
  return 0;
}
