// Stand-in for VAL's parse tree (the VAL submodule is not available offline). Same names, shapes and
// ownership rules as far as the repository uses them: an analysis owns everything that was parsed,
// except that the objects of a problem belong to the problem's own list.
#ifndef VALSTUB_PTREE_H_
#define VALSTUB_PTREE_H_

#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

using std::istream;
using std::ostream;
using std::string;

class yyFlexLexer;
extern int line_no;
extern const char* current_filename;

namespace VAL {

class parse_category {
 public:
  virtual ~parse_category() = default;
};

class symbol : public parse_category {
 public:
  explicit symbol(const std::string& name) : name_(name) {}
  std::string getName() const { return name_; }
  const std::string& getNameRef() const { return name_; }

 private:
  std::string name_;
};

class pddl_type;
class pddl_typed_symbol : public symbol {
 public:
  explicit pddl_typed_symbol(const std::string& name) : symbol(name) {}
  pddl_type* type = nullptr;
};
class pddl_type : public pddl_typed_symbol {
 public:
  explicit pddl_type(const std::string& name) : pddl_typed_symbol(name) {}
};
class parameter_symbol : public pddl_typed_symbol {
 public:
  explicit parameter_symbol(const std::string& name) : pddl_typed_symbol(name) {}
};
class var_symbol : public parameter_symbol {
 public:
  explicit var_symbol(const std::string& name) : parameter_symbol(name) {}
};
class const_symbol : public parameter_symbol {
 public:
  explicit const_symbol(const std::string& name) : parameter_symbol(name) {}
};
class pred_symbol : public symbol {
 public:
  explicit pred_symbol(const std::string& name) : symbol(name) {}
};
class operator_symbol : public symbol {
 public:
  explicit operator_symbol(const std::string& name) : symbol(name) {}
};

template <typename T>
class typed_symbol_list : public std::list<T*>, public parse_category {};
using pddl_type_list = typed_symbol_list<pddl_type>;
using parameter_symbol_list = typed_symbol_list<parameter_symbol>;
using var_symbol_list = typed_symbol_list<var_symbol>;
using const_symbol_list = typed_symbol_list<const_symbol>;

class pred_decl : public parse_category {
 public:
  pred_decl(pred_symbol* h, var_symbol_list* a) : head_(h), args_(a) {}
  const pred_symbol* getPred() const { return head_; }
  const var_symbol_list* getArgs() const { return args_; }

 private:
  pred_symbol* head_;
  var_symbol_list* args_;
};
using pred_decl_list = std::list<pred_decl*>;

class proposition : public parse_category {
 public:
  pred_symbol* head = nullptr;
  parameter_symbol_list* args = nullptr;
};

class goal : public parse_category {};
using goal_list = std::list<goal*>;
enum quantifier { E_FORALL, E_EXISTS };

class simple_goal : public goal {
 public:
  explicit simple_goal(proposition* p) : prop_(p) {}
  const proposition* getProp() const { return prop_; }

 private:
  proposition* prop_;
};
class conj_goal : public goal {
 public:
  const goal_list* getGoals() const { return &goals; }
  goal_list goals;
};
class disj_goal : public goal {
 public:
  const goal_list* getGoals() const { return &goals; }
  goal_list goals;
};
class neg_goal : public goal {
 public:
  explicit neg_goal(goal* g) : g_(g) {}
  const goal* getGoal() const { return g_; }

 private:
  goal* g_;
};
class qfied_goal : public goal {
 public:
  qfied_goal(quantifier q, var_symbol_list* v, goal* g) : q_(q), v_(v), g_(g) {}
  quantifier getQuantifier() const { return q_; }
  const var_symbol_list* getVars() const { return v_; }
  const goal* getGoal() const { return g_; }

 private:
  quantifier q_;
  var_symbol_list* v_;
  goal* g_;
};
class con_goal : public goal {};
class constraint_goal : public goal {};
class preference : public goal {};
class imply_goal : public goal {};
class timed_goal : public goal {};
class comparison : public goal {};

class effect_lists;
class simple_effect : public parse_category {
 public:
  explicit simple_effect(proposition* p) : prop(p) {}
  proposition* prop;
};
class forall_effect : public parse_category {
 public:
  forall_effect(var_symbol_list* v, effect_lists* e) : v_(v), e_(e) {}
  const var_symbol_list* getVarsList() const { return v_; }
  const effect_lists* getEffects() const { return e_; }

 private:
  var_symbol_list* v_;
  effect_lists* e_;
};
class cond_effect : public parse_category {
 public:
  cond_effect(goal* c, effect_lists* e) : c_(c), e_(e) {}
  const goal* getCondition() const { return c_; }
  const effect_lists* getEffects() const { return e_; }

 private:
  goal* c_;
  effect_lists* e_;
};
class effect_lists : public parse_category {
 public:
  std::list<simple_effect*> add_effects;
  std::list<simple_effect*> del_effects;
  std::list<forall_effect*> forall_effects;
  std::list<cond_effect*> cond_effects;
};

class operator_ : public parse_category {
 public:
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class action : public operator_ {};
class axiom : public operator_ {};
using operator_list = std::list<operator_*>;

class derivation_rule : public parse_category {
 public:
  derivation_rule(proposition* h, goal* b) : h_(h), b_(b) {}
  const proposition* get_head() const { return h_; }
  const goal* get_body() const { return b_; }

 private:
  proposition* h_;
  goal* b_;
};
using derivations_list = std::list<derivation_rule*>;

using pddl_req_flag = unsigned long;
std::string pddl_req_flags_string(pddl_req_flag flags);

class domain : public parse_category {
 public:
  std::string name;
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pred_decl_list* predicates = nullptr;
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;

  pred_decl_list predicates_store;
  operator_list ops_store;
  derivations_list drvs_store;
};

class problem : public parse_category {
 public:
  ~problem() override;
  std::string name;
  std::string domain_name;
  pddl_req_flag req = 0;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
};

class parse_error_list {
 public:
  void report() {}
  std::vector<std::string> errors;
};

class analysis {
 public:
  analysis() = default;
  analysis(const analysis&) = delete;
  ~analysis();

  domain* the_domain = nullptr;
  problem* the_problem = nullptr;
  parse_error_list error_list;

  std::vector<parse_category*> owned;
  std::map<std::string, pred_symbol*> preds;
  std::map<std::string, pddl_type*> types;
  std::map<std::string, const_symbol*> constants;

  template <typename T, typename... A>
  T* Own(A&&... a) {
    owned.reserve(owned.size() + 1 > owned.capacity() ? 2 * owned.size() + 16 : owned.size());
    T* t = new T(std::forward<A>(a)...);
    owned.push_back(t);
    return t;
  }
};

extern parse_category* top_thing;
extern analysis* current_analysis;
extern yyFlexLexer* yfl;
extern bool Verbose;
extern std::ostream* report;

}  // namespace VAL

#endif
