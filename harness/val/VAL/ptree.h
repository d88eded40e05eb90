// Stand-in for the parts of VAL (KCL-Planning/VAL) that tmigimatsu/symbolic
// uses: the parse tree and a PDDL parser.  VAL itself is not available in this
// sandbox; this header gives the library's unmodified sources the names they
// include.  The parse tree mirrors VAL's: lower-cased names, variables without
// their '?', a var_symbol per binding occurrence resolved to the innermost
// scope, effects sorted into lists, null lists for absent sections.
#ifndef VERIF_VAL_PTREE_H_
#define VERIF_VAL_PTREE_H_

#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

// VAL's ptree.h puts these at global scope, and the library relies on it.
using std::list;
using std::map;
using std::ostream;
using std::pair;
using std::string;
using std::vector;

extern int line_no;

namespace VAL {

struct parse_category {
  virtual ~parse_category() = default;
};

class symbol : public parse_category {
 public:
  symbol() = default;
  explicit symbol(const std::string& s) : name(s) {}
  std::string getName() const { return name; }
  const std::string& getNameRef() const { return name; }

 protected:
  std::string name;
};

class pddl_type;

class pddl_typed_symbol : public symbol {
 public:
  pddl_typed_symbol() = default;
  explicit pddl_typed_symbol(const std::string& s) : symbol(s) {}
  pddl_type* type = nullptr;
};

class pddl_type : public pddl_typed_symbol {
 public:
  explicit pddl_type(const std::string& s) : pddl_typed_symbol(s) {}
};

class parameter_symbol : public pddl_typed_symbol {
 public:
  parameter_symbol() = default;
  explicit parameter_symbol(const std::string& s) : pddl_typed_symbol(s) {}
};

class var_symbol : public parameter_symbol {
 public:
  explicit var_symbol(const std::string& s) : parameter_symbol(s) {}
};

class const_symbol : public parameter_symbol {
 public:
  explicit const_symbol(const std::string& s) : parameter_symbol(s) {}
};

class pred_symbol : public symbol {
 public:
  explicit pred_symbol(const std::string& s) : symbol(s) {}
};

class operator_symbol : public symbol {
 public:
  explicit operator_symbol(const std::string& s) : symbol(s) {}
};

template <typename T>
class pc_list : public std::list<T>, public parse_category {};

template <typename T>
class typed_symbol_list : public pc_list<T*> {};

using pddl_type_list = typed_symbol_list<pddl_type>;
using parameter_symbol_list = typed_symbol_list<parameter_symbol>;
using var_symbol_list = typed_symbol_list<var_symbol>;
using const_symbol_list = typed_symbol_list<const_symbol>;

class proposition : public parse_category {
 public:
  proposition(pred_symbol* h, parameter_symbol_list* a) : head(h), args(a) {}
  pred_symbol* head;
  parameter_symbol_list* args;
};

class pred_decl : public parse_category {
 public:
  pred_decl(pred_symbol* h, var_symbol_list* a) : head(h), args(a) {}
  const pred_symbol* getPred() const { return head; }
  const var_symbol_list* getArgs() const { return args; }

 protected:
  pred_symbol* head;
  var_symbol_list* args;
};
class pred_decl_list : public pc_list<pred_decl*> {};

// Goals.
class goal : public parse_category {};
class goal_list : public pc_list<goal*> {};
class simple_goal : public goal {
 public:
  explicit simple_goal(proposition* p) : prop(p) {}
  const proposition* getProp() const { return prop; }

 private:
  proposition* prop;
};
enum quantifier { E_FORALL, E_EXISTS };
class qfied_goal : public goal {
 public:
  qfied_goal(quantifier q, var_symbol_list* v, goal* g)
      : qfier(q), vars(v), gl(g) {}
  quantifier getQuantifier() const { return qfier; }
  const var_symbol_list* getVars() const { return vars; }
  const goal* getGoal() const { return gl; }

 private:
  quantifier qfier;
  var_symbol_list* vars;
  goal* gl;
};
class conj_goal : public goal {
 public:
  explicit conj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }

 private:
  goal_list* goals;
};
class disj_goal : public goal {
 public:
  explicit disj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }

 private:
  goal_list* goals;
};
class neg_goal : public goal {
 public:
  explicit neg_goal(goal* g) : gl(g) {}
  const goal* getGoal() const { return gl; }

 private:
  goal* gl;
};
class imply_goal : public goal {
 public:
  imply_goal(goal* l, goal* r) : lhs(l), rhs(r) {}
  const goal* getAntecedent() const { return lhs; }
  const goal* getConsequent() const { return rhs; }

 private:
  goal* lhs;
  goal* rhs;
};
class con_goal : public goal {};
class constraint_goal : public con_goal {};
class preference : public con_goal {};
class timed_goal : public goal {};
class comparison : public goal {};

// Effects.
class effect : public parse_category {};
class effect_lists;
class simple_effect : public effect {
 public:
  explicit simple_effect(proposition* p) : prop(p) {}
  proposition* prop;
};
class forall_effect : public effect {
 public:
  forall_effect(effect_lists* o, var_symbol_list* v) : operand(o), vars(v) {}
  const effect_lists* getEffects() const { return operand; }
  const var_symbol_list* getVarsList() const { return vars; }

 private:
  effect_lists* operand;
  var_symbol_list* vars;
};
class cond_effect : public effect {
 public:
  cond_effect(goal* g, effect_lists* e) : cond(g), effects(e) {}
  const goal* getCondition() const { return cond; }
  const effect_lists* getEffects() const { return effects; }

 private:
  goal* cond;
  effect_lists* effects;
};
class effect_lists : public parse_category {
 public:
  pc_list<simple_effect*> add_effects;
  pc_list<simple_effect*> del_effects;
  pc_list<forall_effect*> forall_effects;
  pc_list<cond_effect*> cond_effects;
};

// Operators.
class operator_ : public parse_category {
 public:
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class operator_list : public pc_list<operator_*> {};
class action : public operator_ {};
class axiom : public operator_ {};

class derivation_rule : public parse_category {
 public:
  derivation_rule(proposition* h, goal* b) : head(h), body(b) {}
  proposition* get_head() const { return head; }
  goal* get_body() const { return body; }

 private:
  proposition* head;
  goal* body;
};
class derivations_list : public pc_list<derivation_rule*> {};

using pddl_req_flag = unsigned long;
std::string pddl_req_flags_string(pddl_req_flag flags);

class domain : public parse_category {
 public:
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;
  std::string name;
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pc_list<var_symbol*>* vars = nullptr;
  pred_decl_list* predicates = nullptr;
};

class problem : public parse_category {
 public:
  std::string name;
  std::string domain_name;
  pddl_req_flag req = 0;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
};

struct parse_error_list {
  std::vector<std::string> errors;
  void report();
};

class analysis {
 public:
  parse_error_list error_list;
  domain* the_domain = nullptr;
  problem* the_problem = nullptr;

  // Symbol tables.
  std::map<std::string, pddl_type*> type_tab;
  std::map<std::string, const_symbol*> const_tab;
  std::map<std::string, pred_symbol*> pred_tab;
  std::map<std::string, operator_symbol*> op_tab;
};

extern analysis* current_analysis;
extern parse_category* top_thing;
extern bool Verbose;
extern std::ostream* report;

}  // namespace VAL

#endif  // VERIF_VAL_PTREE_H_
