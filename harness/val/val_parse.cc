// Recursive-descent PDDL parser behind the VAL stand-in.
#include <cctype>
#include <sstream>
#include <stdexcept>

#include "VAL/FlexLexer.h"
#include "VAL/ptree.h"

int line_no = 1;
int yydebug = 0;
const char* current_filename = nullptr;

namespace VAL {

std::string pddl_req_flags_string(pddl_req_flag) { return ""; }

void parse_error_list::report() {
  for (const std::string& e : errors) std::cerr << e << std::endl;
}

namespace {

struct Sexp {
  bool is_atom = true;
  std::string atom;
  std::vector<Sexp> list;
};

struct ParseError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

std::vector<std::string> Tokenize(std::istream& is) {
  std::vector<std::string> tokens;
  std::string cur;
  char c;
  auto flush = [&] {
    if (!cur.empty()) tokens.push_back(cur);
    cur.clear();
  };
  while (is.get(c)) {
    if (c == ';') {
      flush();
      while (is.get(c) && c != '\n') {
      }
    } else if (c == '(' || c == ')') {
      flush();
      tokens.emplace_back(1, c);
    } else if (std::isspace(static_cast<unsigned char>(c))) {
      flush();
    } else {
      cur += static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    }
  }
  flush();
  return tokens;
}

Sexp ReadSexp(const std::vector<std::string>& t, size_t* i) {
  if (*i >= t.size()) throw ParseError("unexpected end of input");
  Sexp s;
  if (t[*i] == ")") throw ParseError("unexpected )");
  if (t[*i] != "(") {
    s.atom = t[(*i)++];
    return s;
  }
  s.is_atom = false;
  ++*i;
  while (true) {
    if (*i >= t.size()) throw ParseError("unexpected end of input");
    if (t[*i] == ")") {
      ++*i;
      return s;
    }
    s.list.push_back(ReadSexp(t, i));
  }
}

const Sexp& Nth(const Sexp& s, size_t i) {
  if (s.is_atom || i >= s.list.size()) throw ParseError("malformed expression");
  return s.list[i];
}
const std::string& Atom(const Sexp& s) {
  if (!s.is_atom) throw ParseError("expected a name");
  return s.atom;
}
std::string Head(const Sexp& s) {
  if (s.is_atom || s.list.empty() || !s.list[0].is_atom) return "";
  return s.list[0].atom;
}

class Builder {
 public:
  explicit Builder(analysis* a) : a_(a) {}

  void Parse(const Sexp& s) {
    if (Head(s) != "define") throw ParseError("expected (define ...)");
    const std::string kind = Head(Nth(s, 1));
    if (kind == "domain") {
      auto* d = Domain(s);
      a_->the_domain = d;
      top_thing = d;
    } else if (kind == "problem") {
      auto* p = Problem(s);
      a_->the_problem = p;
      top_thing = p;
    } else {
      throw ParseError("expected domain or problem");
    }
  }

 private:
  using Scope = std::map<std::string, var_symbol*>;

  pddl_type* Type(const std::string& name) {
    pddl_type*& t = a_->type_tab[name];
    if (t == nullptr) t = new pddl_type(name);
    return t;
  }
  pred_symbol* Pred(const std::string& name) {
    pred_symbol*& p = a_->pred_tab[name];
    if (p == nullptr) p = new pred_symbol(name);
    return p;
  }
  operator_symbol* Op(const std::string& name) {
    operator_symbol*& p = a_->op_tab[name];
    if (p == nullptr) p = new operator_symbol(name);
    return p;
  }
  const_symbol* Const(const std::string& name) {
    const_symbol*& c = a_->const_tab[name];
    if (c == nullptr) c = new const_symbol(name);
    return c;
  }

  // Parses "a b - t c": calls emit(name, type or nullptr) in order.
  template <typename F>
  void TypedList(const std::vector<Sexp>& items, size_t begin, F emit) {
    std::vector<std::string> pending;
    for (size_t i = begin; i < items.size(); i++) {
      const std::string& name = Atom(items[i]);
      if (name == "-") {
        if (++i >= items.size()) throw ParseError("missing type");
        pddl_type* type = Type(Atom(items[i]));
        for (const std::string& n : pending) emit(n, type);
        pending.clear();
      } else {
        pending.push_back(name);
      }
    }
    for (const std::string& n : pending) emit(n, static_cast<pddl_type*>(nullptr));
  }

  static std::string VarName(const std::string& s) {
    if (s.empty() || s[0] != '?') throw ParseError("expected a variable: " + s);
    return s.substr(1);
  }

  // Declares variables in the innermost scope.
  var_symbol_list* Vars(const Sexp& s, size_t begin = 0) {
    if (s.is_atom) throw ParseError("expected a variable list");
    auto* vars = new var_symbol_list;
    TypedList(s.list, begin, [&](const std::string& n, pddl_type* type) {
      auto* v = new var_symbol(VarName(n));
      v->type = type;
      vars->push_back(v);
      if (!scopes_.empty()) scopes_.back()[v->getName()] = v;
    });
    return vars;
  }

  var_symbol* LookupVar(const std::string& name) {
    for (auto it = scopes_.rbegin(); it != scopes_.rend(); ++it) {
      auto itt = it->find(name);
      if (itt != it->end()) return itt->second;
    }
    a_->error_list.errors.push_back("undeclared variable ?" + name);
    auto* v = new var_symbol(name);
    if (scopes_.empty()) scopes_.emplace_back();
    scopes_.back()[name] = v;
    return v;
  }

  proposition* Prop(const Sexp& s) {
    if (s.is_atom || s.list.empty()) throw ParseError("expected a proposition");
    auto* args = new parameter_symbol_list;
    for (size_t i = 1; i < s.list.size(); i++) {
      const std::string& a = Atom(s.list[i]);
      if (a[0] == '?') {
        args->push_back(LookupVar(a.substr(1)));
      } else {
        args->push_back(Const(a));
      }
    }
    return new proposition(Pred(Atom(s.list[0])), args);
  }

  goal_list* Goals(const Sexp& s) {
    auto* goals = new goal_list;
    for (size_t i = 1; i < s.list.size(); i++) goals->push_back(Goal(s.list[i]));
    return goals;
  }

  goal* Goal(const Sexp& s) {
    const std::string head = Head(s);
    if (!s.is_atom && s.list.empty()) return new conj_goal(new goal_list);
    if (head == "and") return new conj_goal(Goals(s));
    if (head == "or") return new disj_goal(Goals(s));
    if (head == "not") return new neg_goal(Goal(Nth(s, 1)));
    if (head == "imply") {
      goal* l = Goal(Nth(s, 1));
      return new imply_goal(l, Goal(Nth(s, 2)));
    }
    if (head == "forall" || head == "exists") {
      scopes_.emplace_back();
      var_symbol_list* vars = Vars(Nth(s, 1));
      goal* g = Goal(Nth(s, 2));
      scopes_.pop_back();
      return new qfied_goal(head == "forall" ? E_FORALL : E_EXISTS, vars, g);
    }
    return new simple_goal(Prop(s));
  }

  void Effect(const Sexp& s, effect_lists* out) {
    const std::string head = Head(s);
    if (!s.is_atom && s.list.empty()) return;
    if (head == "and") {
      for (size_t i = 1; i < s.list.size(); i++) Effect(s.list[i], out);
    } else if (head == "not") {
      out->del_effects.push_back(new simple_effect(Prop(Nth(s, 1))));
    } else if (head == "forall") {
      scopes_.emplace_back();
      var_symbol_list* vars = Vars(Nth(s, 1));
      auto* body = new effect_lists;
      Effect(Nth(s, 2), body);
      scopes_.pop_back();
      out->forall_effects.push_back(new forall_effect(body, vars));
    } else if (head == "when") {
      goal* cond = Goal(Nth(s, 1));
      auto* body = new effect_lists;
      Effect(Nth(s, 2), body);
      out->cond_effects.push_back(new cond_effect(cond, body));
    } else {
      out->add_effects.push_back(new simple_effect(Prop(s)));
    }
  }

  template <typename OpType>
  OpType* Operator(const Sexp& s, size_t begin, const char* vars_key,
                   const char* pre_key, const char* eff_key) {
    auto* op = new OpType;
    scopes_.emplace_back();
    op->parameters = new var_symbol_list;
    op->precondition = new conj_goal(new goal_list);
    op->effects = new effect_lists;
    for (size_t i = begin; i + 1 < s.list.size(); i += 2) {
      const std::string& key = Atom(s.list[i]);
      const Sexp& val = s.list[i + 1];
      if (key == vars_key) {
        op->parameters = Vars(val);
      } else if (key == pre_key) {
        op->precondition = Goal(val);
      } else if (key == eff_key) {
        Effect(val, op->effects);
      } else {
        throw ParseError("unexpected " + key);
      }
    }
    scopes_.pop_back();
    return op;
  }

  const_symbol_list* Consts(const Sexp& s) {
    auto* list = new const_symbol_list;
    TypedList(s.list, 1, [&](const std::string& n, pddl_type* type) {
      const_symbol* c = Const(n);
      c->type = type;
      list->push_back(c);
    });
    return list;
  }

  domain* Domain(const Sexp& s) {
    auto* d = new domain;
    d->name = Atom(Nth(s.list[1], 1));
    d->ops = new operator_list;
    d->drvs = new derivations_list;
    for (size_t i = 2; i < s.list.size(); i++) {
      const Sexp& sec = s.list[i];
      const std::string head = Head(sec);
      if (head == ":requirements") {
        d->req = 1;
      } else if (head == ":types") {
        d->types = new pddl_type_list;
        TypedList(sec.list, 1, [&](const std::string& n, pddl_type* type) {
          pddl_type* t = Type(n);
          t->type = type;
          d->types->push_back(t);
        });
      } else if (head == ":constants") {
        d->constants = Consts(sec);
      } else if (head == ":predicates") {
        d->predicates = new pred_decl_list;
        for (size_t j = 1; j < sec.list.size(); j++) {
          scopes_.emplace_back();
          var_symbol_list* vars = Vars(sec.list[j], 1);
          scopes_.pop_back();
          d->predicates->push_back(
              new pred_decl(Pred(Head(sec.list[j])), vars));
        }
      } else if (head == ":action") {
        auto* op = Operator<action>(sec, 2, ":parameters", ":precondition",
                                    ":effect");
        op->name = Op(Atom(Nth(sec, 1)));
        d->ops->push_back(op);
      } else if (head == ":axiom") {
        auto* op = Operator<axiom>(sec, 1, ":vars", ":context", ":implies");
        op->name = Op("");
        d->ops->push_back(op);
      } else if (head == ":derived") {
        const Sexp& h = Nth(sec, 1);
        scopes_.emplace_back();
        var_symbol_list* vars = Vars(h, 1);
        auto* args = new parameter_symbol_list;
        for (var_symbol* v : *vars) args->push_back(v);
        auto* head_prop = new proposition(Pred(Head(h)), args);
        goal* body = Goal(Nth(sec, 2));
        scopes_.pop_back();
        d->drvs->push_back(new derivation_rule(head_prop, body));
      } else {
        throw ParseError("unexpected section " + head);
      }
    }
    if (d->predicates == nullptr) d->predicates = new pred_decl_list;
    return d;
  }

  problem* Problem(const Sexp& s) {
    auto* p = new problem;
    p->name = Atom(Nth(s.list[1], 1));
    p->initial_state = new effect_lists;
    p->the_goal = new conj_goal(new goal_list);
    for (size_t i = 2; i < s.list.size(); i++) {
      const Sexp& sec = s.list[i];
      const std::string head = Head(sec);
      if (head == ":domain") {
        p->domain_name = Atom(Nth(sec, 1));
      } else if (head == ":requirements") {
        p->req = 1;
      } else if (head == ":objects") {
        p->objects = Consts(sec);
      } else if (head == ":init") {
        for (size_t j = 1; j < sec.list.size(); j++) {
          Effect(sec.list[j], p->initial_state);
        }
      } else if (head == ":goal") {
        p->the_goal = Goal(Nth(sec, 1));
      } else if (head == ":metric") {
        continue;
      } else {
        throw ParseError("unexpected section " + head);
      }
    }
    return p;
  }

  analysis* a_;
  std::vector<Scope> scopes_;
};

}  // namespace
}  // namespace VAL

int yyparse() {
  try {
    if (VAL::yfl == nullptr || VAL::yfl->in() == nullptr || !*VAL::yfl->in()) {
      throw VAL::ParseError("cannot read input");
    }
    const std::vector<std::string> tokens = VAL::Tokenize(*VAL::yfl->in());
    size_t i = 0;
    const VAL::Sexp s = VAL::ReadSexp(tokens, &i);
    if (i != tokens.size()) throw VAL::ParseError("trailing input");
    VAL::Builder(VAL::current_analysis).Parse(s);
  } catch (const std::exception& e) {
    if (VAL::current_analysis != nullptr) {
      VAL::current_analysis->error_list.errors.emplace_back(e.what());
    }
    return 1;
  }
  return 0;
}
