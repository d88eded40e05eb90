// Shared helpers of the conformance driver (see driver_main.cc).
#ifndef VERIF_DRIVER_H_
#define VERIF_DRIVER_H_
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <VAL/ptree.h>

#include "symbolic/pddl.h"
#include "symbolic/state.h"
#include "symbolic/utils/parameter_generator.h"

using namespace symbolic;  // NOLINT

namespace drv {

using Fields = std::vector<std::string>;

// ---------------------------------------------------------------- JSON output
inline std::string J(const std::string& s) {
  std::string out = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (c == '\n') {
      out += "\\n";
    } else if (c == '\t') {
      out += "\\t";
    } else if (static_cast<unsigned char>(c) < 0x20 ||
               static_cast<unsigned char>(c) >= 0x7f) {
      out += '?';
    } else {
      out += c;
    }
  }
  return out + "\"";
}
inline std::string J(const char* s) { return J(std::string(s)); }
inline std::string J(bool b) { return b ? "true" : "false"; }
inline std::string J(int i) { return std::to_string(i); }
inline std::string J(long i) { return std::to_string(i); }
inline std::string J(size_t i) { return std::to_string(i); }
inline std::string J(const std::optional<bool>& b) {
  return b ? (*b ? "\"T\"" : "\"F\"") : "\"U\"";
}
struct Raw {
  std::string s;
};
inline std::string J(const Raw& r) { return r.s; }
template <typename It, typename F>
std::string JList(It first, It last, F f) {
  std::string out = "[";
  bool sep = false;
  for (; first != last; ++first) {
    if (sep) out += ",";
    sep = true;
    out += f(*first);
  }
  return out + "]";
}
template <typename C, typename F>
std::string JList(const C& c, F f) {
  return JList(c.begin(), c.end(), f);
}
template <typename T>
std::string JList(const std::vector<T>& c) {
  return JList(c, [](const T& t) { return J(t); });
}
inline std::string JSet(const std::set<std::string>& c) {
  return JList(c, [](const std::string& t) { return J(t); });
}
inline std::string JObj(std::initializer_list<std::pair<const char*, std::string>> l) {
  std::string out = "{";
  for (const auto& kv : l) {
    if (out.size() > 1) out += ",";
    out += J(kv.first) + ":" + kv.second;
  }
  return out + "}";
}
inline std::string JArgs(const std::vector<Object>& args) {
  return JList(args, [](const Object& o) { return J(o.name()); });
}
inline std::string JProp(const PropositionBase& p) {
  std::string out = "[" + J(p.name());
  for (const Object& o : p.arguments()) out += "," + J(o.name());
  return out + "]";
}
// Propositions in iteration order.
inline std::string JState(const State& s) {
  return JList(s.begin(), s.end(), [](const Proposition& p) { return JProp(p); });
}
inline std::string JPartial(const PartialState& s) {
  return JObj({{"pos", JState(s.pos())}, {"neg", JState(s.neg())}});
}

// -------------------------------------------------------------------- parsing
inline std::vector<std::string> Words(const std::string& s) {
  std::stringstream ss(s);
  std::vector<std::string> out;
  std::string w;
  while (ss >> w) out.push_back(w);
  return out;
}
inline std::vector<std::string> Split(const std::string& s, char sep) {
  std::vector<std::string> out;
  std::string cur;
  for (char c : s) {
    if (c == sep) {
      out.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  out.push_back(cur);
  return out;
}
inline std::string Unescape(const std::string& s) {
  std::string out;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      i++;
      out += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i];
    } else {
      out += s[i];
    }
  }
  return out;
}

struct Session {
  std::map<std::string, std::shared_ptr<Pddl>> pddls;
  std::shared_ptr<Pddl> cur;
  std::map<std::string, State> st;
  std::map<std::string, PartialState> ps;
  std::map<std::string, std::vector<Object>> bufs;
  std::map<std::string, std::shared_ptr<StateIndex>> index;
  std::map<std::string, std::shared_ptr<std::vector<ParameterGenerator>>> gens;
  std::map<std::string, StateIndex::iterator> sit;
};
extern Session S;

inline const Pddl& P() {
  if (!S.cur) throw std::logic_error("no pddl");
  return *S.cur;
}
inline State& St(const std::string& r) { return S.st[r]; }
inline PartialState& Ps(const std::string& r) { return S.ps[r]; }

inline std::vector<Object> Objs(const std::string& words) {
  std::vector<Object> out;
  for (const std::string& w : Words(words)) out.emplace_back(P(), w);
  return out;
}
inline std::string CallString(const std::vector<std::string>& w) {
  std::string s = w.at(0) + "(";
  for (size_t i = 1; i < w.size(); i++) s += (i > 1 ? ", " : "") + w[i];
  return s + ")";
}
inline Proposition MakeProp(const std::string& words, int route) {
  std::vector<std::string> w = Words(words);
  if (route % 2 == 0) return Proposition(P(), CallString(w));
  std::vector<Object> args;
  for (size_t i = 1; i < w.size(); i++) args.emplace_back(P(), w[i]);
  return Proposition(w.at(0), args);
}
// "p a;q b c" -> propositions
inline std::vector<std::string> PropWords(const std::string& field) {
  std::vector<std::string> out;
  for (const std::string& p : Split(field, ';')) {
    if (!Words(p).empty()) out.push_back(p);
  }
  return out;
}
inline std::set<std::string> PropStrings(const std::string& field) {
  std::set<std::string> out;
  for (const std::string& p : PropWords(field)) out.insert(CallString(Words(p)));
  return out;
}
inline std::unordered_set<std::string> PropStringsU(const std::string& field) {
  std::set<std::string> s = PropStrings(field);
  return std::unordered_set<std::string>(s.begin(), s.end());
}
inline State MakeState(const std::string& field) {
  State s;
  for (const std::string& p : PropWords(field)) s.insert(MakeProp(p, 0));
  return s;
}

// Applies f to the proposition through one of the construction routes.
template <typename F>
auto WithRef(const std::string& words, F f) {
  std::vector<std::string> w = Words(words);
  std::vector<Object> args;
  for (size_t i = 1; i < w.size(); i++) args.emplace_back(P(), w[i]);
  const std::string name = w.at(0);
  PropositionRef ref(&name, &args, std::hash<std::string>{}(name));
  return f(ref);
}

inline const Action& FindAction(const std::string& name) {
  for (const Action& a : P().actions()) {
    if (a.name() == name) return a;
  }
  throw std::logic_error("no action " + name);
}

using Handler = std::function<std::string(const Fields&)>;
extern std::map<std::string, Handler> handlers;

inline std::string JTyped(const std::vector<Object>& objs) {
  return JList(objs, [](const Object& o) {
    return "[" + J(o.name()) + "," + J(o.type().name()) + "]";
  });
}

inline std::string JStrs(const std::vector<std::string>& v) { return JList(v); }
template <typename T>
std::string ToStr(const T& x) {
  std::stringstream ss;
  ss << x;
  return ss.str();
}

inline std::string Summary(const Pddl& p) {
  std::map<std::string, std::vector<Object>> om(p.object_map().begin(),
                                                p.object_map().end());
  return JObj(
      {{"name", J(p.name())},
       {"objects", JTyped(p.objects())},
       {"constants", JTyped(p.constants())},
       {"init", JState(p.initial_state())},
       {"actions", JList(p.actions(),
                         [](const Action& a) {
                           return JObj({{"name", J(a.name())},
                                        {"params", JTyped(a.parameters())},
                                        {"str", J(a.to_string())}});
                         })},
       {"predicates", JList(p.predicates(),
                            [](const Predicate& a) {
                              return JObj({{"name", J(a.name())},
                                           {"params", JTyped(a.parameters())},
                                           {"str", J(a.to_string())}});
                            })},
       {"axioms", JList(p.axioms(),
                        [](const std::shared_ptr<Axiom>& a) {
                          std::stringstream ss;
                          ss << *a;
                          return JObj({{"sign", J(a->context().sign())},
                                       {"name", J(a->context().name())},
                                       {"args", JList(a->context().arguments(), [](const Object& o) {
                                          const bool var = dynamic_cast<const VAL::var_symbol*>(o.symbol()) != nullptr;
                                          return J((var ? "?" : "") + o.name());
                                        })},
                                       {"str", J(ss.str().substr(0, ss.str().find(": ")))},
                                       {"params", JTyped(a->parameters())}});
                        })},
       {"derived", JList(p.derived_predicates(),
                         [](const DerivedPredicate& a) {
                           return JObj({{"name", J(a.name())},
                                        {"params", JTyped(a.parameters())},
                                        {"str", J(a.to_string())}});
                         })},
       {"names", JObj({{"objects", JStrs(symbolic::Stringify(p.objects()))},
                       {"actions", JStrs(symbolic::Stringify(p.actions()))},
                       {"list", J(ToStr(p.objects()))}})},
       {"objmap", JList(om, [](const auto& kv) {
          return JObj({{"t", J(kv.first)}, {"os", JArgs(kv.second)}});
        })}});
}

void RegisterSession();
void RegisterStates();
void RegisterActions();
void RegisterIndex();
void RegisterPlanning();
void RegisterTemplates();

}  // namespace drv

#endif
