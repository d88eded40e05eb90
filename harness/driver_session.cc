#include "driver.h"


namespace drv {

void RegisterSession() {
  // session
  handlers["load"] = [](const Fields& f) {
    // load id domain problem apply_axioms
    std::shared_ptr<Pddl> p;
    std::string prob;
    if (f.at(3) == "-") {
      p = std::make_shared<Pddl>(f.at(2));
    } else if (f.at(3)[0] == '@') {
      // the problem as text (none if it's only "@")
      std::ifstream is(f.at(3).substr(1));
      std::stringstream ss;
      ss << is.rdbuf();
      prob = ss.str();
      p = std::make_shared<Pddl>(f.at(2), prob, f.at(4) == "1");
    } else {
      prob = f.at(3);
      p = f.at(4) == "1" ? std::make_shared<Pddl>(f.at(2), prob) : std::make_shared<Pddl>(f.at(2), prob, false);
    }
    if (p->domain_pddl() != f.at(2) || p->problem_pddl() != prob) throw std::logic_error("other paths");
    S.pddls[f.at(1)] = p;
    S.cur = p;
    return Summary(*p);
  };
  handlers["reset"] = [](const Fields&) {
    S = Session();
    return std::string("\"ok\"");
  };
  handlers["use"] = [](const Fields& f) {
    S.cur = S.pddls.at(f.at(1));
    return std::string("\"ok\"");
  };
  handlers["summary"] = [](const Fields&) { return Summary(P()); };
  handlers["isvalid"] = [](const Fields&) { return J(P().IsValid()); };

  // printing
  handlers["fstr"] = [](const Fields& f) {
    if (f.at(1) == "goal") return J(P().goal().to_string());
    return J(FindAction(f.at(1)).preconditions().to_string());
  };
  handlers["print"] = [](const Fields&) {
    std::stringstream ss;
    ss << P();
    return J(ss.str());
  };
  handlers["backptr"] = [](const Fields&) {
    // every component refers back to its Pddl
    bool act = true;
    for (const Action& a : P().actions()) act = act && &a.pddl() == &P();
    bool ax = true;
    for (const auto& a : P().axioms()) ax = ax && &a->pddl() == &P();
    bool pr = true;
    for (const Predicate& a : P().predicates()) pr = pr && &a.pddl() == &P();
    bool de = true;
    for (const DerivedPredicate& a : P().derived_predicates()) de = de && &a.pddl() == &P();
    bool ge = true;
    for (const Action& a : P().actions()) ge = ge && &a.parameter_generator().pddl() == &P();
    return JObj({{"actions", J(act)}, {"axioms", J(ax)}, {"predicates", J(pr)}, {"derived", J(de)},
                 {"gens", J(ge)}, {"index", J(&P().state_index().pddl() == &P())}});
  };

  // parameter enumeration
  handlers["params"] = [](const Fields& f) {
    // params kind name : every typed argument tuple, in order
    auto list = [](const ParameterGenerator& g) {
      return JObj({{"size", J(g.size())}, {"empty", J(g.empty())}, {"l", JList(g.begin(), g.end(), JArgs)}});
    };
    if (f.at(1) == "action") return list(FindAction(f.at(2)).parameter_generator());
    if (f.at(1) == "gen") {
      return list(ParameterGenerator(P(), FindAction(f.at(2)).parameters()));
    }
    for (const Predicate& p : P().predicates()) {
      if (p.name() == f.at(2)) return list(p.parameter_generator());
    }
    throw std::logic_error("params");
  };
  handlers["pg"] = [](const Fields& f) {
    // pg op ... : registers of ParameterGenerators built from an action
    const std::string& op = f.at(1);
    auto& m = S.gens;
    auto get = [&](const std::string& r) -> ParameterGenerator& { return m.at(r)->at(0); };
    auto put = [&](const std::string& r, ParameterGenerator&& g) {
      auto v = std::make_shared<std::vector<ParameterGenerator>>();
      v->push_back(std::move(g));
      m[r] = v;
    };
    if (op == "new") {
      // new x kind name own : from the parameters, or a copy of its own
      const bool own = f.at(5) == "1";
      if (f.at(3) == "act") {
        const Action& a = FindAction(f.at(4));
        put(f.at(2), own ? ParameterGenerator(a.parameter_generator()) : ParameterGenerator(P(), a.parameters()));
        return std::string("\"ok\"");
      }
      for (const Predicate& a : P().predicates()) {
        if (a.name() != f.at(4)) continue;
        put(f.at(2), own ? ParameterGenerator(a.parameter_generator()) : ParameterGenerator(P(), a.parameters()));
        return std::string("\"ok\"");
      }
      throw std::logic_error("pg new");
    }
    if (op == "default") { put(f.at(2), ParameterGenerator()); return std::string("\"ok\""); }
    if (op == "copy") { ParameterGenerator c(get(f.at(2))); put(f.at(3), std::move(c)); return std::string("\"ok\""); }
    if (op == "move") {
      ParameterGenerator c(std::move(get(f.at(2))));
      m.erase(f.at(2));
      put(f.at(3), std::move(c));
      return std::string("\"ok\"");
    }
    if (op == "assign") { get(f.at(3)) = get(f.at(2)); return std::string("\"ok\""); }
    if (op == "massign") {
      if (f.at(2) == f.at(3)) return std::string("\"ok\"");
      get(f.at(3)) = std::move(get(f.at(2)));
      m.erase(f.at(2));
      return std::string("\"ok\"");
    }
    if (op == "drop") { m.erase(f.at(2)); return std::string("\"ok\""); }
    const ParameterGenerator& g = get(f.at(2));
    if (op == "list") return JObj({{"size", J(g.size())}, {"empty", J(g.empty())}, {"l", JList(g.begin(), g.end(), JArgs)}});
    if (op == "at") return JArgs(g.at(std::stoi(f.at(3))));
    if (op == "find") return J(g.find(Objs(f.at(3))));
    if (op == "pddl") return J(&g.pddl() == &P());
    throw std::logic_error("pg op");
  };

}

}  // namespace drv
