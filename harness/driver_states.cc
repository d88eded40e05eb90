#include "driver.h"


namespace drv {

void RegisterStates() {
  // states
  handlers["s.new"] = [](const Fields& f) {
    St(f.at(1)) = State();
    return std::string("\"ok\"");
  };
  handlers["s.from"] = [](const Fields& f) {
    // s.from reg route props
    const int route = std::stoi(f.at(2));
    if (route == 0) {
      St(f.at(1)) = State(P(), PropStringsU(f.at(3)));
    } else {
      std::vector<Proposition> ps;
      for (const std::string& p : PropWords(f.at(3))) ps.push_back(MakeProp(p, 1));
      switch (ps.size()) {
        case 0: St(f.at(1)) = State({}); break;
        case 1: St(f.at(1)) = State({ps[0]}); break;
        case 2: St(f.at(1)) = State({ps[0], ps[1]}); break;
        case 3: St(f.at(1)) = State({ps[0], ps[1], ps[2]}); break;
        case 4: St(f.at(1)) = State({ps[0], ps[1], ps[2], ps[3]}); break;
        default:
          State s({ps[0], ps[1], ps[2], ps[3], ps[4]});
          s.insert(ps.begin() + 5, ps.end());
          St(f.at(1)) = std::move(s);
      }
    }
    return std::string("\"ok\"");
  };
  handlers["s.insert"] = [](const Fields& f) {
    // s.insert reg route prop
    State& s = St(f.at(1));
    switch (std::stoi(f.at(2))) {
      case 0: return J(s.insert(MakeProp(f.at(3), 0)));
      case 1: {
        const Proposition p = MakeProp(f.at(3), 1);
        return J(s.insert(p));
      }
      case 2:
        return J(WithRef(f.at(3), [&](const PropositionRef& r) { return s.insert(r); }));
      case 3: {
        std::vector<std::string> w = Words(f.at(3));
        return J(s.emplace(P(), CallString(w)));
      }
      case 4: {
        std::vector<Proposition> ps = {MakeProp(f.at(3), 1), MakeProp(f.at(3), 0)};
        return J(s.insert(ps.begin(), ps.end()));
      }
      default: {
        std::vector<std::string> w = Words(f.at(3));
        std::vector<Object> args;
        for (size_t i = 1; i < w.size(); i++) args.emplace_back(P(), w[i]);
        return J(s.emplace(w[0], args));
      }
    }
  };
  handlers["s.erase"] = [](const Fields& f) {
    State& s = St(f.at(1));
    if (std::stoi(f.at(2)) == 2) {
      return J(WithRef(f.at(3), [&](const PropositionRef& r) { return s.erase(r); }));
    }
    return J(s.erase(MakeProp(f.at(3), std::stoi(f.at(2)))));
  };
  handlers["s.contains"] = [](const Fields& f) {
    const State& s = St(f.at(1));
    if (std::stoi(f.at(2)) == 2) {
      return J(WithRef(f.at(3), [&](const PropositionRef& r) { return s.contains(r); }));
    }
    return J(s.contains(MakeProp(f.at(3), std::stoi(f.at(2)))));
  };
  handlers["s.list"] = [](const Fields& f) {
    const State& s = St(f.at(1));
    State& m = St(f.at(1));
    std::vector<std::string> back;
    for (auto it = s.end(); it != s.begin();) back.push_back(JProp(*--it));
    return JObj({{"l", JState(s)},
                 {"rl", JList(back, [](const std::string& x) { return x; })},
                 {"ml", JList(m.begin(), m.end(), [](const Proposition& p) { return JProp(p); })},
                 {"size", J(s.size())},
                 {"empty", J(s.empty())}});
  };
  handlers["s.str"] = [](const Fields& f) {
    const State& s = St(f.at(1));
    std::unordered_set<std::string> u = s.Stringify();
    std::stringstream ss;
    ss << s;
    return JObj({{"set", JSet(symbolic::Stringify(s))},
                 {"uset", JSet(std::set<std::string>(u.begin(), u.end()))},
                 {"str", J(ss.str())}});
  };
  handlers["s.reserve"] = [](const Fields& f) {
    St(f.at(1)).reserve(std::stoi(f.at(2)));
    return std::string("\"ok\"");
  };
  handlers["s.copy"] = [](const Fields& f) {
    State c(St(f.at(1)));
    St(f.at(2)) = c;
    return std::string("\"ok\"");
  };
  handlers["s.assign"] = [](const Fields& f) {
    const State& a = St(f.at(1));
    St(f.at(2)) = a;
    return std::string("\"ok\"");
  };
  handlers["s.move"] = [](const Fields& f) {
    State c(std::move(St(f.at(1))));
    St(f.at(1)) = State();
    St(f.at(2)) = std::move(c);
    return std::string("\"ok\"");
  };
  handlers["s.merge"] = [](const Fields& f) {
    // insert every element of reg2 into reg1
    const State other = St(f.at(2));
    return J(St(f.at(1)).insert(other.begin(), other.end()));
  };
  handlers["s.cmp"] = [](const Fields& f) {
    const State& a = St(f.at(1));
    const State& b = St(f.at(2));
    return JObj({{"eq", J(a == b)},
                 {"ne", J(a != b)},
                 {"lt", J(a < b)},
                 {"gt", J(b < a)},
                 {"heq", J(std::hash<State>{}(a) == std::hash<State>{}(b))}});
  };
  handlers["prop.cmp"] = [](const Fields& f) {
    // two propositions, each with a construction route
    const Proposition a = MakeProp(f.at(2), std::stoi(f.at(1)));
    const Proposition b = MakeProp(f.at(4), std::stoi(f.at(3)));
    return WithRef(f.at(4), [&](const PropositionRef& r) {
      return JObj({{"eq", J(a == b)},
                   {"ne", J(a != b)},
                   {"lt", J(a < b)},
                   {"gt", J(b < a)},
                   {"heq", J(a.hash() == b.hash())},
                   {"req", J(a == r)},
                   {"rlt", J(a < r)},
                   {"rgt", J(r < a)},
                   {"rheq", J(b.hash() == r.hash())},
                   {"ceq", J(Proposition(r) == b)}});
    });
  };
  handlers["prop.str"] = [](const Fields& f) {
    const Proposition a = MakeProp(f.at(2), std::stoi(f.at(1)));
    const Proposition back(P(), a.to_string());
    return JObj({{"s", J(a.to_string())}, {"p", J(a.to_pddl())}, {"b", JProp(back)}, {"eq", J(a == back)}});
  };
  // A predicate printed with arguments.
  handlers["predstr"] = [](const Fields& f) {
    const Proposition q = MakeProp(f.at(1), 0);
    for (const Predicate& p : P().predicates()) {
      if (p.name() == q.name()) return JProp(Proposition(P(), p.to_string(q.arguments())));
    }
    throw std::logic_error("predstr");
  };
  // Raw text -> proposition.
  handlers["prop.parse"] = [](const Fields& f) {
    return JProp(Proposition(P(), Unescape(f.at(1))));
  };

  // partial states
  handlers["p.new"] = [](const Fields& f) {
    Ps(f.at(1)) = PartialState();
    return std::string("\"ok\"");
  };
  handlers["p.from"] = [](const Fields& f) {
    // p.from reg route pos neg
    switch (std::stoi(f.at(2))) {
      case 0: Ps(f.at(1)) = PartialState(P(), PropStringsU(f.at(3)), PropStringsU(f.at(4))); break;
      case 1: {
        const State a = MakeState(f.at(3));
        const State b = MakeState(f.at(4));
        Ps(f.at(1)) = PartialState(a, b);
        break;
      }
      default: Ps(f.at(1)) = PartialState(MakeState(f.at(3)), MakeState(f.at(4)));
    }
    return std::string("\"ok\"");
  };
  handlers["p.insert"] = [](const Fields& f) {
    PartialState& s = Ps(f.at(1));
    switch (std::stoi(f.at(2))) {
      case 0: return J(s.insert(MakeProp(f.at(3), 0)));
      case 1: {
        const Proposition p = MakeProp(f.at(3), 1);
        return J(s.insert(p));
      }
      case 2:
        return J(WithRef(f.at(3), [&](const PropositionRef& r) { return s.insert(r); }));
      default: return J(s.emplace(P(), CallString(Words(f.at(3)))));
    }
  };
  handlers["p.erase"] = [](const Fields& f) {
    PartialState& s = Ps(f.at(1));
    switch (std::stoi(f.at(2))) {
      case 0: return J(s.erase(MakeProp(f.at(3), 0)));
      case 1: {
        const Proposition p = MakeProp(f.at(3), 1);
        return J(s.erase(p));
      }
      default:
        return J(WithRef(f.at(3), [&](const PropositionRef& r) { return s.erase(r); }));
    }
  };
  handlers["p.contains"] = [](const Fields& f) {
    const PartialState& s = Ps(f.at(1));
    const Proposition p = MakeProp(f.at(3), std::stoi(f.at(2)));
    std::string c;
    std::string d;
    try {
      c = s.contains(p) ? "T" : "F";
    } catch (const PartialState::UnknownEvaluation& e) {
      c = e.proposition() == p ? "U" : "BAD";
    }
    try {
      d = s.does_not_contain(p) ? "T" : "F";
    } catch (const PartialState::UnknownEvaluation& e) {
      d = std::string(e.what()) == p.to_string() ? "U" : "BAD";
    }
    return JObj({{"c", J(c)}, {"d", J(d)}});
  };
  handlers["p.list"] = [](const Fields& f) {
    const PartialState& s = Ps(f.at(1));
    return JObj({{"pos", JState(s.pos())},
                 {"neg", JState(s.neg())},
                 {"size", J(s.size())},
                 {"empty", J(s.empty())},
                 {"cons", J(s.IsConsistent())}});
  };
  handlers["p.str"] = [](const Fields& f) {
    const auto u = Ps(f.at(1)).Stringify();
    const auto s = symbolic::Stringify(Ps(f.at(1)));
    return JObj({{"pos", JSet(s.first)},
                 {"neg", JSet(s.second)},
                 {"upos", JSet(std::set<std::string>(u.first.begin(), u.first.end()))},
                 {"uneg", JSet(std::set<std::string>(u.second.begin(), u.second.end()))}});
  };
  handlers["p.copy"] = [](const Fields& f) {
    PartialState c(Ps(f.at(1)));
    Ps(f.at(2)) = c;
    return std::string("\"ok\"");
  };
  handlers["p.cmp"] = [](const Fields& f) {
    const PartialState& a = Ps(f.at(1));
    const PartialState& b = Ps(f.at(2));
    return JObj({{"eq", J(a == b)}, {"ne", J(a != b)}, {"lt", J(a < b)}, {"gt", J(b < a)}});
  };

}

}  // namespace drv
