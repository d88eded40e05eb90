#include "driver.h"

#include "symbolic/normal_form.h"

namespace drv {
std::string JDnf(const std::optional<DisjunctiveFormula>& dnf) {
  if (!dnf) return JObj({{"some", J(false)}, {"conj", "[]"}, {"text", J("")}});
  return JObj({{"some", J(true)}, {"conj", JList(dnf->conjunctions, JPartial)}, {"text", J(ToStr(*dnf))}});
}


void RegisterActions() {
  // actions etc
  handlers["valid"] = [](const Fields& f) {
    // valid reg action args
    const Action& a = FindAction(f.at(2));
    return J(a.IsValid(St(f.at(1)), Objs(f.at(3))));
  };
  handlers["validf"] = [](const Fields& f) {
    // the same through a freshly constructed Action and its Formula
    const Action a(P(), f.at(2));
    const Formula& F = a.preconditions();
    return J(F(St(f.at(1)), Objs(f.at(3))));
  };
  handlers["pvalid"] = [](const Fields& f) {
    const Action& a = FindAction(f.at(2));
    return J(a.IsValid(Ps(f.at(1)), Objs(f.at(3))));
  };
  handlers["pvalidf"] = [](const Fields& f) {
    const Action a(P(), f.at(2));
    const Formula& F = a.preconditions();
    return J(F(Ps(f.at(1)), Objs(f.at(3))));
  };
  handlers["goal"] = [](const Fields& f) {
    const State& s = St(f.at(1));
    return JObj({{"a", J(P().goal()(s))},
                 {"b", J(P().IsGoalSatisfied(s))},
                 {"c", J(P().IsGoalSatisfied(symbolic::Stringify(s)))}});
  };
  handlers["pgoal"] = [](const Fields& f) { return J(P().goal()(Ps(f.at(1)))); };
  handlers["act"] = [](const Fields& f) {
    // in place: act reg action args -> changed, state
    const Action& a = FindAction(f.at(2));
    State s = St(f.at(1));
    const bool ch = a.Apply(Objs(f.at(3)), &s);
    St(f.at(1)) = s;
    return JObj({{"ch", J(ch)}, {"s", JState(s)}});
  };
  handlers["actc"] = [](const Fields& f) {
    // copying
    const Action& a = FindAction(f.at(2));
    const State before = St(f.at(1));
    const State n = a.Apply(St(f.at(1)), Objs(f.at(3)));
    return JObj({{"same", J(before == St(f.at(1)))}, {"s", JState(n)}});
  };
  handlers["pact"] = [](const Fields& f) {
    const Action& a = FindAction(f.at(2));
    PartialState s = Ps(f.at(1));
    const int ch = a.Apply(Objs(f.at(3)), &s);
    Ps(f.at(1)) = s;
    return JObj({{"ch", J(ch)}, {"s", JPartial(s)}});
  };
  handlers["pactc"] = [](const Fields& f) {
    const Action& a = FindAction(f.at(2));
    const PartialState before = Ps(f.at(1));
    const PartialState n = a.Apply(Ps(f.at(1)), Objs(f.at(3)));
    return JObj({{"same", J(before == Ps(f.at(1)))}, {"s", JPartial(n)}});
  };
  handlers["next"] = [](const Fields& f) {
    return JState(P().NextState(St(f.at(1)), Unescape(f.at(2))));
  };
  handlers["validact"] = [](const Fields& f) {
    return J(P().IsValidAction(St(f.at(1)), Unescape(f.at(2))));
  };
  handlers["applyall"] = [](const Fields& f) {
    std::vector<std::string> calls;
    for (size_t i = 2; i < f.size(); i++) calls.push_back(Unescape(f[i]));
    return JState(P().ApplyActions(St(f.at(1)), calls));
  };
  handlers["plan"] = [](const Fields& f) {
    std::vector<std::string> calls;
    for (size_t i = 1; i < f.size(); i++) calls.push_back(Unescape(f[i]));
    return J(P().IsValidPlan(calls));
  };
  handlers["tuple"] = [](const Fields& f) {
    const State& a = St(f.at(1));
    const State& b = St(f.at(3));
    return JObj({{"a", J(P().IsValidTuple(a, Unescape(f.at(2)), b))},
                 {"b", J(P().IsValidTuple(symbolic::Stringify(a), Unescape(f.at(2)),
                                          symbolic::Stringify(b)))}});
  };
  handlers["listacts"] = [](const Fields& f) {
    const State& s = St(f.at(1));
    return JObj({{"a", JList(P().ListValidActions(s))},
                 {"b", JList(P().ListValidActions(symbolic::Stringify(s)))}});
  };
  handlers["listargs"] = [](const Fields& f) {
    const State& s = St(f.at(1));
    const auto a = P().ListValidArguments(s, FindAction(f.at(2)));
    const auto b = P().ListValidArguments(symbolic::Stringify(s), f.at(2));
    return JObj({{"a", JList(a, JArgs)},
                 {"b", JList(b, JStrs)},
                 {"c", JList(symbolic::Stringify(a), JStrs)}});
  };
  handlers["derived"] = [](const Fields& f) { return JState(P().DerivedState(St(f.at(1)))); };
  handlers["derivedip"] = [](const Fields& f) {
    State s = St(f.at(1));
    const bool ch = DerivedPredicate::Apply(P().derived_predicates(), &s);
    St(f.at(1)) = s;
    return JObj({{"ch", J(ch)}, {"s", JState(s)}});
  };
  handlers["derived1"] = [](const Fields& f) {
    State s = St(f.at(1));
    const bool ch = P().derived_predicates().at(std::stoi(f.at(2))).Apply(&s);
    return JObj({{"ch", J(ch)}, {"s", JState(s)}});
  };
  handlers["consistent"] = [](const Fields& f) { return JState(P().ConsistentState(St(f.at(1)))); };
  handlers["pconsistent"] = [](const Fields& f) { return JPartial(P().ConsistentState(Ps(f.at(1)))); };
  handlers["validstate"] = [](const Fields& f) { return J(P().IsValidState(St(f.at(1)))); };
  handlers["pvalidstate"] = [](const Fields& f) { return J(P().IsValidState(Ps(f.at(1)))); };
  handlers["ax.apply"] = [](const Fields& f) {
    const Axiom& a = *P().axioms().at(std::stoi(f.at(2)));
    const State before = St(f.at(1));
    const State c = a.Apply(before);
    State s = before;
    const bool ch = a.Apply(&s);
    const bool same = c == s && before == St(f.at(1));
    St(f.at(1)) = s;
    return JObj({{"ch", J(ch)}, {"s", JState(s)}, {"same", J(same)}});
  };
  handlers["ax.papply"] = [](const Fields& f) {
    const Axiom& a = *P().axioms().at(std::stoi(f.at(2)));
    const PartialState before = Ps(f.at(1));
    const PartialState c = a.Apply(before);
    PartialState s = before;
    const int ch = a.Apply(&s);
    const bool same = c == s && before == Ps(f.at(1));
    Ps(f.at(1)) = s;
    return JObj({{"ch", J(ch)}, {"s", JPartial(s)}, {"same", J(same)}});
  };
  handlers["ax.cons"] = [](const Fields& f) {
    return J(P().axioms().at(std::stoi(f.at(2)))->IsConsistent(St(f.at(1))));
  };
  handlers["ax.pcons"] = [](const Fields& f) {
    return J(P().axioms().at(std::stoi(f.at(2)))->IsConsistent(Ps(f.at(1))));
  };
  handlers["setinit"] = [](const Fields& f) {
    State s = St(f.at(1));
    S.cur->set_initial_state(std::move(s));
    return JState(P().initial_state());
  };
  handlers["init"] = [](const Fields& f) {
    St(f.at(1)) = P().initial_state();
    return JState(P().initial_state());
  };
  handlers["parse.action"] = [](const Fields& f) {
    const auto aa = Action::Parse(P(), Unescape(f.at(1)));
    return JObj({{"name", J(aa.first.name())},
                 {"args", JArgs(aa.second)},
                 {"str", J(aa.first.to_string(aa.second))}});
  };
  handlers["object"] = [](const Fields& f) {
    const Object o(P(), Unescape(f.at(1)));
    return JObj({{"n", J(o.name())}, {"t", J(o.type().name())}, {"ts", JStrs(o.type().ListTypes())}});
  };
  handlers["subtype"] = [](const Fields& f) {
    const Object o(P(), f.at(1));
    return J(o.type().IsSubtype(f.at(2)));
  };
  handlers["obj.cmp"] = [](const Fields& f) {
    const Object a(P(), f.at(1));
    const Object b(P(), f.at(2));
    return JObj({{"eq", J(a == b)}, {"ne", J(a != b)}, {"lt", J(a < b)}, {"gt", J(b < a)},
                 {"heq", J(a.hash() == b.hash())}});
  };
  handlers["addobj"] = [](const Fields& f) {
    S.cur->AddObject(f.at(1), f.at(2));
    return Summary(P());
  };
  handlers["delobj"] = [](const Fields& f) {
    S.cur->RemoveObject(f.at(1));
    return Summary(P());
  };

  // normal forms (without axioms, half the time by leaving the argument out)
  const auto ByDefault = [](const Fields& f, size_t flag) { return f.at(flag) != "1" && f.at(1).size() % 2 == 1; };
  handlers["dnf.pre"] = [ByDefault](const Fields& f) {
    const std::string call = Unescape(f.at(1));
    return JDnf(ByDefault(f, 2) ? DisjunctiveFormula::NormalizePreconditions(P(), call)
                                : DisjunctiveFormula::NormalizePreconditions(P(), call, f.at(2) == "1"));
  };
  handlers["dnf.post"] = [ByDefault](const Fields& f) {
    const std::string call = Unescape(f.at(1));
    return JDnf(ByDefault(f, 2) ? DisjunctiveFormula::NormalizePostconditions(P(), call)
                                : DisjunctiveFormula::NormalizePostconditions(P(), call, f.at(2) == "1"));
  };
  handlers["dnf.cond"] = [ByDefault](const Fields& f) {
    const std::string call = Unescape(f.at(1));
    const auto r = ByDefault(f, 2) ? DisjunctiveFormula::NormalizeConditions(P(), call)
                                   : DisjunctiveFormula::NormalizeConditions(P(), call, f.at(2) == "1");
    if (!r) return JObj({{"some", J(false)}, {"pre", "[]"}, {"post", "[]"}});
    return JObj({{"some", J(true)},
                 {"pre", JList(r->first.conjunctions, JPartial)},
                 {"post", JList(r->second.conjunctions, JPartial)}});
  };
  handlers["dnf.goal"] = [](const Fields& f) {
    return JDnf(f.at(1) == "1" || S.pddls.size() % 2 == 0 ? DisjunctiveFormula::NormalizeGoal(P(), f.at(1) == "1")
                                                          : DisjunctiveFormula::NormalizeGoal(P()));
  };
  handlers["dnf.ax"] = [](const Fields& f) {
    // dnf.ax pre|post|goal call : without and with the axioms' contradictions
    std::optional<DisjunctiveFormula> r[2];
    for (int ax = 0; ax < 2; ax++) {
      if (f.at(1) == "goal") {
        r[ax] = ax ? DisjunctiveFormula::Create(P(), P().goal(), {}, {}, true)
                   : DisjunctiveFormula::Create(P(), P().goal(), {}, {});
      } else {
        const auto aa = Action::Parse(P(), Unescape(f.at(2)));
        r[ax] = f.at(1) == "pre"
                    ? (ax ? DisjunctiveFormula::Create(P(), aa.first.preconditions(), aa.first.parameters(), aa.second, true)
                          : DisjunctiveFormula::Create(P(), aa.first.preconditions(), aa.first.parameters(), aa.second))
                    : (ax ? DisjunctiveFormula::Create(P(), aa.first.postconditions(), aa.first.parameters(), aa.second, true)
                          : DisjunctiveFormula::Create(P(), aa.first.postconditions(), aa.first.parameters(), aa.second));
      }
    }
    return JObj({{"plain", JDnf(r[0])}, {"ax", JDnf(r[1])}});
  };
  handlers["dnf.neg"] = [](const Fields& f) {
    // negation of the action's precondition DNF
    const auto aa = Action::Parse(P(), Unescape(f.at(1)));
    auto dnf = DisjunctiveFormula::Create(P(), aa.first.preconditions(), aa.first.parameters(), aa.second);
    if (!dnf) return JObj({{"skip", J(true)}, {"some", J(false)}, {"conj", "[]"}});
    const auto neg = Negate(P(), std::move(*dnf));
    if (!neg) return JObj({{"skip", J(false)}, {"some", J(false)}, {"conj", "[]"}});
    return JObj({{"skip", J(false)}, {"some", J(true)}, {"conj", JList(neg->conjunctions, JPartial)}});
  };

}

}  // namespace drv
