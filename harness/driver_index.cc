#include "driver.h"


namespace drv {

void RegisterIndex() {
  // state index
  handlers["ix.new"] = [](const Fields& f) {
    S.index[f.at(1)] = std::make_shared<StateIndex>(P().predicates(), f.at(2) == "1");
    return J(S.index[f.at(1)]->size());
  };
  auto IX = [](const std::string& r) -> const StateIndex& {
    return r == "main" ? P().state_index() : *S.index.at(r);
  };
  handlers["ix.copy"] = [IX](const Fields& f) {
    S.index[f.at(2)] = std::make_shared<StateIndex>(IX(f.at(1)));
    return std::string("\"ok\"");
  };
  handlers["ix.size"] = [IX](const Fields& f) { return J(IX(f.at(1)).size()); };
  handlers["ix.prop"] = [IX](const Fields& f) { return JProp(IX(f.at(1)).GetProposition(std::stoi(f.at(2)))); };
  handlers["ix.idx"] = [IX](const Fields& f) { return J(IX(f.at(1)).GetPropositionIndex(MakeProp(f.at(2), 0))); };
  handlers["ix.state"] = [IX](const Fields& f) {
    StateIndex::IndexedState v = StateIndex::IndexedState::Zero(IX(f.at(1)).size());
    for (const std::string& w : Words(f.at(2))) v[std::stoi(w)] = true;
    return JState(IX(f.at(1)).GetState(v));
  };
  handlers["ix.vec"] = [IX](const Fields& f) {
    const StateIndex::IndexedState v = IX(f.at(1)).GetIndexedState(St(f.at(2)));
    std::vector<size_t> on;
    for (Eigen::Index i = 0; i < v.size(); i++) {
      if (v[i]) on.push_back(i);
    }
    return JObj({{"n", J(static_cast<size_t>(v.size()))}, {"on", JList(on)}});
  };
  handlers["ix.all"] = [IX](const Fields& f) {
    const StateIndex& ix = IX(f.at(1));
    std::string out = "[";
    bool sep = false;
    for (auto it = ix.begin(); it != ix.end(); ++it) {
      if (sep) out += ",";
      sep = true;
      out += JProp(*it);
    }
    return out + "]";
  };
  handlers["ix.pddl"] = [IX](const Fields& f) { return J(&IX(f.at(1)).pddl() == &P()); };
  handlers["ix.it"] = [IX](const Fields& f) {
    // ix.it reg op it ...
    const StateIndex& ix = IX(f.at(1));
    const std::string& op = f.at(2);
    auto& m = S.sit;
    const std::string& r = f.at(3);
    auto set = [&](const std::string& reg, StateIndex::iterator v) {
      m.erase(reg);
      m.emplace(reg, v);
      return std::string("\"ok\"");
    };
    if (op == "begin") return set(r, ix.begin());
    if (op == "end") return set(r, ix.end());
    StateIndex::iterator& it = m.at(r);
    if (op == "pre++") { ++it; return std::string("\"ok\""); }
    if (op == "pre--") { --it; return std::string("\"ok\""); }
    if (op == "post++") { return set(f.at(4), it++); }
    if (op == "post--") { return set(f.at(4), it--); }
    if (op == "+=") { it += std::stoi(f.at(4)); return std::string("\"ok\""); }
    if (op == "-=") { it -= std::stoi(f.at(4)); return std::string("\"ok\""); }
    if (op == "+") return set(f.at(5), it + std::stoi(f.at(4)));
    if (op == "n+") return set(f.at(5), std::stoi(f.at(4)) + it);
    if (op == "-") return set(f.at(5), it - std::stoi(f.at(4)));
    if (op == "*") return JProp(*it);
    if (op == "->") { const std::string n = it->name(); (void)n; return JProp(*(it.operator->())); }
    if (op == "[]") return JProp(it[std::stoi(f.at(4))]);
    if (op == "cmp") {
      const auto& o = m.at(f.at(4));
      return JObj({{"eq", J(it == o)}, {"ne", J(it != o)}, {"lt", J(it < o)}, {"gt", J(it > o)},
                   {"le", J(it <= o)}, {"ge", J(it >= o)}, {"diff", J(static_cast<long>(it - o))}});
    }
    throw std::logic_error("ix.it");
  };

}

}  // namespace drv
