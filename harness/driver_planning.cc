#include "driver.h"

#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/planner.h"

namespace drv {

namespace {

// Keeps what a verbose search prints out of the driver's answers.
struct Mute {
  std::stringstream ss;
  std::streambuf* old = std::cout.rdbuf(ss.rdbuf());
  ~Mute() { std::cout.rdbuf(old); }
};

// Enumerates plans as lists of action calls.
template <typename Search>
std::string Plans(Search& search, size_t cap) {
  std::string out = "[";
  size_t n = 0;
  bool more = false;
  auto end = search.end();
  for (auto it = search.begin(); it != end; ++it) {
    if (n == cap) {
      more = true;
      break;
    }
    const std::vector<Planner::Node>& plan = *it;
    if (n++ > 0) out += ",";
    std::string acts = "[";
    for (size_t i = 1; i < plan.size(); i++) {
      if (i > 1) acts += ",";
      acts += J(plan[i].action());
    }
    acts += "]";
    std::string sts = JList(plan, [](const Planner::Node& n) {
      return JState(n.state());
    });
    std::string depths =
        JList(plan, [](const Planner::Node& n) { return J(n.depth()); });
    out += JObj({{"acts", acts},
                 {"states", sts},
                 {"depths", depths}});
  }
  return JObj({{"plans", out + "]"}, {"more", J(more)}});
}

struct DepthCompare {
  bool operator()(const SearchNode<Planner::Node>& a,
                  const SearchNode<Planner::Node>& b) const {
    return a.ancestors.size() > b.ancestors.size();
  }
};

// ------------------------------------------------ synthetic trees and weights
// A node of an explicit rooted tree or graph given by a table.
struct Table {
  std::map<int, std::vector<int>> children;
  std::set<int> goals;
  std::map<int, int> weight;
};
struct TIter;
struct TNode {
  const Table* t = nullptr;
  int id = -1;
  TIter begin() const;
  TIter end() const;
  explicit operator bool() const { return t->goals.count(id) > 0; }
  bool operator==(const TNode& o) const { return id == o.id; }
  bool operator!=(const TNode& o) const { return id != o.id; }
  bool operator<(const TNode& o) const { return id < o.id; }
  friend std::ostream& operator<<(std::ostream& os, const TNode& n) {
    return os << n.id;
  }
};
const std::vector<int> kNone;
struct TIter {
  const Table* t;
  std::vector<int>::const_iterator it;
  mutable TNode node;
  TIter& operator++() {
    ++it;
    return *this;
  }
  bool operator!=(const TIter& o) const { return it != o.it; }
  bool operator==(const TIter& o) const { return it == o.it; }
  const TNode& operator*() const {
    node.t = t;
    node.id = *it;
    return node;
  }
};
TIter TNode::begin() const {
  auto i = t->children.find(id);
  const std::vector<int>& c = i == t->children.end() ? kNone : i->second;
  return {t, c.begin(), {}};
}
TIter TNode::end() const {
  auto i = t->children.find(id);
  const std::vector<int>& c = i == t->children.end() ? kNone : i->second;
  return {t, c.end(), {}};
}
struct TCompare {
  const Table* t;
  int Cost(const SearchNode<TNode>& n) const {
    int c = t->weight.at(n.node.id);
    for (const TNode& a : n.ancestors) c += t->weight.at(a.id);
    return c;
  }
  bool operator()(const SearchNode<TNode>& a, const SearchNode<TNode>& b) const {
    return Cost(a) > Cost(b);
  }
};
template <typename Search>
std::string TPlans(Search& search, size_t cap) {
  std::string out = "[";
  size_t n = 0;
  bool more = false;
  auto end = search.end();
  for (auto it = search.begin(); it != end; ++it) {
    if (n == cap) {
      more = true;
      break;
    }
    if (n++ > 0) out += ",";
    out += JList(*it, [](const TNode& x) { return J(x.id); });
  }
  return JObj({{"plans", out + "]"}, {"more", J(more)}});
}

}  // namespace
}  // namespace drv

namespace std {
template <>
struct hash<drv::TNode> {
  size_t operator()(const drv::TNode& n) const noexcept { return std::hash<int>{}(n.id); }
};
}  // namespace std

namespace drv {
namespace {

std::string JChild(const Planner::Node& c) {
  return JObj({{"a", J(c.action())}, {"s", JState(c.state())}, {"d", J(c.depth())}, {"g", J(static_cast<bool>(c))}});
}

// Follows the actions f[from], ... from the planner's root, or from a node with
// the root's state and the given depth.
bool Follow(const Planner& planner, const Fields& f, size_t from, size_t depth,
            std::vector<Planner::Node>* keep) {
  keep->reserve(f.size() + 2);
  keep->push_back(depth == 0 ? planner.root() : Planner::Node(P(), planner.root().state(), depth));
  for (size_t i = from; i < f.size(); i++) {
    bool found = false;
    for (const Planner::Node& c : keep->back()) {
      if (c.action() == f[i]) {
        keep->push_back(c);
        found = true;
        break;
      }
    }
    if (!found) return false;
  }
  return true;
}

}  // namespace

void RegisterPlanning() {
  // planning
  handlers["children"] = [](const Fields& f) {
    // children reg depth0 path... : follow actions from a root, list the children
    Planner planner(P(), St(f.at(1)));
    std::vector<Planner::Node> keep;  // nodes reference their parents
    if (!Follow(planner, f, 3, std::stoul(f.at(2)), &keep)) {
      return JObj({{"ok", J(false)}, {"l", "[]"}, {"root", JState(planner.root().state())}, {"goal", J(false)}, {"depth", J(0)}, {"node", "[]"}});
    }
    const Planner::Node& n = keep.back();
    std::string out = "[";
    bool sep = false;
    for (const Planner::Node& c : n) {
      if (sep) out += ",";
      sep = true;
      out += JChild(c);
    }
    return JObj({{"ok", J(true)},
                 {"l", out + "]"},
                 {"root", JState(planner.root().state())},
                 {"goal", J(static_cast<bool>(n))},
                 {"depth", J(n.depth())},
                 {"node", JState(n.state())}});
  };
  handlers["zigzag"] = [](const Fields& f) {
    // zigzag reg depth0 start moves path... : one child cursor moved back and forth
    Planner planner(P(), St(f.at(1)));
    std::vector<Planner::Node> keep;
    if (!Follow(planner, f, 5, std::stoul(f.at(2)), &keep)) return JObj({{"ok", J(false)}, {"l", "[]"}});
    const Planner::Node& n = keep.back();
    auto it = f.at(3) == "end" ? n.end() : n.begin();
    std::string out = "[";
    for (size_t i = 0; i < f.at(4).size(); i++) {
      if (f.at(4)[i] == '+') ++it;
      if (f.at(4)[i] == '-') --it;
      if (i > 0) out += ",";
      out += it == n.end() ? std::string("{\"a\":\"end()\",\"s\":[],\"d\":0,\"g\":false}") : JChild(*it);
    }
    return JObj({{"ok", J(true)}, {"l", out + "]"}});
  };
  handlers["rchildren"] = [](const Fields& f) {
    // children listed backwards from end()
    Planner planner(P(), St(f.at(1)));
    const Planner::Node& n = planner.root();
    size_t count = 0;
    for (auto it = n.begin(); it != n.end(); ++it) count++;
    std::string out = "[";
    auto it = n.end();
    for (size_t i = 0; i < count; i++) {
      --it;
      if (i > 0) out += ",";
      out += JChild(*it);
    }
    return JObj({{"l", out + "]"}, {"root", JState(n.state())}});
  };
  handlers["nodecmp"] = [](const Fields& f) {
    const Planner::Node a(P(), St(f.at(1)));
    const Planner::Node b(P(), St(f.at(2)), 3);
    return JObj({{"eq", J(a == b)}, {"lt", J(a < b)}, {"gt", J(b < a)},
                 {"heq", J(std::hash<Planner::Node>{}(a) == std::hash<Planner::Node>{}(b))}});
  };
  handlers["bfs"] = [](const Fields& f) {
    // bfs reg depth cap timeout_us
    Planner planner(P(), St(f.at(1)));
    Mute mute;
    const bool verbose = f.size() > 5 && f[5] == "1";
    const auto timeout = std::chrono::microseconds(std::stol(f.at(4)));
    // what isn't asked for is left out
    const BreadthFirstSearch<Planner::Node> bfs =
        timeout.count() > 0 ? BreadthFirstSearch<Planner::Node>(planner.root(), std::stoul(f.at(2)), verbose, timeout)
        : verbose           ? BreadthFirstSearch<Planner::Node>(planner.root(), std::stoul(f.at(2)), verbose)
                            : BreadthFirstSearch<Planner::Node>(planner.root(), std::stoul(f.at(2)));
    return Plans(bfs, std::stoul(f.at(3)));
  };
  handlers["dfs"] = [](const Fields& f) {
    Planner planner(P(), St(f.at(1)));
    DepthFirstSearch<Planner::Node> dfs(planner.root(), std::stoul(f.at(2)));
    return Plans(dfs, std::stoul(f.at(3)));
  };
  handlers["astar"] = [](const Fields& f) {
    Planner planner(P(), St(f.at(1)));
    const DepthCompare cmp;
    AStar<Planner::Node, DepthCompare> s(cmp, planner.root(), std::stoul(f.at(2)));
    return Plans(s, std::stoul(f.at(3)));
  };
  handlers["tree"] = [](const Fields& f) {
    // tree algo depth cap root "n:c c c;n:c" "goals" "n:w;n:w" timeout
    Table t;
    for (const std::string& row : Split(f.at(5), ';')) {
      if (row.empty()) continue;
      const auto kv = Split(row, ':');
      auto& c = t.children[std::stoi(kv.at(0))];
      for (const std::string& w : Words(kv.at(1))) c.push_back(std::stoi(w));
    }
    for (const std::string& w : Words(f.at(6))) t.goals.insert(std::stoi(w));
    for (const std::string& row : Split(f.at(7), ';')) {
      if (row.empty()) continue;
      const auto kv = Split(row, ':');
      t.weight[std::stoi(kv.at(0))] = std::stoi(kv.at(1));
    }
    const TNode root{&t, std::stoi(f.at(4))};
    const size_t depth = std::stoul(f.at(2));
    const size_t cap = std::stoul(f.at(3));
    std::string out;
    if (f.at(1) == "bfs") {
      Mute mute;
      const bool verbose = f.size() > 9 && f[9] == "1";
      const auto timeout = std::chrono::microseconds(std::stol(f.at(8)));
      const BreadthFirstSearch<TNode> s = timeout.count() > 0 ? BreadthFirstSearch<TNode>(root, depth, verbose, timeout)
                                          : verbose           ? BreadthFirstSearch<TNode>(root, depth, verbose)
                                                              : BreadthFirstSearch<TNode>(root, depth);
      out = TPlans(s, cap);
    } else if (f.at(1) == "dfs") {
      DepthFirstSearch<TNode> s(root, depth);
      out = TPlans(s, cap);
    } else {
      const TCompare cmp{&t};
      AStar<TNode, TCompare> s(cmp, root, depth);
      out = TPlans(s, cap);
    }
    return out;
  };

}

}  // namespace drv
