#include "driver.h"

#include "symbolic/utils/combination_generator.h"
#include "symbolic/utils/hash_set.h"
#include "symbolic/utils/unique_vector.h"

namespace drv {
// An element type whose hash is under the driver's control.
struct Elem {
  int v = 0;
  Elem() = default;
  explicit Elem(int v) : v(v) {}
  friend bool operator<(const Elem& a, const Elem& b) { return a.v < b.v; }
  friend bool operator==(const Elem& a, const Elem& b) { return a.v == b.v; }
  friend bool operator!=(const Elem& a, const Elem& b) { return a.v != b.v; }
};
inline int g_hash_mode = 0;
}  // namespace drv

namespace std {
template <>
struct hash<drv::Elem> {
  size_t operator()(const drv::Elem& e) const noexcept {
    switch (drv::g_hash_mode) {
      case 1: return 0;
      case 2: return static_cast<size_t>(e.v) % 3;
      case 3: return static_cast<size_t>(e.v) * 2654435761u;
      default: return static_cast<size_t>(e.v);
    }
  }
};
}  // namespace std

namespace drv {

namespace {

// ------------------------------------------------------- combination cursors
template <typename ContainerT>
struct CombSession {
  using Gen = CombinationGenerator<ContainerT>;
  std::vector<std::vector<std::string>> data;
  std::unique_ptr<Gen> gen;
};
template <typename C>
CombSession<C>& Comb() {
  static CombSession<C> s;
  return s;
}

// Chooses between equivalent ways, differently for different commands.
bool Odd(const Fields& f) {
  size_t h = 0;
  for (const std::string& x : f)
    for (char c : x) h = h * 31 + c;
  return (h / 7) % 2 == 1;
}
// Applies a sequence of moves to a fresh cursor, reporting what it shows (and
// its distance from the start) after each.
template <typename IterT>
std::string CursorWalk(const IterT& begin, const IterT& end, const Fields& f, size_t i) {
  const long n = end - begin;
  IterT it = f.at(i) == "end" ? end : begin;
  IterT other = it;
  std::string out = "[";
  for (size_t k = i; k < f.size(); k++) {
    const std::string& op = f[k];
    if (op == "++") ++it;
    else if (op == "--") --it;
    else if (op == "p++") other = it++;
    else if (op == "p--") other = it--;
    else if (op == "swap") std::swap(it, other);
    else if (op == "save") other = it;
    else if (op[0] == '+') it += std::stol(op.substr(1));
    else if (op[0] == '-') it -= std::stol(op.substr(1));
    else if (op[0] == 'c') it = it + std::stol(op.substr(1));
    else if (op[0] == 'm') it = it - std::stol(op.substr(1));
    else if (op[0] == 'n') it = std::stol(op.substr(1)) + it;
    const long pos = it - begin;
    if (k > i) out += ",";
    auto in = [&](long p) { return p >= 0 && p < n; };
    std::vector<std::string> arrow;
    if (in(pos)) arrow.assign(it->begin(), it->end());
    std::vector<std::string> rel;
    if (it < other) rel.push_back("<");
    if (it <= other) rel.push_back("<=");
    if (it == other) rel.push_back("=");
    if (it != other) rel.push_back("#");
    if (it >= other) rel.push_back(">=");
    if (it > other) rel.push_back(">");
    out += JObj({{"pos", J(pos)},
                 {"show", in(pos) ? JStrs(*it) : std::string("[]")},
                 {"again", JStrs(arrow)},
                 {"prev", in(pos - 1) ? JStrs(it[-1]) : std::string("[]")},
                 {"next", in(pos + 1) ? JStrs(it[1]) : std::string("[]")},
                 {"rel", JStrs(rel)},
                 {"diff", J(static_cast<long>(it - other))}});
  }
  return out + "]";
}
template <typename C>
std::string CombOp(const Fields& f) {
  auto& s = Comb<C>();
  const std::string& op = f.at(1);
  if (op == "new") {
    s.gen.reset();
    s.data.clear();
    for (size_t i = 2; i < f.size(); i++) s.data.push_back(Words(f[i]));
    std::vector<C*> options;
    for (auto& d : s.data) options.push_back(&d);
    s.gen = std::make_unique<typename CombSession<C>::Gen>(options);
    return J(s.gen->size());
  }
  if (op == "default") {
    typename CombSession<C>::Gen g;
    return JObj({{"size", J(g.size())}, {"empty", J(g.empty())}, {"be", J(g.begin() == g.end())}});
  }
  auto& g = *s.gen;
  const auto& cg = g;
  if (op == "size") return JObj({{"size", J(g.size())}, {"empty", J(g.empty())}});
  if (op == "at") return JStrs(g.at(std::stoi(f.at(2))));
  if (op == "idx") return JStrs(g[std::stoi(f.at(2))]);
  if (op == "find") return J(g.find(Words(f.at(2))));
  if (op == "all") {
    return JList(g.begin(), g.end(), JStrs);
  }
  if (op == "call") return JList(cg.begin(), cg.end(), JStrs);
  if (op == "rall") return JList(g.rbegin(), g.rend(), JStrs);
  if (op == "crall") return JList(cg.crbegin(), cg.crend(), JStrs);
  if (op == "walk") {
    // walk KIND begin|end MOVES...
    const std::string& kind = f.at(2);
    if (kind == "it") return CursorWalk(g.begin(), g.end(), f, 3);
    if (kind == "cit" && Odd(f)) return CursorWalk(g.cbegin(), g.cend(), f, 3);
    if (kind == "cit") return CursorWalk(cg.begin(), cg.end(), f, 3);
    if (kind == "rit") return CursorWalk(g.rbegin(), g.rend(), f, 3);
    if (Odd(f)) return CursorWalk(g.crbegin(), g.crend(), f, 3);
    return CursorWalk(cg.rbegin(), cg.rend(), f, 3);
  }
  throw std::logic_error("comb op " + op);
}


template <typename SetT>
std::string SetOp(const Fields& f) {
  const std::string& op = f.at(1);
  if (op == "walk") {
    // walk MODE "start" OPS... (on two sets A and B)
    g_hash_mode = std::stoi(f.at(2));
    SetT a, b;
    const std::vector<std::string> w = Words(f.at(3));
    auto e = [&](size_t i) { return Elem(std::stoi(w[i])); };
    if (!Odd(f) && w.size() == 1) a = SetT({e(0), e(0)});
    else if (!Odd(f) && w.size() == 2) a = SetT({e(1), e(0)});
    else if (!Odd(f) && w.size() == 3) a = SetT({e(2), e(0), e(1), e(0)});
    else if (!Odd(f) && w.size() == 4) a = SetT({e(0), e(3), e(2), e(3), e(1), e(3)});
    else
      for (size_t i = 0; i < w.size(); i++) a.insert(e(i));
    std::string out = "[";
    for (size_t k = 4; k < f.size(); k++) {
      bool ch = true;
      const int x = f[k].size() > 1 ? std::stoi(f[k].substr(1)) : 0;
      const Elem e(x);
      if (f[k][0] == '+') ch = k % 2 ? a.insert(e) : a.insert(Elem(x));
      else if (f[k][0] == '-') ch = a.erase(e);
      else if (f[k][0] == 'c') b = a;
      else std::swap(a, b);
      std::vector<int> l, l2, back, has;
      for (const Elem& y : static_cast<const SetT&>(a)) l.push_back(y.v);
      for (auto i2 = a.begin(); i2 != a.end(); i2++) l2.push_back(i2->v);
      if (l2 != l) l.push_back(-1);
      l2.clear();
      for (auto i2 = static_cast<const SetT&>(a).begin(); i2 != static_cast<const SetT&>(a).end(); i2++)
        l2.push_back(i2->v);
      if (l2 != l) l.push_back(-2);
      auto it = a.end();
      if (!a.empty())
        while (it != a.begin()) back.push_back((--it)->v);
      for (int y = 0; y < 64; y++)
        if (static_cast<const SetT&>(a).contains(Elem(y))) has.push_back(y);
      std::reverse(back.begin(), back.end());
      if (k > 4) out += ",";
      auto ji = [](int y) { return J(y); };
      out += JObj({{"ch", J(ch)}, {"l", JList(l, ji)}, {"back", JList(back, ji)}, {"has", JList(has, ji)},
                   {"size", J(a.size())}, {"empty", J(a.empty())}, {"eq", J(a == b)}, {"ne", J(a != b)},
                   {"lt", J(a < b)}, {"gt", J(b < a)}});
    }
    return out + "]";
  }
  throw std::logic_error("set op " + op);
}

}  // namespace

void RegisterTemplates() {
  // templates
  handlers["comb"] = [](const Fields& f) { return CombOp<std::vector<std::string>>(f); };
  handlers["ccomb"] = [](const Fields& f) { return CombOp<const std::vector<std::string>>(f); };
  handlers["hset"] = [](const Fields& f) { return SetOp<HashSet<Elem>>(f); };
  handlers["uvec"] = [](const Fields& f) { return SetOp<UniqueVector<Elem>>(f); };
}

}  // namespace drv
