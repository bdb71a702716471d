// C28: pairs, transitions and paths are values that follow their contents.
#include "graphs.h"
#include "liblevenshtein/collection/prefix.h"
#include "liblevenshtein/collection/transition.h"
#include "liblevenshtein/distance/symmetric_pair.h"
#include "liblevenshtein/transducer/intersection.h"
#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/state.h"
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace ll = liblevenshtein;
namespace lld = liblevenshtein::distance;
using gen::Strings;
using pbt::Ctx;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;

namespace {
using Pair = std::pair<std::string, std::string>;
Pair sorted(const std::string &u, const std::string &v) { return u < v ? Pair(u, v) : Pair(v, u); }
using pbt::show;
std::string show(const Pair &p) { return "(" + pbt::show(p.first) + ", " + pbt::show(p.second) + ")"; }

template <class T> std::string printed(const T &t) {
  std::stringstream s;
  s << t;
  return s.str();
}

// Pairs of related strings, compared with one another and kept in a hash map
// beside a map of ordered pairs.
void pairs(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  Strings pool;
  size_t n = c.range(2, 6);
  std::string w = gen::str(c, alpha, c.chance(1, 8) ? 300 : 10);
  pool.push_back(w);
  while (pool.size() < n) {
    std::string s = pool[c.below(pool.size())];
    switch (c.below(5)) {
    case 0: s = gen::mutant(c, s, alpha, 2); break;
    case 1: s = s.substr(0, c.below(s.size() + 1)); break;
    case 2: s += std::string(c.range(1, 2), '\0'); break;
    case 3: s = gen::str(c, alpha); break;
    default: // the same characters, cut elsewhere
      s += pool[0].substr(0, c.below(pool[0].size() + 1));
    }
    pool.push_back(s);
  }
  std::vector<Pair> given;
  size_t k = c.range(2, 8);
  for (size_t i = 0; i < k; ++i) {
    if (i && c.chance(1, 3)) {
      Pair p = given[c.below(given.size())];
      given.emplace_back(p.second, p.first);
    } else
      given.emplace_back(pool[c.below(n)], pool[c.below(n)]);
    c.describe([&] { return show(given.back()); });
  }
  std::vector<lld::SymmetricPair> made;
  std::hash<lld::SymmetricPair> hash;
  for (auto &[u, v] : given) made.emplace_back(u, v);
  bool same = false, differ = false;
  for (size_t i = 0; i < k; ++i)
    for (size_t j = 0; j < k; ++j) {
      bool want = sorted(given[i].first, given[i].second) == sorted(given[j].first, given[j].second);
      c.check((made[i] == made[j]) == want, [&] { return show(given[i]) + " and " + show(given[j]) + (want ? " differ" : " are equal"); });
      c.check((made[i] != made[j]) == !want, [&] { return "!= contradicts == for " + show(given[i]) + " and " + show(given[j]); });
      if (want) {
        c.check(hash(made[i]) == hash(made[j]), [&] { return show(given[i]) + " and " + show(given[j]) + " have different hash codes"; });
        c.check(printed(made[i]) == printed(made[j]), [&] { return show(given[i]) + " and " + show(given[j]) + " print differently"; });
      }
      if (i != j) (want ? same : differ) = true;
    }
  std::unordered_map<lld::SymmetricPair, size_t> got;
  std::map<Pair, size_t> model;
  size_t ops = c.range(2, 12);
  for (size_t i = 0; i < ops; ++i) {
    size_t x = c.below(k);
    Pair key = sorted(given[x].first, given[x].second);
    switch (c.below(3)) {
    case 0:
      got[lld::SymmetricPair(given[x].first, given[x].second)] = i;
      model[key] = i;
      break;
    case 1: {
      auto it = got.find(made[x]);
      auto mt = model.find(key);
      c.check((it == got.end()) == (mt == model.end()), [&] { return show(given[x]) + " is found wrongly"; });
      c.check(mt == model.end() || it->second == mt->second, [&] { return show(given[x]) + " has another pair's value"; });
      break;
    }
    default: c.check(got.erase(lld::SymmetricPair(given[x].second, given[x].first)) == model.erase(key), [&] { return show(given[x]) + " is erased wrongly"; });
    }
    c.check(got.size() == model.size(), "the hash map has another size");
  }
  for (auto &[key, v] : model) {
    auto it = got.find(lld::SymmetricPair(key.first, key.second));
    c.check(it != got.end() && it->second == v, [&] { return show(key) + " is lost"; });
  }
  if (same && differ) c.nontrivial();
}

// all pairs over the strings of up to two characters out of {a, b, NUL}
void pairs_all(Ctx &c) {
  static const Strings U = [] {
    Strings v{""};
    for (char x : {'a', 'b', '\0'}) v.emplace_back(1, x);
    for (char x : {'a', 'b', '\0'})
      for (char y : {'a', 'b', '\0'}) v.push_back(std::string(1, x) + y);
    return v;
  }();
  size_t i = c.below(U.size() * U.size());
  const std::string &u = U[i / U.size()], &v = U[i % U.size()];
  lld::SymmetricPair p(u, v);
  c.describe([&] { return show(Pair(u, v)); });
  std::hash<lld::SymmetricPair> hash;
  for (auto &x : U)
    for (auto &y : U) {
      lld::SymmetricPair q(x, y);
      bool want = sorted(u, v) == sorted(x, y);
      c.check((p == q) == want, [&] { return show(Pair(u, v)) + " and " + show(Pair(x, y)) + (want ? " differ" : " are equal"); });
      if (want) c.check(hash(p) == hash(q), [&] { return show(Pair(u, v)) + " and " + show(Pair(x, y)) + " have different hash codes"; });
    }
  c.nontrivial();
}

// the sets of strings accepted from each node
std::map<const ll::DawgNode *, std::set<std::string>> suffixes(const lib::Graph &g) {
  std::map<const ll::DawgNode *, std::set<std::string>> out;
  for (auto *n : g.order) {
    std::set<std::string> s;
    if (n->is_final()) s.insert("");
    n->for_each_edge([&](char l, ll::DawgNode *t) {
      for (auto &x : out[t]) s.insert(l + x);
    });
    out[n] = s;
  }
  return out;
}

// Transitions between nodes of two graphs: equal if label and the languages of
// both ends are.
void transitions(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto s1 = gen::term_set(c, alpha, {8, 4});
  auto s2 = c.coin() ? s1 : gen::term_set(c, alpha, {8, 4});
  c.describe([&] { return "nodes of " + show(gen::to_vec(s1)) + " and " + show(gen::to_vec(s2)); });
  lib::DawgPtr a(new ll::SortedDawg(lib::hand_built(c, s1, 30), s1.size())), b = lib::must_build(c, s2);
  std::vector<std::tuple<char, ll::DawgNode *, ll::DawgNode *>> es;
  std::map<const ll::DawgNode *, std::set<std::string>> lang;
  for (auto *d : {a.get(), b.get()}) {
    auto g = lib::inspect(d->root());
    c.check(g.acyclic, "a cyclic graph");
    for (auto &[n, s] : suffixes(g)) lang[n] = s;
    for (auto *n : g.order)
      n->for_each_edge([&](char l, ll::DawgNode *t) { es.emplace_back(l, const_cast<ll::DawgNode *>(n), t); });
  }
  bool eq = false, ne = false;
  size_t left = 400;
  for (size_t i = 0; i < es.size() && left; ++i)
    for (size_t j = 0; j < es.size() && left; ++j, --left) {
      auto [l1, f1, t1] = es[i];
      auto [l2, f2, t2] = es[j];
      ll::Transition x(l1, f1, t1), y(l2, f2, t2), z(x);
      ll::Transition m(std::move(z));
      bool want = l1 == l2 && lang[f1] == lang[f2] && lang[t1] == lang[t2];
      c.check((x == y) == want, [&] {
        return "transitions on " + show(std::string(1, l1)) + " and " + show(std::string(1, l2)) + " to the continuations " + show(gen::to_vec(lang[t1])) + " and " +
               show(gen::to_vec(lang[t2])) + (want ? " differ" : " are equal");
      });
      c.check((x != y) == !want, "!= contradicts ==");
      c.check(m.label() == l1 && m.source() == f1 && m.target() == t1 && m == x, "a copied and moved transition is another");
      (want ? eq : ne) = true;
    }
  if (eq && ne) c.nontrivial();
  gen::mix(c, gen::to_vec(s1));
  gen::mix(c, gen::to_vec(s2));
}

// A tree of prefixes and one of intersections: each spells the labels on its
// way from the root, however it is copied, moved or printed.
void paths(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  size_t n = c.range(1, 30);
  std::vector<std::unique_ptr<ll::DawgNode>> node;
  std::vector<std::unique_ptr<ll::Prefix>> pre;
  std::vector<std::unique_ptr<ll::Intersection>> inter;
  std::vector<std::string> want;
  std::vector<ll::State *> states;
  char root_label = c.coin() ? '\0' : gen::letter(c, alpha);
  for (size_t i = 0; i < n; ++i) {
    node.emplace_back(new ll::DawgNode(c.coin()));
    states.push_back(c.chance(1, 4) ? nullptr : new ll::State({new ll::Position(i, i)}));
    if (i == 0) {
      pre.emplace_back(new ll::Prefix(node[0].get()));
      inter.emplace_back(new ll::Intersection(root_label, node[0].get(), states[0]));
      want.push_back("");
      continue;
    }
    size_t up = c.chance(1, 4) ? c.below(i) : i - 1;
    char l = c.chance(1, 6) ? '\0' : gen::letter(c, alpha);
    pre.emplace_back(new ll::Prefix(node[i].get(), pre[up].get(), l));
    if (c.coin()) // a copy, or one that was moved
      pre.back().reset(c.coin() ? new ll::Prefix(*pre.back()) : new ll::Prefix(std::move(*pre.back())));
    inter.emplace_back(new ll::Intersection(l, node[i].get(), states[i], inter[up].get()));
    want.push_back(want[up] + l);
    c.check(pre[i]->label() == l, "a prefix has another label");
  }
  c.describe([&] { return "paths " + show(want); });
  bool deep = false;
  for (int round = 0; round < 2; ++round)
    for (size_t i = 0; i < n; ++i) {
      c.check(pre[i]->str() == want[i], [&] { return "prefix " + show(want[i]) + " spells " + show(pre[i]->str()); });
      c.check(inter[i]->str() == want[i], [&] { return "intersection " + show(want[i]) + " spells " + show(inter[i]->str()); });
      c.check(printed(*pre[i]) == want[i], [&] { return "prefix " + show(want[i]) + " prints as " + show(printed(*pre[i])); });
      c.check(printed(*inter[i]) == want[i], [&] { return "intersection " + show(want[i]) + " prints as " + show(printed(*inter[i])); });
      c.check(pre[i]->node() == node[i].get() && inter[i]->node() == node[i].get(), "a path leads to another node");
      c.check(inter[i]->state() == states[i], "an intersection has another state");
      if (want[i].size() > 2) deep = true;
    }
  if (deep) c.nontrivial();
  for (auto &w : want) c.mix(w);
}

// A long way that forks near its end.
void deep_paths(Ctx &c) {
  std::string alpha = gen::alphabet(c), unit = gen::str_of_len(c, alpha, c.range(1, 7));
  size_t trunk = c.weighted({3, 3, 1}), forks = c.range(1, 6);
  trunk = trunk == 0 ? c.range(20, 3000) : trunk == 1 ? (1u << c.range(5, 14)) - c.below(9) : c.range(3000, 40000);
  ll::DawgNode node(c.coin());
  std::vector<std::unique_ptr<ll::Prefix>> pre;
  std::vector<std::unique_ptr<ll::Intersection>> inter;
  pre.emplace_back(new ll::Prefix(&node));
  inter.emplace_back(new ll::Intersection('\0', &node, nullptr));
  std::string way;
  for (size_t i = 0; i < trunk; ++i) {
    way += unit[i % unit.size()];
    pre.emplace_back(new ll::Prefix(&node, pre.back().get(), way.back()));
    inter.emplace_back(new ll::Intersection(way.back(), &node, nullptr, inter.back().get()));
  }
  c.describe([&] { return "a way of " + std::to_string(trunk) + " labels (" + show(unit) + " repeated) with " + std::to_string(forks) + " forks"; });
  for (size_t f = 0; f < forks; ++f) {
    size_t from = trunk - c.below(std::min<size_t>(trunk, 20));
    std::string tail = gen::str(c, alpha, 6);
    std::vector<std::unique_ptr<ll::Prefix>> p2;
    std::vector<std::unique_ptr<ll::Intersection>> i2;
    ll::Prefix *p = pre[from].get();
    ll::Intersection *q = inter[from].get();
    for (char ch : tail) {
      p2.emplace_back(new ll::Prefix(&node, p, ch)), p = p2.back().get();
      i2.emplace_back(new ll::Intersection(ch, &node, nullptr, q)), q = i2.back().get();
    }
    std::string want = way.substr(0, from) + tail;
    c.check(p->str() == want, [&] { return "the prefix of " + std::to_string(want.size()) + " labels that ends in " + show(tail) + " spells " + std::to_string(p->str().size()) + " characters, or others"; });
    c.check(q->str() == want, [&] { return "the intersection of " + std::to_string(want.size()) + " labels that ends in " + show(tail) + " spells " + std::to_string(q->str().size()) + " characters, or others"; });
    if (f == 0) {
      c.check(printed(*p) == want, "a long prefix prints as something else");
      c.check(printed(*q) == want, "a long intersection prints as something else");
    }
    c.mix(tail);
  }
  c.mix(unit), c.mix(trunk);
  c.nontrivial();
}

// Pairs of long strings with a small difference anywhere, and a map of thousands.
void long_pairs(Ctx &c) {
  std::string alpha = gen::alphabet(c), unit = gen::str_of_len(c, alpha, c.range(1, 6));
  size_t len = c.weighted({3, 3, 1});
  len = len == 0 ? c.range(20, 3000) : len == 1 ? (1u << c.range(5, 17)) + 4 - c.below(9) : c.range(3000, 140000);
  std::string w;
  while (w.size() < len) w += unit;
  w.resize(len);
  std::string x = w;
  switch (c.below(4)) {
  case 0: x[c.below(2) ? c.below(len) : len - 1 - c.below(std::min<size_t>(len, 9))] ^= (char)(1u << c.below(8)); break;
  case 1: x += gen::letter(c, alpha); break;
  case 2: x.pop_back(); break;
  default: std::swap(x[0], x[len - 1]);
  }
  std::string other = c.coin() ? gen::str(c, alpha) : w;
  c.describe([&] { return "strings of " + std::to_string(w.size()) + " and " + std::to_string(x.size()) + " characters, " + show(unit) + " repeated, beside " + (other == w ? "the first" : show(other)); });
  lld::SymmetricPair p(w, other), q(other, w), r(x, other), t(other, x);
  std::hash<lld::SymmetricPair> hash;
  c.check(p == q && r == t && hash(p) == hash(q) && hash(r) == hash(t), "a pair of long strings depends on their order");
  c.check((p == r) == (w == x) && (q == r) == (w == x) && (p == t) == (w == x) && (p != r) == (w != x), "pairs of long strings with a small difference are equal, or others are not");
  std::unordered_map<lld::SymmetricPair, int> m;
  m[p] = 1, m[r] = 2;
  c.check(m.size() == (w == x ? 1 : 2) && m[q] == (w == x ? 2 : 1) && m[t] == 2, "pairs of long strings are mixed up in a hash map");
  if (w != x) c.nontrivial();
  c.mix(w), c.mix(x), c.mix(other);
}
void many_pairs(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  size_t n = c.range(300, 5000), len = c.range(2, 9);
  uint64_t seed = c.below(0);
  c.describe([&] { return "a map of " + std::to_string(n) + " pairs of strings of up to " + std::to_string(len) + " characters over " + show(alpha); });
  auto word = [&] {
    std::string s;
    for (size_t k = pbt::splitmix(seed) % (len + 1); k > 0; --k) s += alpha[pbt::splitmix(seed) % alpha.size()];
    return s;
  };
  std::unordered_map<lld::SymmetricPair, size_t> got;
  std::map<Pair, size_t> want;
  for (size_t i = 0; i < n; ++i) {
    std::string u = word(), v = word();
    auto [it, fresh] = got.emplace(lld::SymmetricPair(u, v), i);
    auto [mt, anew] = want.emplace(sorted(u, v), i);
    c.check(fresh == anew && it->second == mt->second, [&] { return show(Pair(u, v)) + (fresh ? " is not found again" : " is found but was not put in"); });
  }
  for (auto &[k, i] : want) {
    auto it = got.find(lld::SymmetricPair(k.second, k.first));
    c.check(it != got.end() && it->second == i, [&] { return show(k) + " is lost"; });
  }
  if (want.size() > 100) c.nontrivial();
}

// Transitions along two long ways that differ far from where they are compared.
void far_transitions(Ctx &c) {
  std::string alpha = gen::alphabet(c), unit = gen::str_of_len(c, alpha, c.range(1, 4));
  size_t len = c.coin() ? c.range(3, 400) : (1u << c.range(2, 11)) + 3 - c.below(7);
  size_t what = c.below(4), at = len - 1 - c.below(std::min<size_t>(len, 3));
  char root = gen::letter(c, alpha);
  struct Way {
    std::vector<std::unique_ptr<ll::DawgNode>> node;
  } way[2];
  for (int k = 0; k < 2; ++k) {
    auto &n = way[k].node;
    for (size_t i = 0; i <= len; ++i) n.emplace_back(new ll::DawgNode(i == len || (i && unit.size() > 1 && i % unit.size() == 0)));
    for (size_t i = 0; i < len; ++i) {
      char l = unit[i % unit.size()];
      if (k == 1 && i == at && what == 1) l ^= 1;
      n[i]->add_edge(l, n[i + 1].get());
    }
    if (k == 1 && what == 2) n[at]->is_final(!n[at]->is_final());
    if (k == 1 && what == 3) n[at]->add_edge((char)(unit[at % unit.size()] ^ 2), n[len].get());
  }
  c.describe([&] { return "two ways of " + std::to_string(len) + " edges along " + show(unit) + " that " + (what == 0 ? "are the same" : "differ at " + std::to_string(at)); });
  auto tr = [&](int k, size_t from, size_t to) { return ll::Transition(root, way[k].node[from].get(), way[k].node[to].get()); };
  for (size_t from : {(size_t)0, at / 2, at}) {
    ll::Transition x = tr(0, from, from + 1), y = tr(1, from, from + 1), z = tr(1, from, from + 1);
    c.check((x == y) == (what == 0), [&] { return "transitions to ways that " + std::string(what ? "differ" : "are the same") + (what ? " are equal" : " differ"); });
    c.check((x != y) == (what != 0) && y == z && z == y, "transitions along the same way differ");
  }
  c.mix(unit), c.mix(len), c.mix(what * 8 + (len - at));
  if (what) c.nontrivial();
}

Reg r6("C28", "long_pairs", 6000, 150000, long_pairs, 8);
Reg r7("C28", "many_pairs", 200, 5000, many_pairs, 8);
Reg r8("C28", "far_transitions", 4000, 100000, far_transitions, 8);
Reg r1("C28", "pairs", 100000, 2500000, pairs);
RegEnum r2("C28", "all_pairs", 169, 169, pairs_all);
Reg r3("C28", "transitions", 40000, 800000, transitions);
Reg r4("C28", "paths", 60000, 1500000, paths);
Reg r5("C28", "deep_paths", 3000, 60000, deep_paths);
} // namespace
