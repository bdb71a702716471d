// C18 (bytes are opaque), C19 (monotone bounds, nesting, symmetry),
// C22 (results depend on the terms, not on the graph).
#include "graphs.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/serialization/serializer.h"
#include "query.h"
#include <numeric>
#include <sstream>

using namespace lib;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;

namespace {

std::map<std::string, size_t> as_map(Ctx &c, const Results &r) {
  std::map<std::string, size_t> m;
  for (auto &[t, d] : r)
    if (!m.emplace(t, d).second) c.fail("candidate " + show(t) + " yielded twice");
  return m;
}
std::string show_map(const std::map<std::string, size_t> &m) {
  std::string o = "{";
  for (auto &[t, d] : m) o += (o.size() > 1 ? ", " : "") + show(t) + ":" + std::to_string(d);
  return o + "}";
}

size_t lib_distance(int a, const std::string &x, const std::string &y) {
  switch (a) {
  case 0: { ll::distance::StandardDistance d; return d(x, y); }
  case 1: { ll::distance::TranspositionDistance d; return d(x, y); }
  default: { ll::distance::MergeAndSplitDistance d; return d(x, y); }
  }
}

// ---------------------------------------------------------------- C18
using Perm = std::vector<unsigned char>;
std::string ap(const Perm &p, const std::string &s) {
  std::string o = s;
  for (char &ch : o) ch = (char)p[(unsigned char)ch];
  return o;
}
Strings ap(const Perm &p, const Strings &v) {
  Strings o;
  for (auto &s : v) o.push_back(ap(p, s));
  return o;
}

void compare_renamed(Ctx &c, const Strings &dict, const Strings &queries, const Perm &p, bool storage) {
  Strings pd = ap(p, dict);
  std::sort(pd.begin(), pd.end());
  DawgPtr d = must_build(c, dict), e = must_build(c, pd);
  c.check(d->size() == e->size(), "renaming the bytes changes size()");
  c.check(inspect(d->root()).nodes == inspect(e->root()).nodes, "renaming the bytes changes the number of nodes");
  Strings it = iterate(c, *e, dict.size() + 3), itd = ap(p, iterate(c, *d, dict.size() + 3));
  std::sort(it.begin(), it.end());
  std::sort(itd.begin(), itd.end());
  c.check(it == itd, "renaming the bytes changes what iteration yields");
  if (storage) {
    std::stringstream s1, s2;
    c.check(ll::serialize_protobuf(d.get(), s1), "saving the original failed");
    c.check(ll::serialize_protobuf(e.get(), s2), "saving the renamed dictionary failed");
    DawgPtr d2(ll::deserialize_protobuf(s1)), e2(ll::deserialize_protobuf(s2));
    c.check((bool)d2 && (bool)e2, "loading a saved dictionary failed");
    d = std::move(d2);
    e = std::move(e2);
  }
  for (auto &t : dict) {
    c.check(d->contains(t), "term lost");
    c.check(e->contains(ap(p, t)), [&] { return "renamed term lost: " + show(ap(p, t)); });
  }
  for (auto &q : queries) {
    std::string pq = ap(p, q);
    c.check(d->contains(q) == e->contains(pq), [&] { return "membership of " + show(q) + " and of its renaming " + show(pq) + " differ"; });
    size_t n = c.below(4);
    int a = (int)c.below(3);
    c.describe([&] { return std::string("; ") + model::algo_name(a) + "(" + show(q) + "," + std::to_string(n) + ") and " + show(pq); });
    auto r1 = as_map(c, query(c, a, d->root(), q, n, true, dict.size()));
    auto r2 = as_map(c, query(c, a, e->root(), pq, n, true, dict.size()));
    std::map<std::string, size_t> r1p;
    for (auto &[t, k] : r1) r1p[ap(p, t)] = k;
    c.check(r1p == r2, [&] {
      return std::string(model::algo_name(a)) + "(" + show(q) + ", " + std::to_string(n) + ") gives " + show_map(r1) +
             " but renamed " + show(pq) + " gives " + show_map(r2);
    });
    c.compared(dict.size());
    if (!r1.empty() && r1.size() < dict.size()) c.nontrivial();
    if (!dict.empty()) {
      const std::string &t = dict[c.below(dict.size())];
      if (t.size() < 30 && q.size() < 30)
        c.check(lib_distance(a, q, t) == lib_distance(a, pq, ap(p, t)), [&] {
          return "distance function: " + show(q) + "," + show(t) + " and renamed " + show(pq) + "," + show(ap(p, t)) + " differ";
        });
    }
  }
}

Perm random_perm(Ctx &c) {
  Perm p(256);
  std::iota(p.begin(), p.end(), 0);
  switch (c.below(4)) {
  case 0: { // move a few letters onto special bytes
    static const unsigned char special[] = {0, 1, '\n', '\r', ' ', 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff, '"', '%', '*', 0x1a};
    for (char l : {'a', 'b', 'c'}) {
      unsigned char s = special[c.below(sizeof special)];
      size_t i = std::find(p.begin(), p.end(), s) - p.begin();
      std::swap(p[(unsigned char)l], p[i]);
    }
    break;
  }
  case 1: { // rotate
    size_t k = c.below(256);
    for (int i = 0; i < 256; ++i) p[i] = (unsigned char)(i + k);
    break;
  }
  case 2: { // xor
    size_t k = c.below(256);
    for (int i = 0; i < 256; ++i) p[i] = (unsigned char)(i ^ k);
    break;
  }
  default:
    for (size_t k = 256; k > 1; --k) std::swap(p[k - 1], p[c.below(k)]);
  }
  return p;
}

void perm_random(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  Strings dict = gen::to_vec(gen::term_set(c, alpha, {30, 8}));
  Perm p = random_perm(c);
  Strings qs;
  size_t k = c.range(1, 3);
  for (size_t i = 0; i < k; ++i) qs.push_back(gen::query_for(c, dict, alpha, 8));
  c.describe([&] { return "dictionary " + show(dict) + " renamed to " + show(ap(p, dict)); });
  compare_renamed(c, dict, qs, p, c.chance(1, 3));
  gen::mix(c, dict);
  gen::mix(c, qs);
}

// every ordered pair of byte values stands in for (a, b)
void perm_pairs(Ctx &c) {
  size_t idx = c.below(65536);
  unsigned char x = idx >> 8, y = idx & 255;
  if (x == y) return;
  Perm p(256);
  std::iota(p.begin(), p.end(), 0);
  std::swap(p['a'], p[std::find(p.begin(), p.end(), x) - p.begin()]);
  std::swap(p['b'], p[std::find(p.begin(), p.end(), y) - p.begin()]);
  Strings dict{"a", "aab", "ab", "aba", "b", "ba", "bba"};
  static const Strings Q{"ab", "ba", "", "abb", "bab", "aabb", "bbaa", "b"};
  Strings qs{Q[c.below(Q.size())], Q[c.below(Q.size())]};
  c.describe([&] { return "dictionary " + show(dict) + " renamed to " + show(ap(p, dict)); });
  compare_renamed(c, dict, qs, p, true);
  c.nontrivial();
}

// ---------------------------------------------------------------- C19
void monotone(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  Strings dict = gen::to_vec(gen::term_set(c, alpha, {30, 8}));
  DawgPtr d = must_build(c, dict);
  std::string q = gen::query_for(c, dict, alpha, 8);
  if (q.size() > 11) q.resize(11);
  c.describe([&] { return "dictionary " + show(dict) + "; query " + show(q); });
  int a = (int)c.below(3);
  size_t longest = q.size();
  for (auto &t : dict) longest = std::max(longest, t.size());
  std::map<std::string, size_t> prev;
  std::vector<size_t> ns;
  size_t top = c.range(1, 6);
  for (size_t n = 0; n <= top; ++n) ns.push_back(n);
  bool whole = longest <= 9 && dict.size() <= 16;
  if (whole) {
    ns.push_back(std::max(longest, top));
    size_t e = gen::extreme(c);
    if (e > ns.back()) ns.push_back(e);
    if (c.coin() && ns.back() < SIZE_MAX) ns.push_back(SIZE_MAX);
  }
  bool first = true, grew = false;
  for (size_t n : ns) {
    auto r = as_map(c, query(c, a, d->root(), q, n, true, dict.size()));
    c.describe([&] { return std::string("; ") + model::algo_name(a) + " bound " + std::to_string(n) + ": " + std::to_string(r.size()); });
    for (auto &[t, k] : r) {
      c.check(k <= n, [&] { return "reported distance " + std::to_string(k) + " exceeds the bound " + std::to_string(n); });
      c.check(d->contains(t), [&] { return "candidate " + show(t) + " is not in the dictionary"; });
      // the step at which it first appears is its distance
      if (!first && !prev.count(t) && n <= top)
        c.check(k == n, [&] { return "candidate " + show(t) + " appears first at bound " + std::to_string(n) + " with distance " + std::to_string(k); });
    }
    if (!first)
      for (auto &[t, k] : prev) {
        auto i = r.find(t);
        c.check(i != r.end(), [&] { return "raising the bound to " + std::to_string(n) + " loses " + show(t) + " for " + show(q) + " " + model::algo_name(a); });
        c.check(i->second == k, [&] { return "raising the bound changes the distance of " + show(t); });
      }
    if (n >= longest)
      c.check(r.size() == dict.size(), [&] {
        return std::string(model::algo_name(a)) + ": bound " + std::to_string(n) + " does not yield the whole dictionary for " + show(q) + ": " +
               std::to_string(r.size()) + " of " + std::to_string(dict.size());
      });
    if (!first && r.size() > prev.size() && !prev.empty()) grew = true;
    prev = r;
    first = false;
  }
  if (grew) c.nontrivial();
  c.mix(q);
  gen::mix(c, dict);
}

void nested(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  Strings dict = gen::to_vec(gen::term_set(c, alpha, {30, 9}));
  DawgPtr d = must_build(c, dict);
  std::string q = gen::query_for(c, dict, alpha, 9);
  if (q.size() > 14) q.resize(14);
  size_t n = gen::bound(c);
  c.describe([&] { return "dictionary " + show(dict) + "; query " + show(q) + " bound " + std::to_string(n); });
  auto s = as_map(c, query(c, model::STD, d->root(), q, n, true, dict.size()));
  for (int a : {model::TRA, model::MAS}) {
    auto r = as_map(c, query(c, a, d->root(), q, n, true, dict.size()));
    for (auto &[t, k] : s) {
      auto i = r.find(t);
      c.check(i != r.end(), [&] { return std::string(model::algo_name(a)) + " misses the STANDARD candidate " + show(t) + " of " + show(q); });
      c.check(i->second <= k, [&] { return std::string(model::algo_name(a)) + " reports a greater distance than STANDARD for " + show(t); });
    }
    if (r.size() > s.size()) c.nontrivial(), c.label("strictly larger result set");
  }
  c.mix(q);
  c.mix(n);
  gen::mix(c, dict);
}

size_t transduced(Ctx &c, int a, const std::string &q, const std::string &t, size_t n) {
  DawgPtr d = must_build(c, Strings{t});
  auto r = as_map(c, query(c, a, d->root(), q, n, true, 1));
  auto i = r.find(t);
  return i == r.end() ? SIZE_MAX : i->second;
}

void symmetric(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  int a = (int)c.below(3);
  std::string q = gen::str(c, alpha, 10);
  std::string t = c.chance(4, 5) ? gen::mutant(c, q, alpha, 5) : gen::str(c, alpha, 10);
  if (t.size() > 14) t.resize(14);
  size_t n = gen::bound(c);
  auto rev = [](std::string s) {
    std::reverse(s.begin(), s.end());
    return s;
  };
  std::string pre = gen::str(c, alpha, 6);
  c.describe([&] { return std::string(model::algo_name(a)) + " " + show(q) + " ~ " + show(t) + " bound " + std::to_string(n) + " prefix " + show(pre); });
  size_t base = transduced(c, a, q, t, n);
  auto name = [](size_t v) { return v == SIZE_MAX ? std::string("absent") : std::to_string(v); };
  auto same = [&](const char *what, size_t v) {
    c.check(v == base, [&] { return std::string(model::algo_name(a)) + "(" + show(q) + "," + show(t) + "," + std::to_string(n) + "): " + name(base) + ", but " + what + ": " + name(v); });
  };
  same("exchanged", transduced(c, a, t, q, n));
  same("reversed", transduced(c, a, rev(q), rev(t), n));
  same("with a common prefix", transduced(c, a, pre + q, pre + t, n));
  same("with a common suffix", transduced(c, a, q + pre, t + pre, n));
  same("padded on both sides", transduced(c, a, pre + q + pre, pre + t + pre, n));
  if (base != SIZE_MAX && base > 0) c.nontrivial();
  c.mix(q);
  c.mix(t);
  c.mix(n);
  c.mix(a);
}

// ---------------------------------------------------------------- C22
void shapes(Ctx &c, gen::DictOpt o, size_t maxn) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, o);
  Strings dict = gen::to_vec(set);
  c.describe([&] { return "terms " + show(dict); });
  DawgPtr d = must_build(c, dict);
  unsigned share = (unsigned)c.below(9);
  size_t made = 0;
  std::set<std::string> dead;
  if (c.chance(1, 5)) // ways to nowhere
    for (size_t k = c.range(1, 6); k > 0; --k) dead.insert(gen::query_for(c, dict, alpha, o.max_len));
  std::unique_ptr<ll::SortedDawg> g(new ll::SortedDawg(hand_built(c, set, share, &made, dead), set.size()));
  c.describe([&] { return "; hand-built graph of " + std::to_string(made) + " nodes" + (dead.empty() ? "" : " with ways to nowhere along " + show(gen::to_vec(dead))); });
  if (!dead.empty()) c.label("graph with dead ends");
  DawgPtr loaded;
  if (dead.empty() && c.chance(1, 3)) {
    std::stringstream s;
    c.check(ll::serialize_protobuf(g.get(), s), "saving a hand-built graph failed");
    loaded.reset(ll::deserialize_protobuf(s));
    c.check((bool)loaded, "loading a saved hand-built graph failed");
  }
  size_t nq = c.range(1, 4);
  for (size_t i = 0; i < nq; ++i) {
    std::string q = gen::query_for(c, dict, alpha, o.max_len);
    size_t n = c.below(maxn + 1);
    int a = (int)c.below(3);
    c.describe([&] { return std::string("; ") + model::algo_name(a) + "(" + show(q) + "," + std::to_string(n) + ")"; });
    Results r0 = query(c, a, d->root(), q, n, true, dict.size());
    Results r1 = query(c, a, g->root(), q, n, true, dict.size());
    auto m0 = as_map(c, r0), m1 = as_map(c, r1);
    c.check(m0 == m1, [&] {
      return std::string(model::algo_name(a)) + "(" + show(q) + "," + std::to_string(n) + "): minimal graph gives " + show_map(m0) + ", hand-built graph " + show_map(m1);
    });
    judge(c, a, dict, q, n, r1, true, "hand-built");
    if (loaded) {
      auto m2 = as_map(c, query(c, a, loaded->root(), q, n, true, dict.size()));
      c.check(m0 == m2, [&] { return "restored graph gives " + show_map(m2) + " instead of " + show_map(m0) + " for " + show(q); });
    }
    // membership by traversal
    c.check(g->contains(q) == (set.count(q) == 1), [&] { return "traversal of the hand-built graph is wrong for " + show(q); });
    ll::DawgNode *at = g->root();
    for (char ch : q) {
      if (!at) break;
      at = at->transition(ch);
    }
    c.check((at && at->is_final()) == (set.count(q) == 1), "stepwise traversal of the hand-built graph is wrong");
    c.mix(q);
  }
  check_contents(c, *g, set, "hand-built graph");
  gen::mix(c, dict);
  c.mix(made);
}

// transition()/for_each_edge() of single nodes against a map
void node_edges(Ctx &c) {
  std::vector<std::unique_ptr<ll::DawgNode>> targets;
  std::map<unsigned char, ll::DawgNode *> want;
  std::map<unsigned char, ll::DawgNode *> owned; // leaves that belong to the node alone
  ll::DawgNode n(c.coin());
  size_t k = c.below(c.chance(1, 10) ? 257 : 12), again = 0, replaced = 0;
  std::string labels;
  bool dense = c.coin();
  auto visit = [&] {
    std::map<unsigned char, ll::DawgNode *> got;
    size_t calls = 0;
    n.for_each_edge([&](char l, ll::DawgNode *t) {
      got[(unsigned char)l] = t;
      ++calls;
    });
    c.check(got == want && calls == want.size(),
            [&] { return "for_each_edge does not visit exactly the edges added " + show(labels); });
  };
  for (size_t i = 0; i < k; ++i) {
    unsigned char l = dense ? (unsigned char)(i * 37) : (unsigned char)c.below(c.chance(1, 4) ? 4 : 256);
    ll::DawgNode *t;
    if (want.count(l)) {
      if (owned.count(l) && c.coin()) { // another target: the node releases the old one
        owned[l] = t = new ll::DawgNode(c.coin());
        ++replaced;
      } else { // the edge that is there already
        t = want[l];
        ++again;
      }
    } else if (c.chance(1, 4)) {
      owned[l] = t = new ll::DawgNode(c.coin());
    } else if (!targets.empty() && c.coin())
      t = targets[c.below(targets.size())].get();
    else {
      targets.emplace_back(new ll::DawgNode(c.coin()));
      t = targets.back().get();
    }
    bool fin = t->is_final();
    c.check(n.add_edge((char)l, t) == &n, "add_edge does not return the node");
    want[l] = t;
    labels += (char)l;
    c.check(n.transition((char)l) == t, "a new edge is not followed");
    c.check(t->is_final() == fin, "adding an edge changes its target");
    if (k < 20 ? c.chance(1, 3) : c.chance(1, 40)) visit();
  }
  c.describe([&] { return "edges " + show(labels); });
  for (int l = 0; l < 256; ++l) {
    auto i = want.find((unsigned char)l);
    c.check(n.transition((char)l) == (i == want.end() ? nullptr : i->second),
            [&] { return "transition(" + std::to_string(l) + ") does not match the edges added " + show(labels); });
  }
  visit();
  visit();
  bool f = c.coin();
  n.is_final(f);
  c.check(n.is_final() == f, "is_final");
  for (auto &[l, t] : owned) delete t;
  if (want.size() > 1) c.nontrivial();
  if (again) c.label("edges added again");
  if (replaced) c.label("edges replaced");
  c.mix(labels);
}

RegEnum a1("C18", "all_byte_pairs", 65536, 65536, perm_pairs, 16);
Reg a2("C18", "random_renaming", 60000, 1500000, perm_random);
Reg b1("C19", "rising_bounds", 40000, 1200000, monotone);
Reg b2("C19", "nested_algorithms", 60000, 1500000, nested);
Reg b3("C19", "symmetries", 60000, 1500000, symmetric);
Reg d1("C22", "hand_built_graphs", 60000, 1500000, [](Ctx &c) { shapes(c, {40, 8}, 5); });
Reg d2("C22", "few_terms", 60000, 1500000, [](Ctx &c) { shapes(c, {8, 5}, 3); });
Reg d3("C22", "single_nodes", 40000, 800000, node_edges, 8);
} // namespace
