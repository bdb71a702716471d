// Thin, behaviour-level access to the library under test.
#pragma once
#include "gen.h"
#include "liblevenshtein/collection/dawg.h"
#include "liblevenshtein/collection/dawg_node.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include <functional>
#include <memory>
#include <unordered_map>
#include <unordered_set>

namespace lib {
namespace ll = liblevenshtein;
using pbt::Ctx;
using gen::Strings;
using DawgPtr = std::unique_ptr<ll::Dawg>;

inline DawgPtr build(Strings v) { return DawgPtr(ll::sorted_dawg(v.begin(), v.end())); }
inline DawgPtr build(const std::set<std::string> &s) { return build(Strings(s.begin(), s.end())); }
inline DawgPtr must_build(Ctx &c, const Strings &v) {
  DawgPtr d = build(v);
  if (!d) c.fail("construction from sorted terms failed: " + pbt::show(v));
  return d;
}
inline DawgPtr must_build(Ctx &c, const std::set<std::string> &s) { return must_build(c, Strings(s.begin(), s.end())); }

// What iterating the dictionary yields; stops (and reports) beyond cap.
inline Strings iterate(Ctx &c, const ll::Dawg &d, size_t cap) {
  Strings out;
  auto end = d.end();
  for (auto it = d.begin(); it != end; ++it) {
    if (out.size() >= cap) c.fail("iteration yields more than " + std::to_string(cap) + " terms");
    out.push_back(*it);
  }
  return out;
}

struct Graph {
  bool acyclic = true, dead = false;
  size_t nodes = 0, edges = 0;
  std::vector<const ll::DawgNode *> order; // children before parents
};

// Walks the graph through the public node interface, without recursion.
inline Graph inspect(const ll::DawgNode *root) {
  Graph g;
  using N = const ll::DawgNode *;
  std::unordered_map<N, int> state; // 1 open, 2 done
  std::unordered_map<N, bool> live;
  struct F {
    N n;
    std::vector<N> kids;
    size_t at;
  };
  std::vector<F> st;
  auto push = [&](N n) {
    F f{n, {}, 0};
    n->for_each_edge([&](char, ll::DawgNode *t) { f.kids.push_back(t); });
    g.edges += f.kids.size();
    state[n] = 1;
    st.push_back(std::move(f));
  };
  push(root);
  while (!st.empty()) {
    F &f = st.back();
    if (f.at < f.kids.size()) {
      N k = f.kids[f.at++];
      auto it = state.find(k);
      if (it == state.end())
        push(k);
      else if (it->second == 1)
        g.acyclic = false;
      continue;
    }
    bool lv = f.n->is_final();
    for (N k : f.kids) lv = lv || live[k];
    live[f.n] = lv;
    if (!lv && f.n != root) g.dead = true;
    state[f.n] = 2;
    g.order.push_back(f.n);
    st.pop_back();
  }
  g.nodes = g.order.size();
  return g;
}

inline std::string diff(const std::set<std::string> &want, const std::multiset<std::string> &got) {
  std::string o;
  size_t n = 0;
  for (auto &s : want)
    if (!got.count(s) && n++ < 5) o += " missing " + pbt::show(s);
  n = 0;
  for (auto it = got.begin(); it != got.end(); it = got.upper_bound(*it)) {
    if (!want.count(*it) && n++ < 5) o += " unexpected " + pbt::show(*it);
    if (got.count(*it) > 1 && n++ < 5) o += " " + std::to_string(got.count(*it)) + " times " + pbt::show(*it);
  }
  return o;
}

// Contents of a dictionary against a set: size, iteration, membership of the
// terms, their prefixes and some neighbours.
inline void check_contents(Ctx &c, const ll::Dawg &d, const std::set<std::string> &want, const char *what,
                           const Strings &probes = {}) {
  c.check(d.size() == want.size(), [&] {
    return std::string(what) + ": size() is " + std::to_string(d.size()) + ", expected " + std::to_string(want.size());
  });
  Strings it = iterate(c, d, want.size() + 3);
  std::multiset<std::string> got(it.begin(), it.end());
  c.check(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()),
          [&] { return std::string(what) + ": iteration differs:" + diff(want, got); });
  for (auto &t : want)
    c.check(d.contains(t), [&] { return std::string(what) + ": contains(" + pbt::show(t) + ") is false"; });
  for (auto &p : probes)
    c.check(d.contains(p) == (want.count(p) == 1), [&] {
      return std::string(what) + ": contains(" + pbt::show(p) + ") is " + (want.count(p) ? "false" : "true");
    });
}

} // namespace lib
