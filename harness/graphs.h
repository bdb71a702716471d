// Graphs assembled by hand from nodes and edges.
#pragma once
#include "lib.h"

namespace lib {

// A trie of the terms in which equal subtrees are shared with probability
// share/8, and edges are added in a random order.  Owned by the caller.
// `dead` are ways that lead nowhere (unless they are also ways to terms).
inline ll::DawgNode *hand_built(Ctx &c, const std::set<std::string> &terms, unsigned share, size_t *nodes = nullptr, const std::set<std::string> &dead = {}) {
  struct T {
    bool fin = false;
    std::map<unsigned char, size_t> kids;
  };
  std::vector<T> trie(1);
  auto add = [&](const std::string &t) {
    size_t at = 0;
    for (unsigned char ch : t) {
      auto it = trie[at].kids.find(ch);
      if (it == trie[at].kids.end()) {
        size_t id = trie.size();
        trie[at].kids[ch] = id;
        trie.emplace_back();
        at = id;
      } else
        at = it->second;
    }
    return at;
  };
  for (auto &t : terms) {
    size_t at = add(t);
    trie[at].fin = true;
  }
  for (auto &t : dead) add(t);
  std::vector<ll::DawgNode *> node(trie.size());
  std::vector<size_t> cls(trie.size());
  std::map<std::pair<bool, std::vector<std::pair<unsigned char, size_t>>>, size_t> ids;
  std::map<size_t, std::vector<ll::DawgNode *>> have; // class -> nodes of it
  size_t made = 0;
  for (size_t i = trie.size(); i-- > 0;) {
    std::pair<bool, std::vector<std::pair<unsigned char, size_t>>> key;
    key.first = trie[i].fin;
    for (auto &[ch, k] : trie[i].kids) key.second.emplace_back(ch, cls[k]);
    cls[i] = ids.emplace(std::move(key), ids.size()).first->second;
    auto &h = have[cls[i]];
    if (i != 0 && !h.empty() && share > 0 && c.below(8) < share) {
      node[i] = h[c.below(h.size())];
      continue;
    }
    ll::DawgNode *n;
    std::vector<std::pair<char, ll::DawgNode *>> es;
    for (auto &[ch, k] : trie[i].kids) es.emplace_back((char)ch, node[k]);
    for (size_t k = es.size(); k > 1; --k) std::swap(es[k - 1], es[c.below(k)]);
    if (c.chance(1, 6)) { // through the constructor that takes the edges
      std::map<char, ll::DawgNode *> m(es.begin(), es.end());
      n = new ll::DawgNode(m, trie[i].fin);
    } else {
      bool early = c.coin();
      n = new ll::DawgNode(early && trie[i].fin);
      for (auto &[ch, t] : es) n->add_edge(ch, t);
      if (!early) n->is_final(trie[i].fin);
    }
    ++made;
    h.push_back(n);
    node[i] = n;
  }
  if (nodes) *nodes = made;
  return node[0];
}

// A plain trie of the terms; draws nothing, fit for very long terms.
inline ll::DawgNode *plain_trie(const std::set<std::string> &terms) {
  auto *root = new ll::DawgNode();
  for (auto &t : terms) {
    ll::DawgNode *n = root;
    for (char ch : t) {
      ll::DawgNode *x = n->transition(ch);
      if (!x) n->add_edge(ch, x = new ll::DawgNode());
      n = x;
    }
    n->is_final(true);
  }
  return root;
}

// A few related terms of the given length: prefixes, and words that differ
// near the end, at the beginning or anywhere. (Minimising a uniform term takes
// cubic time, so those are not for construction.)
inline std::set<std::string> long_terms(Ctx &c, size_t lo, size_t hi, bool can_be_uniform = true) {
  std::string alpha = gen::alphabet(c), w;
  size_t len = c.range(lo, hi);
  if (c.coin()) // about a power of two
    for (size_t p = 256; p <= 131072; p *= 2)
      if (p >= lo && p <= hi && c.coin()) {
        len = p + c.below(5) - 2;
        break;
      }
  uint64_t s = c.below(0);
  bool uniform = c.chance(1, 4) && can_be_uniform;
  if (!can_be_uniform && alpha.size() < 2) alpha += (char)(alpha[0] + 1);
  while (w.size() < len) w += uniform ? alpha[0] : alpha[pbt::splitmix(s) % alpha.size()];
  std::set<std::string> set{w};
  size_t k = c.below(4);
  for (size_t i = 0; i < k; ++i) {
    std::string v = w;
    size_t at = c.below(3) == 0 ? c.below(v.size()) : v.size() - 1 - c.below(std::min<size_t>(v.size(), 5));
    switch (c.below(3)) {
    case 0: v.resize(at); break;
    case 1: v[at] = (char)(v[at] + 1); break;
    default: v.erase(at, 1);
    }
    set.insert(v);
  }
  return set;
}
inline std::string lengths(const std::set<std::string> &set) {
  std::string o = "terms of";
  for (auto &t : set) o += " " + std::to_string(t.size());
  return o + " characters";
}

} // namespace lib
