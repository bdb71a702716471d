// Reference models: textbook dynamic programmes for the three edit distances,
// sets of strings, and the minimal automaton of a finite set.  Nothing here is
// derived from the library's code.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace model {

enum Algo { STD = 0, TRA = 1, MAS = 2 };
inline const char *algo_name(int a) {
  return a == STD ? "STANDARD" : a == TRA ? "TRANSPOSITION" : "MERGE_AND_SPLIT";
}

inline size_t distance(int algo, const std::string &a, const std::string &b) {
  size_t n = a.size(), m = b.size(), W = m + 1;
  static thread_local std::vector<size_t> buf;
  if (buf.size() < (n + 1) * W) buf.resize((n + 1) * W);
  size_t *D = buf.data();
  for (size_t i = 0; i <= n; ++i) {
    for (size_t j = 0; j <= m; ++j) {
      size_t best;
      if (i == 0 && j == 0) {
        best = 0;
      } else {
        best = SIZE_MAX;
        if (i > 0) best = std::min(best, D[(i - 1) * W + j] + 1);                                     // delete
        if (j > 0) best = std::min(best, D[i * W + j - 1] + 1);                                       // insert
        if (i > 0 && j > 0) best = std::min(best, D[(i - 1) * W + j - 1] + (a[i - 1] != b[j - 1]));   // keep or substitute
        if (algo == TRA && i > 1 && j > 1 && a[i - 1] == b[j - 2] && a[i - 2] == b[j - 1])
          best = std::min(best, D[(i - 2) * W + j - 2] + 1);                                          // transpose
        if (algo == MAS && i > 1 && j > 0) best = std::min(best, D[(i - 2) * W + j - 1] + 1);         // merge two into one
        if (algo == MAS && i > 0 && j > 1) best = std::min(best, D[(i - 1) * W + j - 2] + 1);         // split one into two
      }
      D[i * W + j] = best;
    }
  }
  return D[n * W + m];
}

// Number of states of the minimal (partial) deterministic automaton that
// accepts exactly `terms`; the empty set has the root alone.
inline size_t minimal_nodes(const std::set<std::string> &terms) {
  struct T {
    bool fin = false;
    std::map<unsigned char, size_t> kids;
  };
  std::vector<T> trie(1);
  for (auto &t : terms) {
    size_t at = 0;
    for (unsigned char c : t) {
      auto it = trie[at].kids.find(c);
      if (it == trie[at].kids.end()) {
        size_t id = trie.size();
        trie[at].kids[c] = id;
        trie.emplace_back();
        at = id;
      } else
        at = it->second;
    }
    trie[at].fin = true;
  }
  // children have larger indices than their parents
  std::vector<size_t> cls(trie.size());
  std::map<std::pair<bool, std::vector<std::pair<unsigned char, size_t>>>, size_t> ids;
  for (size_t i = trie.size(); i-- > 0;) {
    std::pair<bool, std::vector<std::pair<unsigned char, size_t>>> key;
    key.first = trie[i].fin;
    for (auto &[c, k] : trie[i].kids) key.second.emplace_back(c, cls[k]);
    cls[i] = ids.emplace(std::move(key), ids.size()).first->second;
  }
  return ids.size();
}

} // namespace model
