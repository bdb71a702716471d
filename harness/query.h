// Running queries of any of the three algorithms and both result types.
#pragma once
#include "lib.h"
#include "liblevenshtein/transducer/algorithm.h"
#include "liblevenshtein/transducer/transducer.h"

namespace lib {
using ll::Algorithm;
using Candidate = std::pair<std::string, std::size_t>;
using Results = std::vector<Candidate>;

constexpr size_t NO_DISTANCE = SIZE_MAX;
constexpr size_t DEFAULT_BOUND = SIZE_MAX - 77; // marks "call without a bound"

inline void put(Results &r, const std::string &s) { r.emplace_back(s, NO_DISTANCE); }
inline void put(Results &r, const Candidate &s) { r.push_back(s); }

template <Algorithm A, class R>
Results collect(Ctx &c, ll::Transducer<A, R> &t, const std::string &q, size_t n, size_t cap) {
  Results out;
  auto take = [&](const R &r) {
    if (out.size() >= cap) c.fail("a query yields more candidates than the dictionary has terms: " + pbt::show(q));
    put(out, r);
  };
  if (n == DEFAULT_BOUND) {
    for (const R &r : t(std::string(q))) take(r); // a temporary, as in idiomatic use
  } else {
    for (const R &r : t(std::string(q), n)) take(r);
  }
  return out;
}

template <Algorithm A> Results query(Ctx &c, ll::DawgNode *root, const std::string &q, size_t n, bool with, size_t cap) {
  if (with) {
    ll::Transducer<A, Candidate> t(root);
    return collect(c, t, q, n, cap);
  }
  ll::Transducer<A, std::string> t(root);
  return collect(c, t, q, n, cap);
}

inline Results query(Ctx &c, int algo, ll::DawgNode *root, const std::string &q, size_t n, bool with, size_t cap) {
  switch (algo) {
  case model::STD: return query<Algorithm::STANDARD>(c, root, q, n, with, cap);
  case model::TRA: return query<Algorithm::TRANSPOSITION>(c, root, q, n, with, cap);
  default: return query<Algorithm::MERGE_AND_SPLIT>(c, root, q, n, with, cap);
  }
}

inline std::string bound_name(size_t n) { return n == DEFAULT_BOUND ? "default" : std::to_string(n); }

// Judges a result list against the reference model.
inline void judge(Ctx &c, int algo, const Strings &dict, const std::string &q, size_t n, const Results &got,
                  bool distances, const char *what = "query") {
  size_t lim = n == DEFAULT_BOUND ? 2 : n;
  std::map<std::string, size_t> want;
  size_t outside = 0;
  for (auto &t : dict) {
    size_t len = t.size() > q.size() ? t.size() - q.size() : q.size() - t.size();
    if (algo != model::MAS && len > lim) {
      ++outside;
      continue;
    }
    size_t d = model::distance(algo, q, t);
    if (d <= lim)
      want[t] = d;
    else
      ++outside;
  }
  auto where = [&] {
    return std::string(what) + " " + model::algo_name(algo) + "(" + pbt::show(q) + ", " + bound_name(n) + ")";
  };
  std::set<std::string> seen;
  for (auto &[t, d] : got) {
    auto it = want.find(t);
    if (it == want.end())
      c.fail(where() + " yields " + pbt::show(t) +
             (std::find(dict.begin(), dict.end(), t) == dict.end()
                  ? " which is not in the dictionary"
                  : " whose distance is " + std::to_string(model::distance(algo, q, t))));
    if (!seen.insert(t).second) c.fail(where() + " yields " + pbt::show(t) + " twice");
    if (distances && d != it->second)
      c.fail(where() + " reports distance " + std::to_string(d) + " for " + pbt::show(t) + ", it is " +
             std::to_string(it->second));
  }
  if (seen.size() != want.size())
    for (auto &[t, d] : want)
      if (!seen.count(t))
        c.fail(where() + " misses " + pbt::show(t) + " at distance " + std::to_string(d));
  c.compared(dict.size());
  if (!want.empty() && outside > 0) {
    c.nontrivial();
    c.label("query with hits and misses");
  } else if (!want.empty())
    c.label("query with hits only");
  else
    c.label("query without hits");
}

} // namespace lib
