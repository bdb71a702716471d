// C26: queries do only the work that is within reach.
//
// Work is measured as the number of allocations made (and their bytes) and as
// the number of basic blocks executed (this binary is compiled with
// -fsanitize-coverage=trace-pc), which are exact and do not depend on the load
// of the machine.
#include "graphs.h"
#include "query.h"
#include <cstdlib>
#include <new>

namespace {
uint64_t n_alloc = 0, n_bytes = 0, n_steps = 0;
}
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++n_steps; }
void *operator new(size_t n) {
  ++n_alloc;
  n_bytes += n;
  if (void *p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

using namespace lib;
using pbt::Reg;
using pbt::show;

namespace {

struct Work {
  uint64_t count = 0, bytes = 0, steps = 0;
};
template <class F> Work work(F f) {
  uint64_t a = n_alloc, b = n_bytes, s = n_steps;
  f();
  return {n_alloc - a, n_bytes - b, n_steps - s};
}
std::string text(Work w) { return std::to_string(w.count) + " allocations of " + std::to_string(w.bytes) + " bytes and " + std::to_string(w.steps) + " steps"; }

template <Algorithm A, class R> Work drain(ll::DawgNode *root, const std::string &q, size_t n, size_t stop, size_t cap, size_t *got) {
  size_t k = 0;
  Work w = work([&] {
    ll::Transducer<A, R> t(root);
    auto range = t(q, n);
    if (stop == 0) return; // merely opened
    auto end = range.end();
    for (auto it = range.begin(); it != end && k < stop && k < cap; ++it) {
      (void)*it;
      if (++k == stop) break;
    }
  });
  if (got) *got = k;
  return w;
}
// the work of opening a query and taking `stop` candidates
Work cost(int algo, bool with, ll::DawgNode *root, const std::string &q, size_t n, size_t stop, size_t cap, size_t *got = nullptr) {
  switch (algo * 2 + with) {
  case 0: return drain<Algorithm::STANDARD, std::string>(root, q, n, stop, cap, got);
  case 1: return drain<Algorithm::STANDARD, Candidate>(root, q, n, stop, cap, got);
  case 2: return drain<Algorithm::TRANSPOSITION, std::string>(root, q, n, stop, cap, got);
  case 3: return drain<Algorithm::TRANSPOSITION, Candidate>(root, q, n, stop, cap, got);
  case 4: return drain<Algorithm::MERGE_AND_SPLIT, std::string>(root, q, n, stop, cap, got);
  default: return drain<Algorithm::MERGE_AND_SPLIT, Candidate>(root, q, n, stop, cap, got);
  }
}

size_t row_min(int algo, const std::string &q, const std::string &p) {
  size_t best = SIZE_MAX;
  for (size_t j = 0; j <= q.size(); ++j) best = std::min(best, model::distance(algo, q.substr(0, j), p));
  return best;
}
// No string that starts with p has a prefix of q ... q itself within n: every
// way to edit q into such a string passes through one of the last two rows.
bool out_of_reach(const std::string &q, const std::string &p, size_t n) {
  if (p.empty()) return false;
  for (int a = 0; a < 3; ++a)
    if (row_min(a, q, p) <= n || row_min(a, q, p.substr(0, p.size() - 1)) <= n) return false;
  return true;
}

void reach(Ctx &c, size_t min_tails, size_t max_tails) {
  std::string alpha = gen::alphabet(c);
  auto near = gen::term_set(c, alpha, {20, 8});
  std::string q = gen::query_for(c, gen::to_vec(near), alpha, 8);
  if (q.size() > 12) q.resize(12);
  size_t n = c.below(5);
  // a few prefixes that lead out of reach
  std::set<std::string> small = near;
  Strings far;
  size_t nf = c.range(1, 3);
  for (size_t i = 0; i < nf; ++i) {
    std::string p = c.coin() ? gen::mutant(c, q, alpha, 3) : "";
    p = p.substr(0, c.below(p.size() + 1));
    bool foreign = c.coin();
    std::string other = foreign ? gen::alphabet(c) : alpha;
    for (size_t k = 0; !out_of_reach(q, p, n) && k < 60; ++k) p += gen::letter(c, other);
    if (out_of_reach(q, p, n)) far.push_back(p);
  }
  if (far.empty()) {
    c.label("nothing out of reach");
    return;
  }
  for (auto &p : far) small.insert(p + gen::letter(c, alpha));
  std::set<std::string> large = small;
  size_t tails = c.range(min_tails, max_tails);
  uint64_t s = c.below(0);
  for (size_t i = 0; i < tails; ++i) {
    std::string t = far[pbt::splitmix(s) % far.size()];
    for (size_t k = 1 + pbt::splitmix(s) % 9; k > 0; --k) t += alpha[pbt::splitmix(s) % alpha.size()];
    large.insert(t);
  }
  c.describe([&] {
    return "query " + show(q) + " within " + std::to_string(n) + " of " + show(gen::to_vec(small)) + " and " +
           std::to_string(large.size() - small.size()) + " more terms after the prefixes " + show(far);
  });
  bool hand = c.chance(1, 4); // plain tries, in which nothing is shared
  DawgPtr d1, d2;
  if (hand) {
    d1.reset(new ll::SortedDawg(hand_built(c, small, 0), small.size()));
    d2.reset(new ll::SortedDawg(hand_built(c, large, 0), large.size()));
  } else {
    d1 = must_build(c, small);
    d2 = must_build(c, large);
  }
  size_t extra = inspect(d2->root()).nodes - inspect(d1->root()).nodes;
  for (int a = 0; a < 3; ++a) {
    bool with = c.coin();
    size_t g1, g2;
    Work w1 = cost(a, with, d1->root(), q, n, SIZE_MAX, small.size() + 1, &g1);
    Work w2 = cost(a, with, d2->root(), q, n, SIZE_MAX, small.size() + 1, &g2);
    c.check(g1 == g2, "terms that are out of reach change the number of candidates");
    c.check(w2.count <= w1.count + w1.count / 2 + 64 && w2.bytes <= 2 * w1.bytes + 8192 && w2.steps <= w1.steps + w1.steps / 2 + 2000, [&] {
      return std::string(model::algo_name(a)) + ": " + std::to_string(large.size() - small.size()) + " terms that are out of reach turn " +
             text(w1) + " into " + text(w2);
    });
  }
  // membership takes no more in the larger dictionary
  for (int i = 0; i < 2; ++i) {
    std::string x = i ? q : *std::next(small.begin(), c.below(small.size()));
    bool r1, r2;
    Work w1 = work([&] { r1 = d1->contains(x); }), w2 = work([&] { r2 = d2->contains(x); });
    c.check(r1 == r2, "membership of a term depends on terms that are out of reach");
    c.check(w2.count <= w1.count + 16 && w2.bytes <= w1.bytes + 4096 && w2.steps <= 2 * w1.steps + 1500 * (x.size() + 1),
            [&] { return "testing membership of " + show(x) + " takes " + text(w2) + " instead of " + text(w1); });
  }
  if (extra > 150) c.nontrivial();
  c.label(extra > 150 ? "more than 150 nodes out of reach" : "fewer nodes out of reach");
  c.mix(q);
  c.mix(s);
  gen::mix(c, far);
}

// All words up to some length are candidates, so any order of producing them
// has the first ones at once.
void on_demand(Ctx &c) {
  std::string alpha = "abc";
  size_t len = c.range(5, 7);
  std::set<std::string> set;
  Strings level{""};
  for (size_t l = 0; l <= len; ++l) {
    Strings next;
    for (auto &s : level) {
      set.insert(s);
      for (char ch : alpha) next.push_back(s + ch);
    }
    level = next;
  }
  std::string q = gen::str(c, alpha, 7);
  size_t n = std::max(len, q.size()) + c.below(4);
  if (c.chance(1, 8)) n = SIZE_MAX - c.below(3);
  bool hand = c.coin();
  c.describe([&] { return "all words over abc to length " + std::to_string(len) + (hand ? " as a trie" : "") + ", query " + show(q) + " within " + std::to_string(n); });
  DawgPtr d;
  if (hand)
    d.reset(new ll::SortedDawg(hand_built(c, set, 0), set.size()));
  else
    d = must_build(c, set);
  for (int a = 0; a < 3; ++a) {
    bool with = c.coin();
    size_t all, few;
    Work total = cost(a, with, d->root(), q, n, SIZE_MAX, set.size() + 1, &all);
    c.check(all == set.size(), "not every term is a candidate");
    Work opened = cost(a, with, d->root(), q, n, 0, set.size() + 1);
    size_t k = c.range(1, 4);
    Work first = cost(a, with, d->root(), q, n, k, set.size() + 1, &few);
    auto describe = [&](const char *what, Work w) {
      return std::string(model::algo_name(a)) + ": " + what + " takes " + text(w) + ", all " + std::to_string(all) + " candidates take " + text(total);
    };
    c.check(opened.count <= total.count / 10 && opened.steps <= total.steps / 10, [&] { return describe("opening the query", opened); });
    c.check(first.count <= total.count / 8 && first.steps <= total.steps / 8, [&] { return describe("taking the first candidates", first); });
  }
  // iterating over the dictionary
  auto iterate_some = [&](size_t stop) {
    return work([&] {
      size_t k = 0;
      auto end = d->end();
      for (auto it = d->begin(); it != end && k < stop; ++it, ++k) (void)*it;
    });
  };
  Work total = iterate_some(SIZE_MAX), first = iterate_some(c.range(0, 3));
  c.check(first.count <= total.count / 8 && first.steps <= total.steps / 8, [&] { return "the first terms of an iteration take " + text(first) + ", all take " + text(total); });
  c.nontrivial();
  c.mix(q);
  c.mix(n * 16 + len * 2 + hand);
}

// A second pass costs what the first one cost, and a query costs what it
// would cost on a fresh transducer: nothing piles up.
void repeated(Ctx &c, size_t min_others, size_t max_others) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {40, 8});
  Strings dict = gen::to_vec(set);
  c.describe([&] { return "dictionary " + show(dict) + ":"; });
  DawgPtr d = must_build(c, set);
  ll::Transducer<Algorithm::STANDARD, Candidate> s(d->root());
  ll::Transducer<Algorithm::TRANSPOSITION, Candidate> t(d->root());
  ll::Transducer<Algorithm::MERGE_AND_SPLIT, Candidate> m(d->root());
  auto pass = [&](int a, const std::string &q, size_t n) {
    auto go = [&](auto &tr) {
      return work([&] {
        for (auto &x : tr(q, n)) (void)x;
      });
    };
    return a == 0 ? go(s) : a == 1 ? go(t) : go(m);
  };
  std::string q = gen::query_for(c, dict, alpha, 8);
  int a = (int)c.below(3);
  size_t n = c.below(5);
  Work first = pass(a, q, n);
  size_t k = c.range(min_others, max_others);
  for (size_t i = 0; i < k; ++i) {
    std::string x = c.coin() ? q : gen::query_for(c, dict, alpha, 8);
    pass((int)c.below(3), x, c.below(5));
  }
  Work last = pass(a, q, n);
  c.describe([&] { return " " + std::string(model::algo_name(a)) + "(" + show(q) + ", " + std::to_string(n) + ") again after " + std::to_string(k) + " others"; });
  c.check(last.count <= first.count + first.count / 2 + 64 && last.bytes <= 2 * first.bytes + 8192 && last.steps <= first.steps + first.steps / 2 + 2000,
          [&] { return "a repeated query takes " + text(last) + " instead of " + text(first); });
  if (set.size() > 1) c.nontrivial();
  c.mix(q);
  c.mix(k);
  gen::mix(c, dict);
}

// Membership along nodes with one edge and along nodes with very many.
void wide_membership(Ctx &c) {
  size_t len = c.range(1, 12);
  std::string t;
  for (size_t i = 0; i < len; ++i) t += (char)(c.coin() ? 255 - c.below(3) : c.coin() ? 127 - c.below(3) : c.below(256));
  size_t width = c.range(100, 256);
  std::set<std::string> small{t}, large{t};
  for (size_t i = 0; i < len; ++i)
    for (size_t k = 0; k < width; ++k) large.insert(t.substr(0, i) + (char)k);
  std::string x = t; // or a word that is not a term, with its last character exchanged
  if (c.chance(1, 3)) x += (char)c.below(256);
  c.describe([&] { return "the term " + show(t) + " alone and with " + std::to_string(width) + " branches at each of its nodes, membership of " + show(x); });
  bool hand = c.coin();
  DawgPtr d1, d2;
  if (hand) {
    d1.reset(new ll::SortedDawg(plain_trie(small), small.size()));
    d2.reset(new ll::SortedDawg(plain_trie(large), large.size()));
  } else {
    d1 = must_build(c, small);
    d2 = must_build(c, large);
  }
  bool r1, r2;
  Work w1 = work([&] { r1 = d1->contains(x); }), w2 = work([&] { r2 = d2->contains(x); });
  c.check(r1 == r2 && r1 == (x == t), "membership is wrong");
  c.check(w2.count <= w1.count + 16 && w2.bytes <= w1.bytes + 4096 && w2.steps <= 2 * w1.steps + 300 * (x.size() + 1),
          [&] { return "testing membership takes " + text(w2) + " instead of " + text(w1); });
  c.nontrivial();
  c.mix(x);
  c.mix(width * 2 + hand);
}

// Whether anything that begins with p is within n of q: the best way to go on
// is with what q still has, after what completes a transposition or a split.
bool viable(int algo, const std::string &q, const std::string &p, size_t n) {
  for (size_t i = 0; i <= q.size(); ++i) {
    if (model::distance(algo, q, p + q.substr(i)) <= n) return true;
    for (char ch : q + "!")
      if (model::distance(algo, q, p + ch + q.substr(i)) <= n) return true;
  }
  return false;
}

// Very many edges that lead just out of reach, to nodes with one or very many
// continuations each: not even the edges of these nodes may be looked at.
void wide_out_of_reach(Ctx &c) {
  int a = (int)c.below(3);
  size_t n = c.below(3), len = c.below(5);
  std::string q, base;
  for (size_t i = 0; i < len; ++i) q += (char)('a' + c.below(3));
  for (size_t i = c.below(n + 1); i > 0; --i) base += (char)(c.coin() ? 'x' : 'a' + c.below(3));
  std::string tail(1, (char)128);
  while (!base.empty() && !viable(a, q, base, n)) base.pop_back();
  while (viable(a, q, base + tail, n)) {
    if (tail.size() > 8) return c.label("nothing is out of reach");
    tail += 'z';
  }
  size_t parents = c.range(40, 100), width = c.range(120, 200);
  std::set<std::string> small{q}, large{q};
  for (size_t i = 0; i < parents; ++i) {
    tail[0] = (char)(128 + i);
    std::string p = base + tail;
    small.insert(p + '\x01');
    for (size_t k = 0; k < width; ++k) large.insert(p + (char)(k + 1));
  }
  c.describe([&] { return std::string(model::algo_name(a)) + " query " + show(q) + " within " + std::to_string(n) + " of itself and of " + std::to_string(parents) + " prefixes like " + show(base + tail) + " with 1 and with " + std::to_string(width) + " continuations"; });
  DawgPtr d1(new ll::SortedDawg(plain_trie(small), small.size())), d2(new ll::SortedDawg(plain_trie(large), large.size()));
  bool with = c.coin();
  size_t g1, g2;
  Work w1 = cost(a, with, d1->root(), q, n, SIZE_MAX, large.size() + 1, &g1);
  Work w2 = cost(a, with, d2->root(), q, n, SIZE_MAX, large.size() + 1, &g2);
  c.check(g1 == 1 && g2 == 1, "the query is not the only candidate");
  c.check(w2.count <= w1.count + w1.count / 2 + 64 && w2.bytes <= 2 * w1.bytes + 8192 && w2.steps <= w1.steps + w1.steps / 2 + 2000, [&] {
    return "the continuations out of reach turn " + text(w1) + " into " + text(w2);
  });
  c.nontrivial();
  c.mix(q + base);
  c.mix((parents * 1000 + width) * 3 + a);
}

Reg r6("C26", "wide_membership", 600, 20000, [](Ctx &c) { c.limits = false; wide_membership(c); });
Reg r7("C26", "wide_out_of_reach", 200, 5000, [](Ctx &c) { c.limits = false; wide_out_of_reach(c); });
Reg r1("C26", "out_of_reach", 6000, 150000, [](Ctx &c) { reach(c, 50, 400); });
Reg r2("C26", "many_out_of_reach", 60, 2000, [](Ctx &c) { reach(c, 4000, 20000); });
Reg r3("C26", "on_demand", 240, 4000, on_demand);
Reg r4("C26", "repeated", 20000, 400000, [](Ctx &c) { repeated(c, 1, 30); });
Reg r5("C26", "after_thousands", 40, 1000, [](Ctx &c) { repeated(c, 2000, 9000); });
} // namespace
