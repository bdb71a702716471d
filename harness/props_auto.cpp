// C27: automaton steps keep exactly what is accepted, at which cost.
//
// A position (i, e) of the automaton for the word w stands for "e errors so
// far, w[i..] still to come"; a special one for a transposition (or split) of
// which the first character has been read.  What a state accepts is computed
// from that definition with the reference distances and compared before and
// after a step, before and after removing subsumed positions, and for every
// pair of positions of which one is said to subsume the other.
#include "gen.h"
#include "liblevenshtein/transducer/algorithm.h"
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/distance.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/position_transition.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include "liblevenshtein/transducer/state_transition.h"
#include "liblevenshtein/transducer/subsumes.h"
#include "liblevenshtein/transducer/unsubsume.h"
#include <memory>

namespace ll = liblevenshtein;
using gen::Strings;
using ll::Algorithm;
using ll::Position;
using ll::State;
using pbt::Ctx;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;

namespace {

struct P {
  size_t i, e;
  bool s;
  auto operator<=>(const P &) const = default;
};
std::string sh(const P &p) { return "(" + std::to_string(p.i) + "," + std::to_string(p.e) + (p.s ? ",t)" : ")"); }
std::string sh(const std::vector<P> &v) {
  std::string o = "[";
  for (auto &p : v) o += sh(p);
  return o + "]";
}
Position *make(const P &p) { return p.s ? new Position(p.i, p.e, true) : new Position(p.i, p.e); }

constexpr size_t INF = SIZE_MAX;

template <Algorithm A> ll::StateTransition stepper_of(size_t n, size_t len) {
  return ll::StateTransition(ll::position_transition<A>, ll::compare<A>, ll::merge<A>, ll::UnsubsumeFn(ll::subsumes<A>), n, len);
}
ll::StateTransition stepper(int a, size_t n, size_t len) {
  return a == 0   ? stepper_of<Algorithm::STANDARD>(n, len)
         : a == 1 ? stepper_of<Algorithm::TRANSPOSITION>(n, len)
                  : stepper_of<Algorithm::MERGE_AND_SPLIT>(n, len);
}
size_t inferred(int a, State *s, size_t len) {
  return a == 0   ? ll::distance<Algorithm::STANDARD>(s, len)
         : a == 1 ? ll::distance<Algorithm::TRANSPOSITION>(s, len)
                  : ll::distance<Algorithm::MERGE_AND_SPLIT>(s, len);
}
bool subsumes(int a, const P &x, const P &y, size_t n) {
  std::unique_ptr<Position> p(make(x)), q(make(y));
  return a == 0   ? ll::subsumes<Algorithm::STANDARD>(p.get(), q.get(), n)
         : a == 1 ? ll::subsumes<Algorithm::TRANSPOSITION>(p.get(), q.get(), n)
                  : ll::subsumes<Algorithm::MERGE_AND_SPLIT>(p.get(), q.get(), n);
}
ll::UnsubsumeFn unsubsume(int a) {
  return a == 0   ? ll::UnsubsumeFn(ll::subsumes<Algorithm::STANDARD>)
         : a == 1 ? ll::UnsubsumeFn(ll::subsumes<Algorithm::TRANSPOSITION>)
                  : ll::UnsubsumeFn(ll::subsumes<Algorithm::MERGE_AND_SPLIT>);
}

// What positions accept, by definition.
struct Meaning {
  int algo;
  std::string w;
  size_t n;
  std::string alpha;
  Strings xs;                            // the continuations looked at: a set closed under taking suffixes
  std::map<std::string, size_t> number;  // of each of them
  std::vector<std::vector<size_t>> base; // [i][x] = distance of w[i..] and x

  Meaning(int a, std::string word, size_t bound, std::string alphabet, Strings cont)
      : algo(a), w(std::move(word)), n(bound), alpha(std::move(alphabet)), xs(std::move(cont)) {
    for (size_t k = 0; k < xs.size(); ++k) number[xs[k]] = k;
    for (size_t i = 0; i <= w.size(); ++i) {
      base.emplace_back();
      for (auto &x : xs) base[i].push_back(model::distance(algo, w.substr(i), x));
    }
  }
  // the least number of errors with which p accepts x, if that is within the bound
  size_t cost(const P &p, const std::string &x) const {
    size_t c;
    if (!p.s)
      c = p.e + base[p.i][number.at(x)];
    else if (x.empty())
      return INF;
    else if (algo == model::TRA) {
      if (x[0] != w[p.i]) return INF;
      c = p.e + base[p.i + 2][number.at(x.substr(1))];
    } else
      c = p.e + base[p.i + 1][number.at(x.substr(1))];
    return c <= n ? c : INF;
  }
  size_t cost(const std::vector<P> &s, const std::string &x) const {
    size_t m = INF;
    for (auto &p : s) m = std::min(m, cost(p, x));
    return m;
  }
  bool valid(const P &p) const {
    if (p.e > n || p.i > w.size()) return false;
    if (!p.s) return true;
    return p.e > 0 && algo != model::STD && p.i + (algo == model::TRA ? 2 : 1) <= w.size();
  }
};
std::string num(size_t c) { return c == INF ? "not at all" : "with " + std::to_string(c) + " errors"; }

Strings all_strings(const std::string &alpha, size_t len) {
  Strings v{""};
  for (size_t b = 0, l = 0; l < len; ++l) {
    size_t e = v.size();
    for (; b < e; ++b)
      for (char ch : alpha) v.push_back(v[b] + ch);
  }
  return v;
}

std::vector<P> contents(Ctx &c, State &s) {
  std::vector<P> out;
  for (Position *p : s) {
    if (out.size() > 100000) c.fail("a state never ends");
    out.push_back({p->term_index(), p->num_errors(), p->is_special()});
  }
  return out;
}

P position(Ctx &c, const Meaning &m) {
  P p{c.below(m.w.size() + 1), c.below(m.n + 1), m.algo != model::STD && c.chance(1, 3)};
  if (!m.valid(p)) p.s = false;
  return p;
}

Meaning meaning(Ctx &c, size_t wlen) {
  int a = (int)c.below(3);
  bool three = c.coin();
  std::string alpha = three ? "abc" : "ab";
  std::string w = gen::str_of_len(c, alpha, c.below(wlen + 1));
  static const Strings two = all_strings("ab", 6), tri = all_strings("abc", 4);
  return Meaning(a, w, c.below(5), alpha, three ? tri : two);
}

// What a state accepts is what its successors accept, one character later.
void check_step(Ctx &c, const Meaning &m, State &s, const std::vector<P> &before, char ch, size_t window, std::unique_ptr<State> &next) {
  size_t offset = s.head()->term_index();
  std::vector<bool> v;
  for (size_t i = offset; i < m.w.size() && v.size() < window; ++i) v.push_back(m.w[i] == ch);
  auto step = stepper(m.algo, m.n, m.w.size());
  next.reset(step(&s, v));
  std::vector<P> after;
  if (next) after = contents(c, *next);
  c.check(contents(c, s) == before, "the step changes the state it starts from");
  c.check(!next || !after.empty(), "an empty successor state");
  for (auto &p : after) {
    c.check(m.valid(p), [&] { return "the step on '" + std::string(1, ch) + "' from " + sh(before) + " leads to the senseless " + sh(p); });
    c.check(p.i >= after[0].i, [&] { return "the first of " + sh(after) + " is not the one with the least index"; });
  }
  for (auto &x : m.xs) {
    auto cx = m.number.find(ch + x);
    if (cx == m.number.end()) continue;
    size_t want = m.cost(before, cx->first), got = m.cost(after, x);
    c.check(want == got, [&] {
      return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n) + ": " + sh(before) + " accepts " +
             show(cx->first) + " " + num(want) + ", but after '" + ch + "' " + sh(after) + " accepts " + show(x) + " " + num(got);
    });
  }
}

// The distance inferred from a state is what it costs to end there.
void check_inferred(Ctx &c, const Meaning &m, State &s, const std::vector<P> &ps) {
  size_t want = m.cost(ps, ""), got = inferred(m.algo, &s, m.w.size());
  if (got > m.n) got = INF;
  c.check(want == got, [&] {
    return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n) + ": " + sh(ps) + " ends " + num(want) +
           ", inferred: " + num(got);
  });
}

// one step from an arbitrary state
void any_state(Ctx &c) {
  Meaning m = meaning(c, 7);
  std::set<P> set;
  size_t k = c.range(1, 5);
  for (size_t i = 0; i < k; ++i) set.insert(position(c, m));
  std::vector<P> ps(set.begin(), set.end());
  c.describe([&] { return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n) + ", state " + sh(ps); });
  std::vector<Position *> raw;
  for (auto &p : ps) raw.push_back(make(p));
  State s(raw);
  check_inferred(c, m, s, ps);
  for (char ch : m.alpha) {
    std::unique_ptr<State> next;
    check_step(c, m, s, ps, ch, SIZE_MAX, next);
    if (next) {
      auto after = contents(c, *next);
      check_inferred(c, m, *next, after);
    }
  }
  c.mix(m.w);
  c.mix(m.algo * 100 + m.n);
  for (auto &p : ps) c.mix(p.i * 64 + p.e * 2 + p.s);
  if (!m.w.empty() && m.n > 0) c.nontrivial();
}

// a walk from the initial state, with the characteristic vectors of a query
void walk(Ctx &c) {
  Meaning m = meaning(c, 9);
  std::string read = c.coin() ? gen::mutant(c, m.w, m.alpha, m.n + 1) : gen::str_of_len(c, m.alpha, c.below(9));
  c.describe([&] { return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n) + ", reads " + show(read); });
  std::vector<P> ps{{0, 0, false}};
  std::unique_ptr<State> s(new State({new Position(0, 0)})), next;
  size_t window = 2 * m.n + 1, steps = 0;
  for (char ch : read) {
    check_step(c, m, *s, ps, ch, window, next);
    if (!next) break;
    s = std::move(next);
    ps = contents(c, *s);
    check_inferred(c, m, *s, ps);
    ++steps;
  }
  // nothing is lost on the way: the whole prefix and any continuation
  std::string prefix = read.substr(0, steps);
  for (size_t k = 0; k < 10; ++k) {
    const std::string &x = m.xs[c.below(m.xs.size())];
    size_t want = model::distance(m.algo, m.w, prefix + x), got = m.cost(ps, x);
    if (want > m.n) want = INF;
    c.check(want == got, [&] {
      return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n) + ": " + show(prefix) + " leads to " + sh(ps) +
             ", which accepts " + show(x) + " " + num(got) + ", should be " + num(want);
    });
  }
  c.mix(m.w);
  c.mix(read);
  c.mix(m.algo * 100 + m.n);
  if (steps >= 2 && m.n > 0) c.nontrivial();
}

// The distances of all suffixes of a word and all suffixes of a string.
struct Suffixes {
  size_t W;
  std::vector<size_t> D;
  Suffixes(int algo, const std::string &w, const std::string &y) : W(y.size() + 1), D((w.size() + 1) * W) {
    for (size_t i = w.size() + 1; i-- > 0;)
      for (size_t j = W; j-- > 0;) {
        size_t l = w.size() - i, m = y.size() - j, best = l + m;
        if (l > 0) best = std::min(best, at(i + 1, j) + 1);
        if (m > 0) best = std::min(best, at(i, j + 1) + 1);
        if (l > 0 && m > 0) best = std::min(best, at(i + 1, j + 1) + (w[i] != y[j]));
        if (algo == model::TRA && l > 1 && m > 1 && w[i] == y[j + 1] && w[i + 1] == y[j]) best = std::min(best, at(i + 2, j + 2) + 1);
        if (algo == model::MAS && l > 1 && m > 0) best = std::min(best, at(i + 2, j + 1) + 1);
        if (algo == model::MAS && l > 0 && m > 1) best = std::min(best, at(i + 1, j + 2) + 1);
        D[i * W + j] = best;
      }
  }
  size_t at(size_t i, size_t j) const { return D[i * W + j]; }
};

// the least number of errors with which a state accepts y[j..]
size_t cost_of(const Meaning &m, const Suffixes &d, const std::vector<P> &v, const std::string &y, size_t j) {
  size_t best = INF;
  for (auto &p : v) {
    size_t k;
    if (!p.s)
      k = p.e + d.at(p.i, j);
    else if (j == y.size() || (m.algo == model::TRA && y[j] != m.w[p.i]))
      continue;
    else
      k = p.e + d.at(p.i + (m.algo == model::TRA ? 2 : 1), j + 1);
    if (k <= m.n) best = std::min(best, k);
  }
  return best;
}

// walks through long words, on which few continuations are looked at
void long_walk(Ctx &c) {
  static const Strings one{""};
  std::string alpha = gen::alphabet(c);
  int a = (int)c.below(3);
  size_t len = c.chance(1, 8) ? c.range(100, 300) : c.range(8, 100);
  size_t n = c.chance(1, 4) ? c.range(5, 40) : c.below(5);
  std::string w;
  if (c.chance(1, 3)) { // repetitive
    std::string unit = gen::str_of_len(c, alpha, c.range(1, 4));
    while (w.size() < len) w += unit;
    w.resize(len);
    w = gen::mutant(c, w, alpha, 3);
  } else
    w = gen::str_of_len(c, alpha, len);
  if (len > 100 && n > 12) n = 12;
  Meaning m(a, w, n, alpha, one);
  std::string read;
  std::set<size_t> looks; // where to look closely
  switch (c.below(4)) {
  case 0: read = gen::mutant(c, w, alpha, n + 1); break;
  case 1: { // something is missing or too much
    read = w;
    size_t at = c.below(w.size() + 1), k = c.coin() ? n + 1 - c.below(std::min<size_t>(n, 2) + 1) : c.below(n + 2);
    looks.insert(at);
    if (c.coin())
      read.insert(at, gen::str_of_len(c, alpha, k));
    else
      read.erase(at, k);
    if (c.chance(1, 4)) read = gen::mutant(c, read, alpha, 1);
    break;
  }
  case 2: { // errors close to one another
    size_t at = c.below(w.size() + 1), l = std::min<size_t>(w.size() - at, 2 * n + 4);
    looks.insert(at);
    read = w.substr(0, at) + gen::mutant(c, w.substr(at, l), alpha, n + 1) + w.substr(at + l);
    break;
  }
  default: read = gen::mutant(c, w, alpha, n / 2 + 1); break;
  }
  c.describe([&] { return std::string(model::algo_name(a)) + " automaton of " + show(w) + ", bound " + std::to_string(n) + ", reads " + show(read); });
  if (!read.empty())
    for (size_t k = c.range(1, 4); k > 0; --k) looks.insert(c.below(read.size()));
  std::vector<P> ps{{0, 0, false}}, after;
  std::unique_ptr<State> s(new State({new Position(0, 0)})), next;
  auto step = stepper(a, n, w.size());
  auto cost = [&](const Suffixes &d, const std::vector<P> &v, const std::string &y, size_t j) { return cost_of(m, d, v, y, j); };
  size_t steps = 0, accepted = 0, largest = 1;
  for (; steps < read.size(); ++steps) {
    char ch = read[steps];
    std::vector<bool> v;
    for (size_t i = s->head()->term_index(); i < w.size() && v.size() < 2 * n + 1; ++i) v.push_back(w[i] == ch);
    next.reset(step(s.get(), v));
    after.clear();
    if (next) after = contents(c, *next);
    c.check(!next || !after.empty(), "an empty successor state");
    for (auto &p : after) {
      c.check(m.valid(p), [&] { return "the step on '" + std::string(1, ch) + "' from " + sh(ps) + " leads to the senseless " + sh(p); });
      c.check(p.i >= after[0].i, [&] { return "the first of " + sh(after) + " is not the one with the least index"; });
    }
    if (looks.count(steps))
      for (int k = 0; k < 3; ++k) {
        std::string rest = k == 0 ? read.substr(steps + 1) : std::string();
        if (k > 0) {
          const P &p = c.pick(ps);
          rest = gen::mutant(c, w.substr(std::min(w.size(), p.i + c.below(3))), alpha, n);
        }
        std::string y = ch + rest;
        Suffixes d(a, w, y);
        size_t want = cost(d, ps, y, 0), got = cost(d, after, y, 1);
        c.check(want == got, [&] { return sh(ps) + " accepts " + show(y) + " " + num(want) + ", but after '" + ch + "' " + sh(after) + " accepts " + show(rest) + " " + num(got); });
        size_t all = model::distance(a, w, read.substr(0, steps) + y);
        if (all > n) all = INF;
        c.check(want == all, [&] { return show(read.substr(0, steps)) + " leads to " + sh(ps) + ", which accepts " + show(y) + " " + num(want) + ", should be " + num(all); });
        if (all != INF) ++accepted;
      }
    if (!next) break;
    s = std::move(next);
    ps = after;
    largest = std::max(largest, ps.size());
    check_inferred(c, m, *s, ps);
  }
  size_t end = steps < read.size() ? INF : inferred(a, s.get(), w.size()), right = model::distance(a, w, read);
  if (end > n) end = INF;
  if (right > n) right = INF;
  c.check(end == right, [&] { return "the whole ends " + num(end) + ", should be " + num(right); });
  if (steps >= 8 && n > 0 && accepted > 0) c.nontrivial();
  if (largest > 64) c.label("state of more than 64 positions");
  if (steps >= 64) c.label("64 steps or more");
  c.mix(w);
  c.mix(read);
  c.mix(a * 100 + n);
}

void check_subsumes(Ctx &c, const Meaning &m, const P &x, const P &y) {
  bool says = subsumes(m.algo, x, y, m.n);
  if (says)
    for (auto &z : m.xs) {
      size_t a = m.cost(x, z), b = m.cost(y, z);
      c.check(a <= b, [&] {
        return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n) + ": " + sh(x) + " is said to subsume " + sh(y) +
               ", but they accept " + show(z) + " " + num(a) + " and " + num(b);
      });
    }
  if (!x.s && !y.s) {
    size_t d = x.i < y.i ? y.i - x.i : x.i - y.i;
    c.check(says == (d <= y.e - x.e), [&] { return std::string(model::algo_name(m.algo)) + ": " + sh(x) + (says ? " is" : " is not") + " said to subsume " + sh(y); });
  }
  if (says) c.label("subsuming");
}

void subsumption(Ctx &c) {
  Meaning m = meaning(c, 6);
  c.describe([&] { return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n); });
  bool some = false;
  for (size_t k = 0; k < 12; ++k) {
    P x = position(c, m), y = position(c, m);
    if (y.e < x.e) std::swap(x, y);
    if (x.e == y.e) continue; // only positions with fewer errors are asked
    c.describe([&] { return " " + sh(x) + sh(y); });
    check_subsumes(c, m, x, y);
    some = true;
  }
  if (some) c.nontrivial();
}

// all pairs of positions of the automata of all words
void subsumption_all(Ctx &c) {
  static const Strings words = all_strings("abc", 4), xs = all_strings("abc", 4);
  uint64_t v = c.below(121 * 3 * 4);
  Meaning m((int)(v % 3), words[v / 3 % 121], v / 363, "abc", xs);
  c.describe([&] { return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n); });
  std::vector<P> all;
  for (size_t i = 0; i <= m.w.size(); ++i)
    for (size_t e = 0; e <= m.n; ++e)
      for (bool s : {false, true})
        if (m.valid({i, e, s})) all.push_back({i, e, s});
  for (auto &x : all)
    for (auto &y : all)
      if (x.e < y.e) check_subsumes(c, m, x, y);
  if (m.n) c.nontrivial();
}

// Removing subsumed positions, where the fewer errors come first.
void removal(Ctx &c) {
  Meaning m = meaning(c, 7);
  std::set<P> set;
  size_t k = c.range(1, 8);
  for (size_t i = 0; i < k; ++i) set.insert(position(c, m));
  std::vector<P> ps(set.begin(), set.end());
  for (size_t k = ps.size(); k > 1; --k) std::swap(ps[k - 1], ps[c.below(k)]); // those with as many errors in any order
  std::stable_sort(ps.begin(), ps.end(), [](const P &x, const P &y) { return x.e < y.e; });
  c.describe([&] { return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n) + ", state " + sh(ps); });
  std::vector<Position *> raw;
  for (auto &p : ps) raw.push_back(make(p));
  State s(raw);
  unsubsume(m.algo)(&s, m.n);
  auto left = contents(c, s);
  for (auto &p : left) c.check(set.count(p), "a position that was not there");
  for (auto &x : left)
    for (auto &y : left)
      c.check(x.e >= y.e || !subsumes(m.algo, x, y, m.n), [&] { return "of " + sh(ps) + " remain " + sh(left) + " with " + sh(x) + " subsuming " + sh(y); });
  c.check(std::set<P>(left.begin(), left.end()).size() == left.size(), "a position twice");
  for (auto &x : m.xs) {
    size_t want = m.cost(ps, x), got = m.cost(left, x);
    c.check(want == got, [&] { return sh(ps) + " accepts " + show(x) + " " + num(want) + ", the remaining " + sh(left) + " " + num(got); });
  }
  if (left.size() < ps.size()) c.label("positions removed");
  if (ps.size() >= 2) c.nontrivial();
  c.mix(m.w);
  c.mix(m.algo * 100 + m.n);
  for (auto &p : ps) c.mix(p.i * 64 + p.e * 2 + p.s);
}

// The same for long words, great bounds and many positions, on drawn
// continuations that some position accepts or nearly does.
struct Large {
  Meaning m;
  size_t near;
};
Large large(Ctx &c) {
  static const Strings one{""};
  std::string alpha = gen::alphabet(c);
  int a = (int)c.below(3);
  size_t len = c.chance(1, 8) ? c.range(41, 120) : c.below(41);
  size_t n = c.chance(1, 3) ? c.range(5, 16) : c.below(8);
  std::string w;
  if (c.chance(1, 3)) {
    std::string unit = gen::str_of_len(c, alpha, c.range(1, 4));
    while (w.size() < len) w += unit;
    w.resize(len);
    w = gen::mutant(c, w, alpha, 2);
  } else
    w = gen::str_of_len(c, alpha, len);
  Meaning m(a, w, n, alpha, one);
  size_t near = c.chance(1, 4) ? SIZE_MAX : c.coin() ? w.size() - c.below(std::min<size_t>(w.size(), n + 3) + 1) : c.below(w.size() + 1);
  return {m, near};
}
P large_position(Ctx &c, const Large &l) {
  const Meaning &m = l.m;
  size_t i = c.below(m.w.size() + 1);
  if (l.near != SIZE_MAX && !c.chance(1, 10)) {
    size_t off = c.below(m.n + 3);
    i = c.coin() ? std::min(m.w.size(), l.near + off) : l.near - std::min(l.near, off);
  }
  P p{i, c.chance(1, 4) ? m.n - c.below(std::min<size_t>(m.n, 2) + 1) : c.below(m.n + 1), m.algo != model::STD && c.chance(1, 3)};
  if (!m.valid(p)) p.s = false;
  return p;
}
std::vector<P> large_state_of(Ctx &c, const Large &l, size_t max) {
  std::set<P> set;
  for (size_t k = c.chance(1, 8) ? c.range(1, max) : c.range(1, 6); k > 0; --k) set.insert(large_position(c, l));
  return {set.begin(), set.end()};
}
// something that a position accepts, or nearly does
std::string accepted_by(Ctx &c, const Meaning &m, const P &p) {
  std::string lead;
  size_t i = p.i, left = m.n - p.e;
  if (p.s) {
    lead = m.algo == model::TRA ? std::string(1, m.w[p.i]) : std::string(1, m.alpha[c.below(m.alpha.size())]);
    i += m.algo == model::TRA ? 2 : 1;
  }
  std::string rest = m.w.substr(i);
  switch (c.below(5)) {
  case 0: break;
  case 1: rest = rest.substr(std::min(rest.size(), left)); break;                                           // the beginning is missing
  case 2: rest = rest.substr(0, rest.size() - std::min(rest.size(), c.below(left + 2))); break;             // the end is missing
  case 3: rest = rest.substr(std::min(rest.size(), c.below(left + 2))); [[fallthrough]];                    // something is missing, and more
  default: rest = gen::mutant(c, rest.substr(0, 24), m.alpha, c.below(left + 2)) + (rest.size() > 24 ? rest.substr(24) : std::string());
  }
  return lead + rest;
}
std::string of(const Meaning &m) { return std::string(model::algo_name(m.algo)) + " automaton of " + show(m.w) + ", bound " + std::to_string(m.n); }

void any_large_state(Ctx &c) {
  Large l = large(c);
  const Meaning &m = l.m;
  std::vector<P> ps = large_state_of(c, l, 60);
  c.describe([&] { return of(m) + ", state " + sh(ps); });
  std::vector<Position *> raw;
  for (auto &p : ps) raw.push_back(make(p));
  State s(raw);
  auto ends = [&](State &t, const std::vector<P> &v) {
    Suffixes d(m.algo, m.w, "");
    size_t want = cost_of(m, d, v, "", 0), got = inferred(m.algo, &t, m.w.size());
    if (got > m.n) got = INF;
    c.check(want == got, [&] { return of(m) + ": " + sh(v) + " ends " + num(want) + ", inferred: " + num(got); });
  };
  ends(s, ps);
  bool some = false;
  for (int k = 0; k < 4; ++k) {
    std::string y = accepted_by(c, m, c.pick(ps));
    if (y.empty()) y = std::string(1, m.alpha[c.below(m.alpha.size())]);
    char ch = y[0];
    std::vector<bool> v;
    for (size_t i = s.head()->term_index(); i < m.w.size(); ++i) v.push_back(m.w[i] == ch);
    auto step = stepper(m.algo, m.n, m.w.size());
    std::unique_ptr<State> next(step(&s, v));
    std::vector<P> after;
    if (next) after = contents(c, *next);
    c.check(contents(c, s) == ps, "the step changes the state it starts from");
    c.check(!next || !after.empty(), "an empty successor state");
    for (auto &p : after) {
      c.check(m.valid(p), [&] { return of(m) + ": the step on '" + ch + "' from " + sh(ps) + " leads to the senseless " + sh(p); });
      c.check(p.i >= after[0].i, [&] { return "the first of " + sh(after) + " is not the one with the least index"; });
    }
    if (next) ends(*next, after);
    for (int j = 0; j < 3; ++j) {
      if (j == 1) {
        y = accepted_by(c, m, c.pick(ps));
        y = ch + (y.empty() ? y : y.substr(1));
      }
      if (j == 2) {
        if (after.empty()) break;
        y = ch + accepted_by(c, m, c.pick(after));
      }
      Suffixes d(m.algo, m.w, y);
      size_t want = cost_of(m, d, ps, y, 0), got = cost_of(m, d, after, y, 1);
      c.check(want == got, [&] { return of(m) + ": " + sh(ps) + " accepts " + show(y) + " " + num(want) + ", but after '" + ch + "' " + sh(after) + " accepts the rest " + num(got); });
      if (want != INF) some = true;
    }
  }
  c.mix(m.w);
  c.mix(m.algo * 100 + m.n);
  for (auto &p : ps) c.mix(p.i * 64 + p.e * 2 + p.s);
  if (ps.size() > 8) c.label("more than 8 positions");
  if (some && m.n > 0) c.nontrivial();
}

void large_subsumption(Ctx &c) {
  Large l = large(c);
  const Meaning &m = l.m;
  c.describe([&] { return of(m); });
  bool some = false;
  for (size_t k = 0; k < 6; ++k) {
    P x = large_position(c, l), y = large_position(c, l);
    if (y.e < x.e) std::swap(x, y);
    if (x.e == y.e) continue;
    c.describe([&] { return " " + sh(x) + sh(y); });
    check_subsumes(c, m, x, y); // what ordinary positions say exactly, and the empty remainder
    if (!subsumes(m.algo, x, y, m.n)) continue;
    for (int j = 0; j < 3; ++j) {
      std::string z = accepted_by(c, m, j == 0 ? x : y);
      Suffixes d(m.algo, m.w, z);
      size_t a = cost_of(m, d, {x}, z, 0), b = cost_of(m, d, {y}, z, 0);
      c.check(a <= b, [&] { return of(m) + ": " + sh(x) + " is said to subsume " + sh(y) + ", but they accept " + show(z) + " " + num(a) + " and " + num(b); });
      if (b != INF) some = true;
    }
  }
  if (some) c.nontrivial();
}

void large_removal(Ctx &c) {
  Large l = large(c);
  const Meaning &m = l.m;
  std::vector<P> ps = large_state_of(c, l, 60);
  std::set<P> set(ps.begin(), ps.end());
  for (size_t k = ps.size(); k > 1; --k) std::swap(ps[k - 1], ps[c.below(k)]);
  std::stable_sort(ps.begin(), ps.end(), [](const P &x, const P &y) { return x.e < y.e; });
  c.describe([&] { return of(m) + ", state " + sh(ps); });
  std::vector<Position *> raw;
  for (auto &p : ps) raw.push_back(make(p));
  State s(raw);
  unsubsume(m.algo)(&s, m.n);
  auto left = contents(c, s);
  for (auto &p : left) c.check(set.count(p), "a position that was not there");
  for (auto &x : left)
    for (auto &y : left)
      c.check(x.e >= y.e || !subsumes(m.algo, x, y, m.n), [&] { return "of " + sh(ps) + " remain " + sh(left) + " with " + sh(x) + " subsuming " + sh(y); });
  c.check(std::set<P>(left.begin(), left.end()).size() == left.size(), "a position twice");
  for (size_t k = 0; k < std::min<size_t>(ps.size(), 8); ++k) {
    std::string z = accepted_by(c, m, c.pick(ps));
    Suffixes d(m.algo, m.w, z);
    size_t want = cost_of(m, d, ps, z, 0), got = cost_of(m, d, left, z, 0);
    c.check(want == got, [&] { return of(m) + ": " + sh(ps) + " accepts " + show(z) + " " + num(want) + ", the remaining " + sh(left) + " " + num(got); });
  }
  if (left.size() < ps.size()) c.label("positions removed");
  if (ps.size() >= 2) c.nontrivial();
  c.mix(m.w);
  c.mix(m.algo * 100 + m.n);
  for (auto &p : ps) c.mix(p.i * 64 + p.e * 2 + p.s);
}

Reg r1("C27", "step_from_any_state", 30000, 1000000, any_state);
Reg r2("C27", "walk", 30000, 1000000, walk);
Reg r6("C27", "long_walk", 8000, 250000, long_walk, 60);
Reg r3("C27", "subsumption", 30000, 1000000, subsumption);
Reg r7("C27", "step_from_large_state", 20000, 600000, any_large_state, 80);
Reg r8("C27", "large_subsumption", 20000, 600000, large_subsumption, 80);
Reg r9("C27", "large_removal", 15000, 500000, large_removal, 80);
RegEnum r4("C27", "all_subsumptions", 1452, 1452, subsumption_all);
Reg r5("C27", "removal_of_subsumed", 30000, 1000000, removal);
} // namespace
