// C23: automaton states behave as ordered lists.
#include "gen.h"
#include "liblevenshtein/transducer/algorithm.h"
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include <memory>

namespace ll = liblevenshtein;
using ll::Algorithm;
using ll::Position;
using ll::State;
using ll::StateIterator;
using pbt::Ctx;
using pbt::Reg;
using pbt::RegEnum;

namespace {

struct P {
  size_t i, e;
  bool s;
  auto operator<=>(const P &) const = default;
};
P of(const Position *p) { return {p->term_index(), p->num_errors(), p->is_special()}; }
std::string sh(const P &p) {
  return "(" + std::to_string(p.i) + "," + std::to_string(p.e) + (p.s ? ",t)" : ")");
}
std::string sh(const std::vector<P> &v) {
  std::string o = "[";
  for (auto &p : v) o += sh(p);
  return o + "]";
}

size_t num(Ctx &c, bool wild) {
  static const size_t v[] = {0x7fffffff, 0x80000000ul, 0xffffffff, 0x100000000, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 1, SIZE_MAX};
  if (wild && c.chance(1, 4)) return v[c.below(8)];
  return c.below(5);
}
P pos(Ctx &c, bool wild, bool special = true) { return {num(c, wild), num(c, wild), special && c.chance(1, 3)}; }
Position *make(const P &p) { return p.s ? new Position(p.i, p.e, true) : new Position(p.i, p.e); }

int cmp(int a, Position *x, Position *y) {
  return a == 0 ? ll::compare<Algorithm::STANDARD>(x, y)
         : a == 1 ? ll::compare<Algorithm::TRANSPOSITION>(x, y)
                  : ll::compare<Algorithm::MERGE_AND_SPLIT>(x, y);
}
ll::Comparator comparator(int a) {
  if (a == 0) return ll::compare<Algorithm::STANDARD>;
  if (a == 1) return ll::compare<Algorithm::TRANSPOSITION>;
  return ll::compare<Algorithm::MERGE_AND_SPLIT>;
}
int sign(int v) { return v < 0 ? -1 : v > 0; }
int want_cmp(int a, const P &x, const P &y) {
  if (x.i != y.i) return x.i < y.i ? -1 : 1;
  if (x.e != y.e) return x.e < y.e ? -1 : 1;
  if (a == 0) return 0;
  return (int)x.s - (int)y.s;
}

std::vector<P> contents(Ctx &c, State &s, size_t cap) {
  std::vector<P> out;
  for (Position *p : s) {
    if (out.size() > cap) c.fail("iterating over a state yields more positions than it has");
    out.push_back(of(p));
  }
  return out;
}

// The list both ways: through iterators and through head()/next().
void agree(Ctx &c, State &s, const std::vector<P> &m, const char *after) {
  std::vector<P> got = contents(c, s, m.size());
  c.check(got == m, [&] { return std::string("after ") + after + " the state holds " + sh(got) + ", expected " + sh(m); });
  std::vector<P> links;
  for (Position *p = s.head(); p != nullptr && links.size() <= m.size(); p = p->next()) links.push_back(of(p));
  c.check(links == m, [&] { return std::string("after ") + after + " the links hold " + sh(links) + ", expected " + sh(m); });
}

Position *at(State &s, size_t k) {
  Position *p = s.head();
  while (k-- > 0 && p != nullptr) p = p->next();
  return p;
}

void ascending(Ctx &c, int a, State &s, const std::vector<P> &before, std::vector<P> &m) {
  std::vector<P> got = contents(c, s, before.size());
  auto x = before, y = got;
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  c.check(x == y, [&] { return "sorting " + sh(before) + " yields " + sh(got); });
  for (size_t k = 0; k + 1 < got.size(); ++k)
    c.check(want_cmp(a, got[k], got[k + 1]) <= 0,
            [&] { return std::string("sorting with algorithm ") + model::algo_name(a) + " leaves " + sh(got) + ", not ascending"; });
  m = got;
}

void history(Ctx &c, size_t max_ops, bool wild) {
  std::vector<P> m;
  std::unique_ptr<State> s;
  switch (c.below(3)) {
  case 0: s.reset(new State()); break;
  case 1: {
    size_t n = c.below(6);
    std::vector<Position *> v;
    for (size_t k = 0; k < n; ++k) {
      m.push_back(pos(c, wild));
      v.push_back(make(m.back()));
    }
    s.reset(new State(v));
    break;
  }
  default: {
    m = {pos(c, wild), pos(c, wild), pos(c, wild)};
    s.reset(new State({make(m[0]), make(m[1]), make(m[2])}));
  }
  }
  c.describe([&] { return "state " + sh(m) + ":"; });
  agree(c, *s, m, "construction");
  size_t ops = c.range(1, max_ops), inside = 0;
  for (size_t k = 0; k < ops; ++k) {
    switch (c.weighted({6, 4, 6, 5, 2, 6, 3, 2})) {
    case 0: {
      P p = pos(c, wild);
      c.describe([&] { return " add" + sh(p); });
      s->add(make(p));
      m.push_back(p);
      agree(c, *s, m, "add");
      break;
    }
    case 1: {
      P p = pos(c, wild);
      c.describe([&] { return " head" + sh(p); });
      s->head(make(p));
      m.insert(m.begin(), p);
      agree(c, *s, m, "head");
      break;
    }
    case 2: {
      P p = pos(c, wild);
      if (m.empty() || c.chance(1, 6)) { // after nothing: at the tail
        c.describe([&] { return " insert_after(null)" + sh(p); });
        s->insert_after(nullptr, make(p));
        m.push_back(p);
      } else {
        size_t i = c.below(m.size());
        c.describe([&] { return " insert_after#" + std::to_string(i) + sh(p); });
        s->insert_after(at(*s, i), make(p));
        m.insert(m.begin() + i + 1, p);
      }
      agree(c, *s, m, "insert_after");
      break;
    }
    case 3:
      if (!m.empty()) {
        size_t i = c.below(m.size());
        c.describe([&] { return " remove#" + std::to_string(i); });
        s->remove(i ? at(*s, i - 1) : nullptr, at(*s, i));
        m.erase(m.begin() + i);
        agree(c, *s, m, "remove");
      }
      break;
    case 4: {
      int a = (int)c.below(3);
      c.describe([&] { return std::string(" sort ") + model::algo_name(a); });
      s->sort(comparator(a));
      ascending(c, a, *s, m, m);
      agree(c, *s, m, "sort");
      break;
    }
    case 5: { // walk with insertions and removals through the iterator
      c.describe([&] { return std::string(" walk"); });
      StateIterator it = s->begin();
      StateIterator end = s->end();
      size_t i = 0; // model index of the current position
      size_t left = m.size() + 8;
      if (m.empty()) {
        c.check(it == end, "an empty state's iterator is not at the end");
        if (c.coin()) {
          P p = pos(c, wild);
          c.describe([&] { return " insert" + sh(p); });
          it.insert(make(p));
          m.push_back(p);
          ++it;
        }
      }
      while (i < m.size() && left-- > 0) {
        c.check(it != end, "the iterator ends too early");
        c.check(*it != nullptr && of(*it) == m[i], [&] { return "the iterator is at the wrong position, expected " + sh(m[i]); });
        switch (c.weighted({5, 2, 2})) {
        case 0:
          ++it;
          ++i;
          break;
        case 1: {
          P p = pos(c, wild);
          c.describe([&] { return " insert#" + std::to_string(i) + sh(p); });
          it.insert(make(p));
          m.insert(m.begin() + i + 1, p);
          c.check(of(*it) == m[i], "insertion moved the iterator");
          ++it;
          ++i;
          ++inside;
          break;
        }
        default:
          c.describe([&] { return " remove#" + std::to_string(i); });
          it.remove();
          m.erase(m.begin() + i);
          ++it;
          ++inside;
        }
      }
      if (i >= m.size()) c.check(it == end, "the iterator does not end after the last position");
      agree(c, *s, m, "walking");
      break;
    }
    case 6: { // an inner walk removing positions ahead of an outer one
      c.describe([&] { return std::string(" nested"); });
      StateIterator outer = s->begin();
      StateIterator end = s->end();
      size_t i = 0, guard = m.size() + 2;
      while (i < m.size() && guard-- > 0) {
        c.check(outer != end && of(*outer) == m[i], [&] { return "the outer iterator is at the wrong position, expected " + sh(m[i]); });
        StateIterator inner(s.get(), *outer, &outer);
        ++inner;
        size_t j = i + 1;
        while (j < m.size()) {
          c.check(inner != end && of(*inner) == m[j], [&] { return "the inner iterator is at the wrong position, expected " + sh(m[j]); });
          if (c.chance(1, 4)) {
            c.describe([&] { return " remove#" + std::to_string(j) + "@" + std::to_string(i); });
            inner.remove();
            m.erase(m.begin() + j);
            ++inside;
          } else
            ++j;
          ++inner;
        }
        c.check(inner == end, "the inner iterator does not end after the last position");
        ++outer;
        ++i;
      }
      c.check(outer == end, "the outer iterator does not end after the last position");
      agree(c, *s, m, "nested walking");
      break;
    }
    default: { // the free function, which prepends when there is nothing before
      P p = pos(c, wild);
      size_t i = c.below(m.size() + 1);
      c.describe([&] { return " ::insert_after#" + std::to_string(i) + sh(p); });
      ll::insert_after(s.get(), i ? at(*s, i - 1) : nullptr, make(p));
      m.insert(m.begin() + i, p);
      agree(c, *s, m, "insert_after");
    }
    }
  }
  if (ops >= 3) c.nontrivial();
  if (inside) c.label("changes through iterators");
}

void order(Ctx &c) {
  bool wild = c.coin();
  P p[3] = {pos(c, wild), pos(c, wild), pos(c, wild)};
  if (c.chance(1, 3)) p[1] = p[0];
  if (c.chance(1, 3)) p[2].i = p[1].i;
  if (c.chance(1, 3)) p[2].e = p[1].e;
  c.describe([&] { return sh(p[0]) + sh(p[1]) + sh(p[2]); });
  std::unique_ptr<Position> q[3];
  for (int k = 0; k < 3; ++k) q[k].reset(make(p[k]));
  for (int a = 0; a < 3; ++a)
    for (int x = 0; x < 3; ++x)
      for (int y = 0; y < 3; ++y) {
        int r = sign(cmp(a, q[x].get(), q[y].get()));
        c.check(r == want_cmp(a, p[x], p[y]), [&] {
          return std::string(model::algo_name(a)) + " comparison of " + sh(p[x]) + " and " + sh(p[y]) + " is " + std::to_string(r);
        });
      }
  for (auto &x : p) {
    c.mix(x.i);
    c.mix(x.e * 2 + x.s);
  }
  if (p[0] != p[1] && p[1] != p[2]) c.nontrivial();
}

void merge(int a, State *s, const std::vector<Position *> &v) {
  if (a == 0) ll::merge<Algorithm::STANDARD>(s, v);
  else if (a == 1) ll::merge<Algorithm::TRANSPOSITION>(s, v);
  else ll::merge<Algorithm::MERGE_AND_SPLIT>(s, v);
}

void merging(Ctx &c, int a, const std::vector<std::vector<P>> &batches) {
  c.describe([&] {
    std::string s = std::string(model::algo_name(a)) + " merge";
    for (auto &b : batches) s += " " + sh(b);
    return s;
  });
  State s;
  std::set<P> want;
  size_t total = 0;
  for (auto &b : batches) {
    std::vector<Position *> v;
    for (auto &p : b) {
      v.push_back(make(p));
      want.insert(p);
      ++total;
    }
    merge(a, &s, v);
    std::vector<P> got = contents(c, s, total);
    std::multiset<P> g(got.begin(), got.end());
    c.check(g.size() == want.size() && std::equal(g.begin(), g.end(), want.begin()),
            [&] { return "after merging the state holds " + sh(got) + ", expected " + sh(std::vector<P>(want.begin(), want.end())) + " in some order"; });
  }
  std::vector<P> before = contents(c, s, total), m;
  if (!before.empty()) {
    s.sort(comparator(a));
    ascending(c, a, s, before, m);
  }
  if (total > want.size()) c.label("repeated positions");
  if (want.size() >= 2) c.nontrivial();
}

void merge_random(Ctx &c) {
  int a = (int)c.below(3);
  bool wild = c.chance(1, 5);
  std::vector<std::vector<P>> b(c.range(1, 6));
  for (auto &x : b) {
    size_t n = c.below(5);
    for (size_t k = 0; k < n; ++k) x.push_back(pos(c, wild, a != 0));
  }
  merging(c, a, b);
}

// All sequences of up to four positions with indices, errors in {0, 1} and both kinds.
void merge_small(Ctx &c) {
  uint64_t v = c.below(3 * (1 + 8 + 64 + 512 + 4096));
  int a = (int)(v % 3);
  v /= 3;
  size_t len = 0;
  uint64_t n = 1;
  while (v >= n) {
    v -= n;
    n *= 8;
    ++len;
  }
  std::vector<P> ps;
  for (size_t k = 0; k < len; ++k) {
    ps.push_back({v & 1, (v >> 1) & 1, a != 0 && ((v >> 2) & 1)});
    v >>= 3;
  }
  std::vector<std::vector<P>> one{ps}, each;
  for (auto &p : ps) each.push_back({p});
  merging(c, a, one);
  merging(c, a, each);
}

// Sorting every arrangement of up to six keys.
void sort_small(Ctx &c) {
  uint64_t v = c.below(3 * (1 + 6 + 36 + 216 + 1296 + 7776 + 46656));
  int a = (int)(v % 3);
  v /= 3;
  size_t len = 0;
  uint64_t n = 1;
  while (v >= n) {
    v -= n;
    n *= 6;
    ++len;
  }
  std::vector<P> m;
  std::vector<Position *> ps;
  for (size_t k = 0; k < len; ++k) {
    uint64_t d = v % 6;
    v /= 6;
    m.push_back({d / 2, d % 2, false});
    ps.push_back(make(m.back()));
  }
  c.describe([&] { return "sort " + sh(m); });
  State s(ps);
  std::vector<P> out;
  s.sort(comparator(a));
  ascending(c, a, s, m, out);
  agree(c, s, out, "sort");
  if (len >= 2) c.nontrivial();
}

void sort_long(Ctx &c) {
  int a = (int)c.below(3);
  bool wild = c.coin();
  std::vector<P> m;
  std::vector<Position *> ps;
  size_t n = c.below(200);
  for (size_t k = 0; k < n; ++k) {
    m.push_back(pos(c, wild));
    m.back().i += c.below(30);
    ps.push_back(make(m.back()));
  }
  c.describe([&] { return "sort " + sh(m); });
  State s(ps);
  std::vector<P> out;
  s.sort(comparator(a));
  ascending(c, a, s, m, out);
  agree(c, s, out, "sort");
  if (n >= 2) c.nontrivial();
}

Reg r1("C23", "operation_history", 120000, 3000000, [](Ctx &c) { history(c, 25, c.chance(1, 4)); });
Reg r2("C23", "short_history", 120000, 3000000, [](Ctx &c) { history(c, 6, c.chance(1, 4)); });
Reg r8("C23", "long_history", 1500, 40000, [](Ctx &c) { history(c, 500, c.chance(1, 4)); });
Reg r3("C23", "comparison", 200000, 4000000, order);
Reg r4("C23", "merge", 120000, 3000000, merge_random);
RegEnum r5("C23", "merge_small", 3 * 4681, 3 * 4681, merge_small);
RegEnum r6("C23", "sort_small", 3 * 55987, 3 * 55987, sort_small);
Reg r7("C23", "sort_long", 2000, 50000, sort_long);
} // namespace
