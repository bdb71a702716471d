// C16: queries are independent of each other and of iteration history.
#include "query.h"
#include <optional>
#include <type_traits>

using namespace lib;
using pbt::Reg;
using pbt::show;

namespace {

// An open iteration of either result type.
struct Open {
  virtual ~Open() = default;
  virtual bool done() = 0;
  virtual Candidate current() = 0;
  virtual void hold() = 0;      // keep what *it refers to, as a loop variable does
  virtual Candidate held() = 0; // look at it again later
  virtual void next() = 0;
  int algo = 0;
  bool with = false;
  std::string q;
  size_t n = 0;
  Results seen;
  size_t steps = 0;
};

Candidate as_cand(const std::string &s) { return {s, NO_DISTANCE}; }
Candidate as_cand(const Candidate &s) { return s; }

template <class R> struct OpenT : Open {
  // the iterator is neither copied nor moved: it is created in place
  ll::LazyIterator<R> range;
  std::unique_ptr<ll::LazyQuery<R>> it, end;
  explicit OpenT(ll::LazyIterator<R> r) : range(std::move(r)) {}
  void begin() { // at the first use: what the query was opened with is gone by then
    if (!it) it.reset(new ll::LazyQuery<R>(range.begin()));
    if (!end) end.reset(new ll::LazyQuery<R>(range.end()));
  }
  bool done() override { return begin(), !(*it != *end); }
  Candidate current() override { return begin(), as_cand(**it); }
  const R *ref = nullptr;
  std::optional<R> copy; // for a *it that is not a reference
  void hold() override {
    begin();
    if constexpr (std::is_reference_v<decltype(**it)>)
      ref = &**it;
    else
      copy = **it;
  }
  Candidate held() override { return as_cand(ref ? *ref : *copy); }
  void next() override { begin(), ++*it; }
  void restart() { it.reset(new ll::LazyQuery<R>(range.begin())); }
};

struct Pool {
  using A = Algorithm;
  ll::Transducer<A::STANDARD, std::string> s0;
  ll::Transducer<A::STANDARD, Candidate> s1;
  ll::Transducer<A::TRANSPOSITION, std::string> t0;
  ll::Transducer<A::TRANSPOSITION, Candidate> t1;
  ll::Transducer<A::MERGE_AND_SPLIT, std::string> m0;
  ll::Transducer<A::MERGE_AND_SPLIT, Candidate> m1;
  explicit Pool(ll::DawgNode *r) : s0(r), s1(r), t0(r), t1(r), m0(r), m1(r) {}

  std::unique_ptr<Open> open(int algo, bool with, const std::string &query, size_t n) {
    std::unique_ptr<Open> o;
    std::string q(query.data(), query.size());
    if (algo == 0) {
      if (with) o.reset(new OpenT<Candidate>(s1(q, n)));
      else o.reset(new OpenT<std::string>(s0(q, n)));
    } else if (algo == 1) {
      if (with) o.reset(new OpenT<Candidate>(t1(q, n)));
      else o.reset(new OpenT<std::string>(t0(q, n)));
    } else {
      if (with) o.reset(new OpenT<Candidate>(m1(q, n)));
      else o.reset(new OpenT<std::string>(m0(q, n)));
    }
    o->algo = algo;
    o->with = with;
    o->q = query;
    o->n = n;
    std::fill(q.begin(), q.end(), '#'); // the caller's string may change afterwards
    return o;
  }
};

struct World {
  Ctx &c;
  Strings dict;
  std::set<std::string> set;
  DawgPtr dawg;
  std::vector<std::unique_ptr<Pool>> pools;
  std::vector<std::unique_ptr<Open>> open;
  size_t max_open = 0, advances_elsewhere = 0;

  void look(Open &o) {
    // the current candidate must be what this iteration yielded last
    if (o.done() || o.seen.empty()) return;
    Candidate held = o.held();
    c.check(held == o.seen.back(), [&] {
      return "a loop variable that refers to the current candidate of an open query changed without advancing that query: was " +
             show(o.seen.back().first) + ", is " + show(held.first) + " (query " + show(o.q) + ", " + std::to_string(o.n) + ")";
    });
    Candidate now = o.current();
    c.check(now == o.seen.back(), [&] {
      return "the current candidate of an open query changed without advancing it: was " + show(o.seen.back().first) +
             ", is " + show(now.first) + " (query " + show(o.q) + ", " + std::to_string(o.n) + ")";
    });
  }
  // true while more candidates follow
  bool step(Open &o) {
    if (o.steps > 0) o.next();
    ++o.steps;
    if (o.done()) return false;
    if (o.seen.size() >= dict.size()) c.fail("a query yields more candidates than the dictionary has terms: " + show(o.q));
    o.hold();
    o.seen.push_back(o.held());
    return true;
  }
  void finish(Open &o) {
    judge(c, o.algo, dict, o.q, o.n, o.seen, o.with, "pass");
  }
  void drain(size_t i) {
    Open &o = *open[i];
    look(o);
    if (!(o.steps > 0 && o.done()))
      while (step(o)) {
      }
    finish(o);
    open.erase(open.begin() + i);
  }
};

void history(Ctx &c, size_t max_ops, bool repeat_heavy) {
  std::string alpha = gen::alphabet(c);
  World w{c, {}, {}, nullptr, {}, {}};
  w.set = gen::term_set(c, alpha, {40, 8});
  w.dict = gen::to_vec(w.set);
  c.describe([&] { return "dictionary " + show(w.dict) + ":"; });
  w.dawg = must_build(c, w.dict);
  size_t nodes = inspect(w.dawg->root()).nodes;
  size_t hash = std::hash<ll::Dawg>()(*w.dawg);
  size_t np = c.range(1, 2);
  for (size_t i = 0; i < np; ++i) w.pools.emplace_back(new Pool(w.dawg->root()));
  // queries come back again and again, with other bounds and algorithms
  Strings qs;
  size_t nqs = c.range(1, 4);
  for (size_t i = 0; i < nqs; ++i) qs.push_back(gen::query_for(c, w.dict, alpha, 8));
  size_t ops = c.range(2, max_ops);
  for (size_t k = 0; k < ops; ++k) {
    size_t op = repeat_heavy ? c.weighted({4, 2, 1, 8, 1, 1}) : c.weighted({6, 12, 2, 3, 2, 1});
    switch (op) {
    case 0: { // open
      std::string q = c.chance(1, 6) ? gen::query_for(c, w.dict, alpha, 8) : qs[c.below(qs.size())];
      int a = (int)c.below(3);
      bool with = c.coin();
      size_t n = c.chance(1, 30) && q.size() < 8 ? gen::extreme(c) : c.below(5);
      size_t p = c.below(w.pools.size());
      c.describe([&] {
        return " open " + std::string(model::algo_name(a)) + (with ? "+d" : "") + "(" + show(q) + "," + std::to_string(n) + ")@" + std::to_string(p);
      });
      w.open.push_back(w.pools[p]->open(a, with, q, n));
      for (auto &o : w.open) w.look(*o);
      if (w.open.size() > w.max_open) w.max_open = w.open.size();
      if (w.open.size() > 8) w.drain(0);
      break;
    }
    case 1: // advance one of the open iterations
      if (!w.open.empty()) {
        size_t i = c.below(w.open.size());
        Open &o = *w.open[i];
        w.look(o);
        if (o.steps > 0 && o.done()) break;
        c.describe([&] { return " step#" + std::to_string(i); });
        if (!w.step(o)) {
          w.finish(o);
          w.open.erase(w.open.begin() + i);
        }
        if (w.open.size() > 1) ++w.advances_elsewhere;
        for (auto &x : w.open) w.look(*x);
      }
      break;
    case 2: // abandon
      if (!w.open.empty()) {
        size_t i = c.below(w.open.size());
        c.describe([&] { return " drop#" + std::to_string(i); });
        w.open.erase(w.open.begin() + i);
        for (auto &x : w.open) w.look(*x);
      }
      break;
    case 3: { // a complete pass right now
      const std::string &q = qs[c.below(qs.size())];
      int a = (int)c.below(3);
      bool with = c.coin();
      size_t n = c.below(6);
      size_t p = c.below(w.pools.size());
      c.describe([&] {
        return " pass " + std::string(model::algo_name(a)) + (with ? "+d" : "") + "(" + show(q) + "," + std::to_string(n) + ")@" + std::to_string(p);
      });
      auto o = w.pools[p]->open(a, with, q, n);
      while (w.step(*o)) {
      }
      w.finish(*o);
      if (c.chance(1, 4)) { // same range object again
        c.describe([&] { return " again"; });
        o->seen.clear();
        o->steps = 0;
        if (with) static_cast<OpenT<Candidate> *>(o.get())->restart();
        else static_cast<OpenT<std::string> *>(o.get())->restart();
        while (w.step(*o)) {
        }
        w.finish(*o);
      }
      for (auto &x : w.open) w.look(*x);
      break;
    }
    case 4: { // membership / partial iteration in between
      std::string q = gen::query_for(c, w.dict, alpha, 8);
      c.check(w.dawg->contains(q) == (w.set.count(q) == 1), "membership changed by queries");
      auto it = w.dawg->begin();
      size_t k2 = c.below(w.dict.size() + 1);
      for (size_t i = 0; i < k2 && it != w.dawg->end(); ++i) ++it;
      for (auto &x : w.open) w.look(*x);
      break;
    }
    default: // drain one
      if (!w.open.empty()) {
        size_t i = c.below(w.open.size());
        c.describe([&] { return " drain#" + std::to_string(i); });
        w.drain(i);
      }
    }
  }
  c.describe([&] { return " drain all"; });
  while (!w.open.empty()) w.drain(c.below(w.open.size()));
  w.pools.clear();
  check_contents(c, *w.dawg, w.set, "after queries");
  c.check(inspect(w.dawg->root()).nodes == nodes, "queries changed the number of nodes");
  c.check(std::hash<ll::Dawg>()(*w.dawg) == hash, "queries changed the dictionary's hash code");
  c.check(*w.dawg == *must_build(c, w.dict), "queries changed the dictionary");
  if (w.max_open > 1) c.label("histories with several open queries");
  if (w.advances_elsewhere > 0) c.label("histories with interleaved advances");
}

void h_short(Ctx &c) { history(c, 40, false); }
void h_repeat(Ctx &c) { history(c, 60, true); }
void h_long(Ctx &c) { history(c, 900, c.coin()); }

// The same query terms on one transducer with rising, falling and mixed
// bounds: answers must not depend on the bounds asked before.
void h_bounds(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {20, 7});
  Strings dict = gen::to_vec(set);
  c.describe([&] { return "dictionary " + show(dict) + ":"; });
  DawgPtr d = must_build(c, dict);
  Pool p(d->root());
  World w{c, dict, set, nullptr, {}, {}};
  std::string q = gen::query_for(c, dict, alpha, 7), q2 = gen::mutant(c, q, alpha, 2);
  int a = (int)c.below(3);
  size_t k = c.range(2, 12);
  for (size_t i = 0; i < k; ++i) {
    size_t n = c.chance(1, 12) && q.size() < 9 ? gen::extreme(c) : c.below(7);
    const std::string &x = c.coin() ? q : q2;
    if (x.size() > 12 && n > 5) n = 5;
    bool with = c.coin();
    c.describe([&] { return std::string(" ") + model::algo_name(a) + "(" + show(x) + "," + std::to_string(n) + ")"; });
    auto o = p.open(a, with, x, n);
    while (w.step(*o)) {
    }
    w.finish(*o);
    c.mix(n);
  }
  c.mix(q);
  gen::mix(c, dict);
}

// A great number of everything: queries, open iterations, transducers, dictionaries.
void h_many(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {60, 7});
  Strings dict = gen::to_vec(set);
  World w{c, dict, set, must_build(c, dict), {}, {}};
  size_t what = c.below(4);
  Strings qs;
  for (size_t k = c.range(20, 300); k > 0; --k) qs.push_back(gen::query_for(c, dict, alpha, 7));
  for (auto &q : qs)
    if (q.size() > 12) q.resize(12);
  auto pass = [&](Pool &p, const Strings &dict) {
    auto o = p.open((int)c.below(3), c.coin(), c.pick(qs), c.below(4));
    while (w.step(*o)) {
    }
    judge(c, o->algo, dict, o->q, o->n, o->seen, o->with, "pass");
  };
  if (what == 0) { // queries on one transducer
    size_t k = c.range(500, 6000);
    c.describe([&] { return std::to_string(k) + " passes on one transducer of each kind, dictionary " + show(dict); });
    w.pools.emplace_back(new Pool(w.dawg->root()));
    for (; k > 0; --k) pass(*w.pools[0], dict);
  } else if (what == 1) { // iterations open at once
    size_t k = c.range(50, 600);
    c.describe([&] { return std::to_string(k) + " iterations open at once, dictionary " + show(dict); });
    w.pools.emplace_back(new Pool(w.dawg->root()));
    for (size_t i = 0; i < k; ++i) {
      w.open.push_back(w.pools[0]->open((int)c.below(3), c.coin(), c.pick(qs), c.below(4)));
      w.step(*w.open.back());
    }
    for (size_t i = 0; i < 2 * k && !w.open.empty(); ++i) {
      size_t j = c.below(w.open.size());
      w.look(*w.open[j]);
      if (w.open[j]->done()) {
        w.finish(*w.open[j]);
        w.open.erase(w.open.begin() + j);
      } else
        w.step(*w.open[j]);
    }
    while (!w.open.empty()) w.drain(c.below(w.open.size()));
  } else if (what == 2) { // transducers
    size_t k = c.range(20, 300);
    c.describe([&] { return std::to_string(k) + " transducers of each kind, dictionary " + show(dict); });
    for (size_t i = 0; i < k; ++i) w.pools.emplace_back(new Pool(w.dawg->root()));
    for (size_t i = 0; i < 2 * k; ++i) pass(*c.pick(w.pools), dict);
    while (w.pools.size() > 1) {
      w.pools.erase(w.pools.begin() + c.below(w.pools.size()));
      if (c.chance(1, 4)) pass(*c.pick(w.pools), dict);
    }
  } else { // dictionaries
    size_t k = c.range(20, 200);
    c.describe([&] { return std::to_string(k) + " dictionaries"; });
    std::vector<Strings> ds;
    std::vector<DawgPtr> dawgs;
    for (size_t i = 0; i < k; ++i) {
      ds.push_back(gen::to_vec(gen::term_set(c, alpha, {12, 6})));
      dawgs.push_back(must_build(c, ds.back()));
      w.pools.emplace_back(new Pool(dawgs.back()->root()));
    }
    w.dict.resize(400); // step() knows one dictionary only
    for (size_t i = 0; i < 4 * k; ++i) {
      size_t j = c.below(w.pools.size());
      pass(*w.pools[j], ds[j]);
      if (c.chance(1, 8)) { // another one takes its place
        w.pools[j].reset();
        dawgs[j].reset();
        ds[j] = gen::to_vec(gen::term_set(c, alpha, {12, 6}));
        dawgs[j] = must_build(c, ds[j]);
        w.pools[j].reset(new Pool(dawgs[j]->root()));
      }
    }
    w.pools.clear();
  }
  w.pools.clear();
  if (what != 3) check_contents(c, *w.dawg, w.set, "after queries");
  static const char *const name[] = {"thousands of passes", "hundreds of open iterations", "many transducers", "many dictionaries"};
  c.label(name[what]);
  c.nontrivial();
  gen::mix(c, qs);
  gen::mix(c, dict);
}

// More queries on one transducer than a small counter holds.
void h_endless(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {5, 5});
  Strings dict = gen::to_vec(set);
  DawgPtr d = must_build(c, dict);
  Pool p(d->root());
  World w{c, dict, set, nullptr, {}, {}};
  Strings qs;
  for (size_t k = c.range(2, 5); k > 0; --k) qs.push_back(gen::query_for(c, dict, alpha, 5));
  size_t k = c.range(66000, 90000);
  int a = (int)c.below(3);
  uint64_t s = c.below(0);
  c.describe([&] { return std::to_string(k) + " passes, queries " + show(qs) + ", dictionary " + show(dict); });
  for (; k > 0; --k) {
    uint64_t r = pbt::splitmix(s);
    auto o = p.open(a, true, qs[r % qs.size()], (r >> 32) % 3);
    while (w.step(*o)) {
    }
    w.finish(*o);
  }
  c.nontrivial();
}

Reg r6("C16", "over_65536_passes", 8, 200, h_endless, pbt::PLAIN_ONLY);
Reg r5("C16", "great_numbers", 600, 16000, h_many);
Reg r1("C16", "interleaved_history", 60000, 1500000, h_short);
Reg r2("C16", "repeated_passes", 20000, 600000, h_repeat);
Reg r3("C16", "bounds_in_any_order", 60000, 1500000, h_bounds);
Reg r4("C16", "long_history", 400, 12000, h_long);
} // namespace
