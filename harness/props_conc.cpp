// C15: one distance object shared by threads.
// C17: threads querying one dictionary at the same time.
//
// A case draws a plan (what each thread does, in which order, with which
// pauses) before any thread starts; threads touch only their own plan, the
// objects under test and their own result slots, so that every race reported
// in the tsan variant is one of the library's.
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "graphs.h"
#include "query.h"
#include <atomic>
#include <sched.h>
#include <thread>

using namespace lib;
using pbt::Reg;
using pbt::show;

namespace {

void pause(unsigned p) {
  if (p == 1)
    sched_yield();
  else if (p > 1)
    for (volatile unsigned i = 0; i < p * 40; i = i + 1) {
    }
}

template <class F> void together(size_t n, F f) {
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      ready.fetch_add(1);
      unsigned spins = 0;
      while (ready.load() < n)
        if (++spins > 200) sched_yield();
      f(i);
    });
  for (auto &t : ts) t.join();
}

// n threads, all at once or no more than some at a time.
template <class F> void in_waves(size_t n, size_t wave, F f) {
  for (size_t from = 0; from < n; from += wave) together(std::min(wave, n - from), [&](size_t i) { f(from + i); });
}
size_t wave_of(Ctx &c, size_t nt) {
  if (nt <= 16 || c.coin()) return nt;
  c.label("threads in waves");
  return c.range(1, 8);
}

// ---------------------------------------------------------------- C15
struct Call {
  std::string v, w;
  unsigned pause;
  size_t got = SIZE_MAX;
};

void shared_distance(Ctx &c, size_t max_threads, size_t max_calls, size_t max_len) {
  std::string alpha = gen::alphabet(c);
  int a = (int)c.below(3);
  size_t nt = c.range(2, max_threads);
  // a small pool of words makes threads meet on the same pairs and on
  // each other's sub-problems
  Strings pool;
  size_t np = c.range(2, 8);
  std::string w0 = gen::str(c, alpha, max_len);
  for (size_t i = 0; i < np; ++i) pool.push_back(c.coin() ? gen::mutant(c, w0, alpha, 3) : gen::str(c, alpha, max_len));
  std::vector<std::vector<Call>> plan(nt);
  bool same = c.chance(1, 3); // every thread runs the same calls
  for (size_t t = 0; t < nt; ++t) {
    if (same && t > 0) {
      plan[t] = plan[0];
      continue;
    }
    size_t n = c.range(1, max_calls);
    for (size_t k = 0; k < n; ++k) plan[t].push_back({c.pick(pool), c.pick(pool), (unsigned)c.below(6)});
  }
  c.describe([&] {
    std::string s = std::string(model::algo_name(a)) + " " + std::to_string(nt) + " threads:";
    for (auto &p : plan) {
      s += " [";
      for (auto &k : p) s += "(" + show(k.v) + "," + show(k.w) + ")";
      s += "]";
    }
    return s;
  });
  ll::distance::StandardDistance d0;
  ll::distance::TranspositionDistance d1;
  ll::distance::MergeAndSplitDistance d2;
  ll::distance::Distance &d = a == 0 ? (ll::distance::Distance &)d0 : a == 1 ? (ll::distance::Distance &)d1 : (ll::distance::Distance &)d2;
  bool op = c.coin();
  in_waves(nt, wave_of(c, nt), [&](size_t t) {
    for (auto &k : plan[t]) {
      pause(k.pause);
      k.got = op ? d(k.v, k.w) : d.between(k.v, k.w);
    }
  });
  size_t calls = 0;
  for (size_t t = 0; t < nt; ++t)
    for (auto &k : plan[t]) {
      size_t want = model::distance(a, k.v, k.w);
      ++calls;
      c.check(k.got == want, [&] {
        return "thread " + std::to_string(t) + " of " + std::to_string(nt) + ": " + model::algo_name(a) + " distance of " +
               show(k.v) + " and " + show(k.w) + " is " + std::to_string(k.got) + ", alone it is " + std::to_string(want);
      });
      c.mix(k.v);
      c.mix(k.w);
    }
  // what the threads left behind is right, too
  for (size_t i = 0; i + 1 < pool.size(); ++i)
    c.check(d(pool[i], pool[i + 1]) == model::distance(a, pool[i], pool[i + 1]), [&] {
      return "after the threads ended, the distance of " + show(pool[i]) + " and " + show(pool[i + 1]) + " is wrong";
    });
  c.mix(nt);
  if (calls >= 4) c.nontrivial();
  c.label(same ? "same calls in all threads" : "different calls");
}

// Many threads, all three objects at once, a lot of growth of the memory.
void growth(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  size_t nt = c.range(4, 8);
  ll::distance::StandardDistance d0;
  ll::distance::TranspositionDistance d1;
  ll::distance::MergeAndSplitDistance d2;
  struct K {
    std::string v, w;
    int a;
    size_t got;
  };
  std::vector<std::vector<K>> plan(nt);
  for (auto &p : plan) {
    size_t n = c.range(5, 25);
    for (size_t i = 0; i < n; ++i) p.push_back({gen::str(c, alpha, 9), gen::str(c, alpha, 9), (int)c.below(3), 0});
  }
  c.describe([&] { return std::to_string(nt) + " threads computing distances of random pairs"; });
  together(nt, [&](size_t t) {
    for (auto &k : plan[t]) k.got = k.a == 0 ? d0.between(k.v, k.w) : k.a == 1 ? d1.between(k.v, k.w) : d2.between(k.v, k.w);
  });
  for (auto &p : plan)
    for (auto &k : p)
      c.check(k.got == model::distance(k.a, k.v, k.w), [&] {
        return std::string("under concurrent use the ") + model::algo_name(k.a) + " distance of " + show(k.v) + " and " + show(k.w) +
               " is " + std::to_string(k.got) + ", alone it is " + std::to_string(model::distance(k.a, k.v, k.w));
      });
  c.nontrivial();
}

Reg a1("C15", "few_calls_each", 60000, 1500000, [](Ctx &c) { shared_distance(c, 4, 3, 6); });
Reg a2("C15", "overlapping_calls", 25000, 600000, [](Ctx &c) { shared_distance(c, 8, 12, 9); });
Reg a4("C15", "many_threads", 400, 8000, [](Ctx &c) { shared_distance(c, 120, 2, 6); });
Reg a3("C15", "growing_memory", 2000, 50000, growth);

// ---------------------------------------------------------------- C17
struct Task {
  int kind = 0; // 0 query, 1 membership, 2 iteration, 3 node walk
  int algo = 0;
  bool with = false, shared = false, partial = false;
  std::string q;
  size_t n = 0, stop = SIZE_MAX;
  unsigned pause = 0;
  Results got;
  Strings terms;
  bool member = false, overrun = false;
  size_t count = 0;
};

struct Pool {
  using A = Algorithm;
  ll::Transducer<A::STANDARD, std::string> s0;
  ll::Transducer<A::STANDARD, Candidate> s1;
  ll::Transducer<A::TRANSPOSITION, std::string> t0;
  ll::Transducer<A::TRANSPOSITION, Candidate> t1;
  ll::Transducer<A::MERGE_AND_SPLIT, std::string> m0;
  ll::Transducer<A::MERGE_AND_SPLIT, Candidate> m1;
  explicit Pool(ll::DawgNode *r) : s0(r), s1(r), t0(r), t1(r), m0(r), m1(r) {}
};

template <class T> void pull(T &tr, Task &t, size_t cap) {
  auto range = tr(t.q, t.n);
  auto it = range.begin();
  auto end = range.end();
  for (; it != end; ++it) {
    if (t.got.size() >= cap) {
      t.overrun = true;
      return;
    }
    if (t.got.size() >= t.stop) return;
    put(t.got, *it);
    if (t.pause == 1) sched_yield();
  }
}

template <Algorithm A, class R> void own(ll::DawgNode *root, Task &t, size_t cap) {
  ll::Transducer<A, R> tr(root);
  pull(tr, t, cap);
}

void run(const ll::Dawg &d, Pool &p, Task &t, size_t cap) {
  pause(t.pause);
  switch (t.kind) {
  case 0:
    if (t.shared) {
      if (t.algo == 0) t.with ? pull(p.s1, t, cap) : pull(p.s0, t, cap);
      else if (t.algo == 1) t.with ? pull(p.t1, t, cap) : pull(p.t0, t, cap);
      else t.with ? pull(p.m1, t, cap) : pull(p.m0, t, cap);
    } else {
      using C = Candidate;
      if (t.algo == 0) t.with ? own<Algorithm::STANDARD, C>(d.root(), t, cap) : own<Algorithm::STANDARD, std::string>(d.root(), t, cap);
      else if (t.algo == 1)
        t.with ? own<Algorithm::TRANSPOSITION, C>(d.root(), t, cap) : own<Algorithm::TRANSPOSITION, std::string>(d.root(), t, cap);
      else
        t.with ? own<Algorithm::MERGE_AND_SPLIT, C>(d.root(), t, cap) : own<Algorithm::MERGE_AND_SPLIT, std::string>(d.root(), t, cap);
    }
    break;
  case 1: t.member = d.contains(t.q); break;
  case 2: {
    auto end = d.end();
    for (auto it = d.begin(); it != end; ++it) {
      if (t.terms.size() > cap) {
        t.overrun = true;
        return;
      }
      if (t.terms.size() >= t.stop) return;
      t.terms.push_back(*it);
    }
    break;
  }
  default: { // follow the query through the graph, count edges, size
    ll::DawgNode *n = d.root();
    for (char ch : t.q) {
      if (n) n->for_each_edge([&](char, ll::DawgNode *) { ++t.count; });
      n = n ? n->transition(ch) : nullptr;
    }
    t.member = n && n->is_final();
    t.count = d.size();
  }
  }
}

void concurrent(Ctx &c, size_t max_threads, size_t max_tasks, gen::DictOpt opt) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, opt);
  Strings dict = gen::to_vec(set);
  size_t nt = c.range(2, max_threads);
  Strings qs;
  size_t nq = c.range(1, 3);
  for (size_t i = 0; i < nq; ++i) qs.push_back(gen::query_for(c, dict, alpha, opt.max_len));
  std::vector<std::vector<Task>> plan(nt);
  unsigned style = (unsigned)c.weighted({4, 3, 2}); // mixed, all queries on shared transducers, same query everywhere
  int a0 = (int)c.below(3);
  bool w0 = c.coin();
  for (size_t t = 0; t < nt; ++t) {
    size_t k = c.range(1, max_tasks);
    for (size_t i = 0; i < k; ++i) {
      Task x;
      x.kind = style == 0 ? (int)c.weighted({6, 2, 2, 1}) : 0;
      x.algo = style == 2 ? a0 : (int)c.below(3);
      x.with = style == 2 ? w0 : c.coin();
      x.shared = style == 0 ? c.coin() : true;
      x.q = style == 2 ? qs[0] : c.chance(1, 5) ? gen::query_for(c, dict, alpha, opt.max_len) : c.pick(qs);
      x.n = c.below(5);
      if (c.chance(1, 6)) {
        x.partial = true;
        x.stop = c.below(4);
      }
      x.pause = (unsigned)c.below(6);
      plan[t].push_back(std::move(x));
    }
  }
  c.describe([&] {
    std::string s = "dictionary " + show(dict) + ":";
    for (auto &p : plan) {
      s += " [";
      for (auto &x : p)
        s += x.kind == 0 ? std::string(model::algo_name(x.algo)) + (x.with ? "+d" : "") + (x.shared ? "@shared" : "") + "(" + show(x.q) + "," +
                               std::to_string(x.n) + ") "
             : x.kind == 1 ? "contains(" + show(x.q) + ") "
             : x.kind == 2 ? std::string("iterate ")
                           : "walk(" + show(x.q) + ") ";
      s += "]";
    }
    return s;
  });
  // built, or assembled by hand: nobody has visited such a graph before the threads do
  bool hand = c.chance(1, 3);
  DawgPtr d = hand ? DawgPtr(new ll::SortedDawg(hand_built(c, set, (unsigned)c.below(8)), set.size())) : must_build(c, dict);
  if (hand) c.label("graph assembled by hand");
  {
    Pool p(d->root());
    in_waves(nt, wave_of(c, nt), [&](size_t t) {
      for (auto &x : plan[t]) run(*d, p, x, dict.size() + 1);
    });
  }
  bool mixed = false;
  for (size_t t = 0; t < nt; ++t)
    for (auto &x : plan[t]) {
      c.check(!x.overrun, "a concurrent query or iteration yields more terms than the dictionary has");
      if (x.kind == 0) {
        if (!x.partial)
          judge(c, x.algo, dict, x.q, x.n, x.got, x.with, "concurrent query");
        else
          for (auto &[s, dist] : x.got) {
            size_t want = model::distance(x.algo, x.q, s);
            c.check(set.count(s) && want <= x.n && (!x.with || dist == want), [&] {
              return "concurrent query " + std::string(model::algo_name(x.algo)) + "(" + show(x.q) + ", " + std::to_string(x.n) +
                     ") yields " + show(s) + (x.with ? " at distance " + std::to_string(dist) : "");
            });
          }
        mixed = true;
      } else if (x.kind == 2) {
        std::multiset<std::string> got(x.terms.begin(), x.terms.end());
        if (!x.partial)
          c.check(got.size() == set.size() && std::equal(got.begin(), got.end(), set.begin()),
                  [&] { return "concurrent iteration differs:" + diff(set, got); });
      } else {
        c.check(x.member == (set.count(x.q) == 1), [&] { return "concurrent membership of " + show(x.q) + " is wrong"; });
        if (x.kind == 3) c.check(x.count == set.size(), "concurrent size is wrong");
      }
    }
  check_contents(c, *d, set, "after concurrent use");
  gen::mix(c, dict);
  gen::mix(c, qs);
  c.mix(nt);
  (void)mixed;
}

Reg b1("C17", "short_plans", 60000, 1500000, [](Ctx &c) { concurrent(c, 4, 2, {12, 6}); });
Reg b2("C17", "mixed_plans", 20000, 500000, [](Ctx &c) { concurrent(c, 8, 5, {40, 9}); });
Reg b4("C17", "many_threads", 400, 8000, [](Ctx &c) { concurrent(c, 120, 2, {20, 6}); });
Reg b3("C17", "crowded", 1500, 40000, [](Ctx &c) { concurrent(c, 16, 12, {60, 10}); });
} // namespace
