// C30: running out of memory does no lasting damage.
//
// Allocations go through a replaced operator new that can be told to fail
// once, or from some point on.  The number of allocations of an operation is
// found by a dry run on equal objects, so that every point is reached.
#include "graphs.h"
#include "query.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/serialization/serializer.h"
#include <cstdlib>
#include <new>
#include <sstream>

namespace {
// allocations left until one fails; negative: none does
long left = -1;
bool lasting = false; // and all that follow fail as well
bool counting = false;
uint64_t counted = 0, failed = 0;
} // namespace
void *operator new(size_t n) {
  if (counting) ++counted;
  if (left >= 0) {
    if (left == 0) {
      if (!lasting) left = -1;
      ++failed;
      throw std::bad_alloc();
    }
    --left;
  }
  if (void *p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

using namespace lib;
using pbt::Reg;
using pbt::show;

namespace {

// The harness's own allocations, amid an operation, always succeed.
struct Pause {
  long l = left;
  bool k = counting;
  Pause() { left = -1, counting = false; }
  ~Pause() { left = l, counting = k; }
};

template <class F> uint64_t allocations(F f) {
  counted = 0;
  counting = true;
  f();
  counting = false;
  return counted;
}

enum Outcome { DONE, REFUSED };
// Runs f with the allocation number `at` failing.  What it throws must be an
// ordinary exception.
template <class F> Outcome with_failure(long at, bool all_after, F f) {
  Outcome o = DONE;
  left = at;
  lasting = all_after;
  failed = 0;
  try {
    f();
    left = -1;
  } catch (pbt::Failure &) {
    left = -1;
    throw;
  } catch (std::exception &) {
    left = -1;
    o = REFUSED;
  }
  return o;
}

struct Three {
  ll::distance::StandardDistance s;
  ll::distance::TranspositionDistance t;
  ll::distance::MergeAndSplitDistance m;
  ll::distance::Distance &of(int a) {
    if (a == 0) return s;
    if (a == 1) return t;
    return m;
  }
};

long point(Ctx &c, uint64_t total) {
  if (total == 0) return 0;
  switch (c.below(4)) {
  case 0: return (long)c.below(std::min<uint64_t>(total, 8));
  case 1: return (long)(total - 1 - c.below(std::min<uint64_t>(total, 8)));
  default: return (long)c.below(total);
  }
}
std::string how(long at, bool all) { return "allocation " + std::to_string(at) + (all ? " and all after it fail" : " fails"); }

// One distance object: calls fail here and there, the others are right.
void distances(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  Three f;
  Strings pool;
  size_t np = c.range(2, 5);
  std::string base = gen::str(c, alpha, 9);
  for (size_t i = 0; i < np; ++i) pool.push_back(c.coin() ? gen::mutant(c, base, alpha, 4) : gen::str(c, alpha, 9));
  int a = (int)c.below(3);
  auto &d = f.of(a);
  size_t k = c.range(1, 8), hit = 0;
  auto judge1 = [&](const std::string &x, const std::string &y, size_t got, const char *when) {
    size_t want = model::distance(a, x, y);
    c.check(got == want, [&] {
      return std::string(model::algo_name(a)) + " distance(" + show(x) + ", " + show(y) + ") " + when + " is " + std::to_string(got) +
             ", should be " + std::to_string(want);
    });
  };
  for (size_t i = 0; i < k; ++i) {
    std::string x = c.pick(pool), y = c.pick(pool);
    size_t got = 0;
    if (c.chance(1, 4)) {
      c.describe([&] { return " (" + show(x) + ", " + show(y) + ")"; });
      judge1(x, y, d.between(x, y), "in between");
      continue;
    }
    // how many a call takes depends on what is memoized
    Three fresh;
    uint64_t total = allocations([&] { fresh.of(a).between(x, y); });
    long at = point(c, total);
    bool all = c.coin();
    c.describe([&] { return " (" + show(x) + ", " + show(y) + ") while " + how(at, all); });
    Outcome o = with_failure(at, all, [&] { got = d.between(x, y); });
    if (failed) ++hit;
    if (o == DONE) judge1(x, y, got, "despite the failure");
    c.label(o == DONE ? (failed ? "failure absorbed" : "no failure reached") : "exception");
    judge1(x, y, d.between(x, y), "after a failed call");
  }
  for (auto &x : pool)
    for (auto &y : pool) judge1(x, y, d(x, y), "after failed calls");
  if (hit) c.nontrivial();
  gen::mix(c, pool);
  c.mix(k);
}

struct World {
  ll::DawgNode *root;
  ll::Transducer<Algorithm::STANDARD, std::string> s0;
  ll::Transducer<Algorithm::STANDARD, Candidate> s1;
  ll::Transducer<Algorithm::TRANSPOSITION, std::string> t0;
  ll::Transducer<Algorithm::TRANSPOSITION, Candidate> t1;
  ll::Transducer<Algorithm::MERGE_AND_SPLIT, std::string> m0;
  ll::Transducer<Algorithm::MERGE_AND_SPLIT, Candidate> m1;
  explicit World(ll::DawgNode *r) : root(r), s0(r), s1(r), t0(r), t1(r), m0(r), m1(r) {}
  template <class T> static void drain(T &t, const std::string &q, size_t n, size_t cap, Results &out) {
    auto range = t(q, n);
    auto end = range.end();
    for (auto it = range.begin(); it != end; ++it) {
      Pause p;
      put(out, *it);
      if (out.size() > cap) return;
    }
  }
  void pass(int algo, bool with, const std::string &q, size_t n, size_t cap, Results &out) {
    switch (algo * 2 + with) {
    case 0: return drain(s0, q, n, cap, out);
    case 1: return drain(s1, q, n, cap, out);
    case 2: return drain(t0, q, n, cap, out);
    case 3: return drain(t1, q, n, cap, out);
    case 4: return drain(m0, q, n, cap, out);
    default: return drain(m1, q, n, cap, out);
    }
  }
};

// What came before the failure is right as far as it goes.
void judge_part(Ctx &c, int algo, const std::set<std::string> &dict, const std::string &q, size_t n, const Results &got, bool with) {
  std::set<std::string> seen;
  for (auto &[t, d] : got) {
    c.check(dict.count(t) == 1, [&] { return "a query that fails later yields " + show(t) + " which is not in the dictionary"; });
    size_t want = model::distance(algo, q, t);
    c.check(want <= n && (!with || d == want), [&] { return "a query that fails later yields " + show(t) + " at a distance that is wrong"; });
    c.check(seen.insert(t).second, [&] { return "a query that fails later yields " + show(t) + " twice"; });
  }
}

// Queries, iterations and tests on shared objects.
void lookups(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {20, c.chance(1, 3) ? 40u : 7u}); // long ones outgrow what strings and streams hold
  Strings dict = gen::to_vec(set);
  c.describe([&] { return "dictionary " + show(dict) + ":"; });
  DawgPtr d = must_build(c, set), twin = must_build(c, set);
  World w(d->root());
  size_t k = c.range(1, 6), hit = 0;
  for (size_t i = 0; i < k; ++i) {
    size_t op = c.weighted({8, 3, 1, 1, 1});
    bool all = c.coin();
    if (op == 0) {
      std::string q = gen::query_for(c, dict, alpha, 7);
      int algo = (int)c.below(3);
      bool with = c.coin();
      size_t n = c.below(4);
      Results out;
      uint64_t total = allocations([&] { w.pass(algo, with, q, n, set.size() + 3, out); });
      judge(c, algo, dict, q, n, out, with, "a pass that succeeds");
      long at = point(c, total);
      c.describe([&] { return " " + std::string(model::algo_name(algo)) + "(" + show(q) + ", " + std::to_string(n) + ") while " + how(at, all); });
      out.clear();
      Outcome o = with_failure(at, all, [&] { w.pass(algo, with, q, n, set.size() + 3, out); });
      if (failed) ++hit;
      if (o == DONE)
        judge(c, algo, dict, q, n, out, with, "a pass despite the failure");
      else
        judge_part(c, algo, set, q, n, out, with);
      c.label(o == DONE ? (failed ? "failure absorbed" : "no failure reached") : "exception");
      out.clear();
      w.pass(algo, with, q, n, set.size() + 3, out);
      judge(c, algo, dict, q, n, out, with, "the pass after a failed one");
    } else if (op == 1) {
      Strings seen;
      auto go = [&] {
        auto end = d->end();
        for (auto it = d->begin(); it != end; ++it) {
          std::string t = *it;
          Pause p;
          seen.push_back(t);
          if (seen.size() > set.size() + 3) break;
        }
      };
      uint64_t total = allocations(go);
      Strings complete = seen;
      seen.clear();
      long at = point(c, total);
      c.describe([&] { return " iteration while " + how(at, all); });
      Outcome o = with_failure(at, all, go);
      if (failed) ++hit;
      if (o == DONE) c.check(seen == complete, "an iteration despite the failure differs");
      std::set<std::string> once(seen.begin(), seen.end());
      c.check(once.size() == seen.size() && std::includes(set.begin(), set.end(), once.begin(), once.end()),
              "an iteration that fails later yields something else or twice");
      c.label(o == DONE ? (failed ? "failure absorbed" : "no failure reached") : "exception");
    } else {
      std::string x = dict.empty() || c.coin() ? gen::str(c, alpha, 7) : c.pick(dict);
      bool r1 = false, r2 = false;
      size_t h1 = 0, h0 = std::hash<ll::Dawg>{}(*d);
      auto go = [&] {
        if (op == 2) r1 = d->contains(x);
        if (op == 3) r2 = *d == *twin;
        if (op == 4) h1 = std::hash<ll::Dawg>{}(*d);
      };
      uint64_t total = allocations(go);
      r1 = r2 = false, h1 = 0;
      long at = point(c, total);
      c.describe([&] { return std::string(op == 2 ? " contains" : op == 3 ? " ==" : " hash") + " while " + how(at, all); });
      if (with_failure(at, all, go) == DONE) {
        if (op == 2) c.check(r1 == (set.count(x) == 1), "contains() despite the failure is wrong");
        if (op == 3) c.check(r2, "== despite the failure is wrong");
        if (op == 4) c.check(h1 == h0, "the hash code despite the failure is different");
      }
      if (failed) ++hit;
    }
  }
  check_contents(c, *d, set, "a dictionary after failed operations");
  c.check(*d == *twin, "a dictionary after failed operations differs from its twin");
  for (int a = 0; a < 3; ++a) {
    std::string q = gen::query_for(c, dict, alpha, 7);
    size_t n = c.below(4);
    Results out;
    bool with = c.coin();
    w.pass(a, with, q, n, set.size() + 3, out);
    judge(c, a, dict, q, n, out, with, "a query after failed ones");
  }
  if (hit) c.nontrivial();
  gen::mix(c, dict);
  c.mix(k);
}

// Building, storing and loading: an exception, a refusal, or the right thing.
void builds(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {20, 7});
  Strings dict = gen::to_vec(set);
  bool all = c.coin();
  size_t op = c.below(4);
  c.describe([&] { return "dictionary " + show(dict) + ":"; });
  DawgPtr d = must_build(c, set);
  bool hit = false;
  if (op == 0) {
    ll::Dawg *made = nullptr;
    uint64_t total = allocations([&] { made = ll::sorted_dawg(dict.begin(), dict.end()); });
    delete made;
    long at = point(c, total);
    c.describe([&] { return " building while " + how(at, all); });
    made = nullptr;
    Outcome o = with_failure(at, all, [&] { made = ll::sorted_dawg(dict.begin(), dict.end()); });
    hit = failed > 0;
    DawgPtr own(made);
    if (o == DONE && made) check_contents(c, *made, set, "a dictionary built despite the failure");
    if (o == DONE && !made && !failed) c.fail("construction is refused for no reason");
    c.label(o == DONE ? (failed ? "failure absorbed" : "no failure reached") : "exception");
  } else if (op == 1) {
    // a builder in the middle of whose work memory runs out can be thrown away
    size_t n_ok = c.below(dict.size() + 1);
    auto fill = [&](ll::SortedDawg &b, size_t from, size_t to) {
      for (size_t i = from; i < to; ++i) b.add(dict[i]);
    };
    uint64_t total;
    {
      ll::SortedDawg b;
      b.init();
      fill(b, 0, n_ok);
      total = allocations([&] { fill(b, n_ok, dict.size()), b.finish(); });
    }
    long at = point(c, total);
    bool clean = c.coin();
    c.describe([&] { return " adding to a builder from term " + std::to_string(n_ok) + " on while " + how(at, all); });
    {
      ll::SortedDawg b;
      b.init();
      fill(b, 0, n_ok);
      Outcome o = with_failure(at, all, [&] { fill(b, n_ok, dict.size()), b.finish(); });
      hit = failed > 0;
      c.label(o == DONE ? (failed ? "failure absorbed" : "no failure reached") : "exception");
      if (o == DONE && !failed) check_contents(c, b, set, "a dictionary built bit by bit");
      if (clean) b.clean_up();
    }
  } else {
    std::stringstream good;
    c.check(ll::serialize_protobuf(d.get(), good), "saving fails");
    std::string stored = good.str();
    if (op == 2) {
      auto save = [&](std::ostream &o, bool &r) { r = ll::serialize_protobuf(d.get(), o); };
      bool r = false;
      uint64_t total;
      {
        std::stringstream o;
        total = allocations([&] { save(o, r); });
      }
      long at = point(c, total);
      c.describe([&] { return " saving while " + how(at, all); });
      std::stringstream o;
      r = false;
      Outcome oc = with_failure(at, all, [&] { save(o, r); });
      hit = failed > 0;
      if (oc == DONE && r) {
        DawgPtr back(ll::deserialize_protobuf(o));
        c.check(back != nullptr, "what was saved despite the failure does not load");
        check_contents(c, *back, set, "what was saved despite the failure");
      }
      c.label(oc == DONE ? (r ? failed ? "failure absorbed" : "no failure reached" : "refused") : "exception");
    } else {
      ll::Dawg *made = nullptr;
      uint64_t total;
      {
        std::stringstream in(stored);
        total = allocations([&] { made = ll::deserialize_protobuf(in); });
        delete made;
      }
      long at = point(c, total);
      c.describe([&] { return " loading while " + how(at, all); });
      std::stringstream in(stored);
      made = nullptr;
      Outcome oc = with_failure(at, all, [&] { made = ll::deserialize_protobuf(in); });
      hit = failed > 0;
      DawgPtr own(made);
      if (oc == DONE && made) check_contents(c, *made, set, "what was loaded despite the failure");
      c.label(oc == DONE ? (made ? failed ? "failure absorbed" : "no failure reached" : "refused") : "exception");
    }
    std::stringstream again;
    c.check(ll::serialize_protobuf(d.get(), again), "saving after a failure fails");
    DawgPtr back(ll::deserialize_protobuf(again));
    c.check(back != nullptr, "what was saved after a failure does not load");
    check_contents(c, *back, set, "what was saved and loaded after a failure");
  }
  // nothing of it is left behind
  DawgPtr e = must_build(c, set);
  check_contents(c, *e, set, "a dictionary built after a failure");
  check_contents(c, *d, set, "a dictionary that was there all the time");
  c.check(*d == *e, "dictionaries built before and after a failure differ");
  if (hit) c.nontrivial();
  gen::mix(c, dict);
  c.mix(op);
}

// One operation, failing at each of its allocations in turn.
void every_point(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {8, c.coin() ? 24u : 6u});
  Strings dict = gen::to_vec(set);
  DawgPtr d = must_build(c, set);
  World w(d->root());
  std::string q = gen::query_for(c, dict, alpha, 6);
  if (q.size() > 24) q.resize(24);
  int algo = (int)c.below(3);
  bool with = c.coin(), all = c.coin();
  size_t n = c.below(4), op = c.below(5), cap = set.size() + 3;
  c.describe([&] {
    static const char *const name[] = {"query", "iteration", "distance", "building", "loading"};
    return "dictionary " + show(dict) + ", " + name[op] + " (" + model::algo_name(algo) + ", " + show(q) + ", " + std::to_string(n) + ")";
  });
  std::stringstream good;
  c.check(ll::serialize_protobuf(d.get(), good), "saving fails");
  std::string stored = good.str(), other = dict.empty() ? "abc" : dict.back();
  if (op == 2) q.resize(std::min<size_t>(q.size(), 5)), other.resize(std::min<size_t>(other.size(), 5));
  Three shared;
  uint64_t total = 0, done = 0;
  bool dry = true;
  for (long at = -1; at < (long)total; ++at, dry = false) {
    Results out;
    Strings seen;
    size_t got = 0;
    ll::Dawg *made = nullptr;
    std::stringstream in(stored);
    Three fresh;
    auto go = [&] {
      switch (op) {
      case 0: w.pass(algo, with, q, n, cap, out); break;
      case 1: {
        auto end = d->end();
        for (auto it = d->begin(); it != end; ++it) {
          std::string t = *it;
          Pause p;
          seen.push_back(t);
          if (seen.size() > cap) break;
        }
        break;
      }
      case 2: got = (dry ? fresh : shared).of(algo).between(q, other); break;
      case 3: made = ll::sorted_dawg(dict.begin(), dict.end()); break;
      default: made = ll::deserialize_protobuf(in);
      }
    };
    if (dry) {
      total = std::min<uint64_t>(allocations(go), 1500);
      delete made;
      continue;
    }
    Outcome o = with_failure(at, all, go);
    if (failed) ++done;
    DawgPtr own(made);
    auto where = [&](const char *what) { return std::string(what) + " while " + how(at, all); };
    switch (op) {
    case 0:
      if (o == DONE)
        judge(c, algo, dict, q, n, out, with, where("a pass").c_str());
      else
        judge_part(c, algo, set, q, n, out, with);
      break;
    case 1: {
      std::set<std::string> once(seen.begin(), seen.end());
      c.check(once.size() == seen.size() && std::includes(set.begin(), set.end(), once.begin(), once.end()) &&
                  (o != DONE || once == set),
              [&] { return where("an iteration") + " yields something else, too little or twice"; });
      break;
    }
    case 2:
      if (o == DONE) c.check(got == model::distance(algo, q, other), [&] { return where("the distance") + " is wrong"; });
      break;
    default:
      if (o == DONE && made) check_contents(c, *made, set, where("a dictionary made").c_str());
    }
  }
  check_contents(c, *d, set, "a dictionary after failed operations");
  for (int a = 0; a < 3; ++a) {
    Results out;
    w.pass(a, with, q, n, cap, out);
    judge(c, a, dict, q, n, out, with, "a query after failed ones");
    if (op == 2) c.check(shared.of(a)(q, other) == model::distance(a, q, other), "a distance after failed calls is wrong");
  }
  if (done > 3) c.nontrivial();
  c.label(done > 100 ? "more than 100 points" : "fewer points");
  gen::mix(c, dict);
  c.mix(q);
  c.mix(op);
}

Reg r4("C30", "every_point", 3000, 100000, every_point);
Reg r1("C30", "distances", 12000, 400000, distances);
Reg r2("C30", "lookups", 6000, 200000, lookups);
Reg r3("C30", "builds", 12000, 400000, builds);
} // namespace
