// C12 (exact distances), C13 (metric axioms), C14 (history independence).
#include "graphs.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "query.h"

using namespace lib;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;

namespace {

std::unique_ptr<ll::distance::Distance> make(int a) {
  if (a == 0) return std::unique_ptr<ll::distance::Distance>(new ll::distance::StandardDistance);
  if (a == 1) return std::unique_ptr<ll::distance::Distance>(new ll::distance::TranspositionDistance);
  return std::unique_ptr<ll::distance::Distance>(new ll::distance::MergeAndSplitDistance);
}
// The base class has no virtual destructor: own the concrete types.
struct Three {
  ll::distance::StandardDistance s;
  ll::distance::TranspositionDistance t;
  ll::distance::MergeAndSplitDistance m;
  ll::distance::Distance &of(int a) {
    if (a == 0) return s;
    if (a == 1) return t;
    return m;
  }
};

std::string call(int a, const std::string &x, const std::string &y) {
  return std::string(model::algo_name(a)) + " distance(" + show(x) + ", " + show(y) + ")";
}

void expect(Ctx &c, Three &f, int a, const std::string &x, const std::string &y) {
  size_t got = c.coin() ? f.of(a)(x, y) : f.of(a).between(x, y);
  size_t want = model::distance(a, x, y);
  c.check(got == want, [&] { return call(a, x, y) + " is " + std::to_string(got) + ", should be " + std::to_string(want); });
}

// ---------------------------------------------------------------- C12
void pair_of(Ctx &c, const std::string &alpha, size_t maxlen, std::string &x, std::string &y) {
  x = gen::str(c, alpha, maxlen);
  y = c.chance(3, 4) ? gen::mutant(c, x, alpha, 6) : gen::str(c, alpha, maxlen);
}

void exact(Ctx &c) {
  std::string alpha = gen::alphabet(c), x, y;
  pair_of(c, alpha, 14, x, y);
  c.describe([&] { return show(x) + " ~ " + show(y); });
  Three f;
  for (int a = 0; a < 3; ++a) {
    expect(c, f, a, x, y);
    expect(c, f, a, y, x);
  }
  if (c.chance(1, 4)) { // agreement with the transducer
    int a = (int)c.below(3);
    size_t k = f.of(a)(x, y);
    if (k <= 7) {
      DawgPtr d = must_build(c, Strings{y});
      Results r = query(c, a, d->root(), x, k, true, 1);
      c.check(r.size() == 1 && r[0].first == y && r[0].second == k,
              [&] { return call(a, x, y) + " disagrees with the transducer"; });
      if (k > 0) c.check(query(c, a, d->root(), x, k - 1, true, 1).empty(), [&] { return call(a, x, y) + " exceeds what the transducer finds"; });
      c.label("compared with the transducer");
    }
  }
  if (x != y && !x.empty() && !y.empty()) c.nontrivial();
  c.mix(x);
  c.mix(y);
}

void exact_long(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  size_t len = c.coin() ? c.range(20, 70) : c.range(100, 300);
  std::string x = gen::str_of_len(c, alpha, len), y = x;
  if (len < 71 && c.coin()) {
    y = gen::str_of_len(c, alpha, c.range(20, 70));
  } else {
    size_t k = c.range(0, 4);
    for (size_t i = 0; i < k; ++i) gen::edit(c, y, alpha);
    if (len > 100 && y != x) { // keep the differing middle short enough for the recursion
      size_t p = 0;
      while (p < x.size() && p < y.size() && x[p] == y[p]) ++p;
      if (x.size() - p > 120) {
        std::string tail = gen::str_of_len(c, alpha, c.below(100));
        x = x.substr(0, p) + x.substr(p, 4) + tail;
        y = y.substr(0, p) + y.substr(p, 3) + tail;
      }
    }
  }
  c.describe([&] { return show(x) + " ~ " + show(y); });
  Three f;
  int a = (int)c.below(3);
  expect(c, f, a, x, y);
  if (x != y) c.nontrivial();
  c.mix(x);
  c.mix(y);
}

// A long string against a short one or the empty one.
void exact_lopsided(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  static const size_t lens[] = {60, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 800, 1023, 1024, 1025, 1500};
  size_t len = lens[c.below(sizeof lens / sizeof *lens)];
  std::string x(len, gen::letter(c, alpha)), y;
  for (size_t i = c.below(10); i > 0; --i) x[c.coin() ? c.below(len) : len - 1 - c.below(8)] = gen::letter(c, alpha);
  switch (c.below(4)) {
  case 0: y = gen::str(c, alpha, 4); break;
  case 1: y = x.substr(len - 1 - c.below(5)); break;
  case 2: y = x.substr(c.below(len), c.range(1, 4)); break;
  default: { // nothing at all, against a string of any length
    uint64_t s = c.below(0);
    x.resize(c.below(300000), (char)s);
  }
  }
  c.describe([&] { return std::to_string(x.size()) + " characters ~ " + show(y); });
  Three f;
  int a = (int)c.below(3);
  c.coin() ? expect(c, f, a, x, y) : expect(c, f, a, y, x);
  if (!y.empty()) c.nontrivial();
  c.mix(x);
  c.mix(y);
}

// A very long common prefix, which does not change any of the distances.
void exact_prefix(Ctx &c) {
  std::string alpha = gen::alphabet(c), x, y;
  pair_of(c, alpha, 10, x, y);
  size_t len = c.chance(1, 16) ? 65530 + c.below(12) : c.range(200, 12000);
  std::string w;
  uint64_t s = c.below(0);
  for (size_t i = 0; i < len; ++i) w += alpha[pbt::splitmix(s) % alpha.size()];
  c.describe([&] { return "behind a common prefix of " + std::to_string(len) + " characters: " + show(x) + " ~ " + show(y); });
  Three f;
  for (int a = 0; a < 3; ++a) {
    size_t got = f.of(a)(w + x, w + y), want = model::distance(a, x, y);
    c.check(got == want, [&] { return call(a, x, y) + " behind a common prefix of " + std::to_string(len) + " characters is " + std::to_string(got) + ", should be " + std::to_string(want); });
  }
  if (x != y) c.nontrivial();
  c.mix(x);
  c.mix(y);
  c.mix(len);
}

Strings all_strings(const std::string &alpha, size_t maxlen) {
  Strings out, level{""};
  for (size_t l = 0; l <= maxlen; ++l) {
    Strings next;
    for (auto &s : level) {
      out.push_back(s);
      for (char ch : alpha) next.push_back(s + ch);
    }
    level = next;
  }
  return out;
}
void exact_all(Ctx &c, const std::string &alpha, size_t maxlen) {
  static std::map<std::string, Strings> cache;
  Strings &U = cache[alpha];
  if (U.empty()) U = all_strings(alpha, maxlen);
  const std::string &x = U[c.below(U.size())];
  c.describe([&] { return show(x) + " ~ all " + std::to_string(U.size()) + " strings over " + show(alpha); });
  Three f;
  for (auto &y : U) {
    bool fresh = (y.size() & 1) == 0;
    for (int a = 0; a < 3; ++a) {
      size_t want = model::distance(a, x, y), got;
      if (fresh) {
        Three g;
        got = g.of(a)(x, y);
      } else
        got = f.of(a)(x, y);
      c.check(got == want, [&] { return call(a, x, y) + " is " + std::to_string(got) + ", should be " + std::to_string(want); });
    }
  }
  if (!x.empty()) c.nontrivial();
}

// The oracle itself against brute-force search over single operations, for
// the two distances that are shortest paths (the third is by alignment).
void oracle_bfs(Ctx &c) {
  std::string alpha = "abc";
  std::string x = gen::str(c, alpha, 4);
  int a = c.coin() ? model::STD : model::MAS;
  size_t R = 2;
  std::set<std::string> seen{x}, level{x};
  size_t lim = 7;
  for (size_t d = 0; d <= R; ++d) {
    for (auto &s : level)
      if (model::distance(a, x, s) > d) c.fail("oracle: reference distance too large for " + show(x) + " " + show(s));
    std::set<std::string> next;
    for (auto &s : level) {
      auto out = [&](std::string t) {
        if (t.size() <= lim && seen.insert(t).second) next.insert(t);
      };
      for (size_t i = 0; i <= s.size(); ++i) {
        for (char ch : alpha) {
          out(s.substr(0, i) + ch + s.substr(i));
          if (i < s.size()) out(s.substr(0, i) + ch + s.substr(i + 1));
          if (a == model::MAS && i + 1 < s.size()) out(s.substr(0, i) + ch + s.substr(i + 2));
          if (a == model::MAS && i < s.size())
            for (char c2 : alpha) out(s.substr(0, i) + ch + c2 + s.substr(i + 1));
        }
        if (i < s.size()) out(s.substr(0, i) + s.substr(i + 1));
      }
    }
    level = next;
  }
  for (auto &y : all_strings(alpha, 5))
    if (!seen.count(y) && model::distance(a, x, y) <= R) c.fail("oracle: reference distance too small for " + show(x) + " " + show(y));
  c.describe([&] { return "oracle against breadth-first search from " + show(x); });
  c.label("oracle cross-checked");
}

Reg c12a("C12", "related_pairs", 250000, 8000000, exact);
Reg c12b("C12", "long_pairs", 3000, 80000, exact_long);
Reg c12g("C12", "lopsided_lengths", 3000, 60000, exact_lopsided, 8);
Reg c12h("C12", "very_long_prefix", 800, 10000, exact_prefix, 8);
RegEnum c12c("C12", "all_pairs_ab6", 127, 127, [](Ctx &c) { exact_all(c, "ab", 6); }, 4);
RegEnum c12d("C12", "all_pairs_abc4", 121, 121, [](Ctx &c) { exact_all(c, "abc", 4); }, 4);
RegEnum c12e("C12", "all_pairs_abcd3", 85, 85, [](Ctx &c) { exact_all(c, "abcd", 3); }, 4);
Reg c12f("C12", "oracle_self_check", 60, 500, oracle_bfs);

// ---------------------------------------------------------------- C13
// The restricted transposition distance is known not to satisfy the triangle
// inequality (known-findings file): triples for which the textbook distance
// itself violates it are counted, everything else is a violation.
void triangle(Ctx &c, Three &f, int a, const std::string &x, const std::string &y, const std::string &z) {
  auto &d = f.of(a);
  size_t xz = d(x, z), xy = d(x, y), yz = d(y, z);
  if (xz > xy + yz) {
    size_t mxz = model::distance(a, x, z), mxy = model::distance(a, x, y), myz = model::distance(a, y, z);
    bool listed = pbt::options.count("known") && pbt::options["known"].find("transposition-triangle") != std::string::npos;
    if (listed && a == model::TRA && xz == mxz && xy == mxy && yz == myz) {
      c.label("KNOWN transposition distance violates the triangle inequality");
      return;
    }
    c.fail("triangle inequality: " + call(a, x, z) + " = " + std::to_string(xz) + " > " + std::to_string(xy) + " + " + std::to_string(yz) +
           " through " + show(y));
  }
  c.compared();
}

void axioms_for(Ctx &c, Three &f, int a, const std::string &x, const std::string &y, const std::string &z, const std::string &p,
                const std::string &s) {
  auto &d = f.of(a);
  size_t xy = d(x, y);
  c.check((xy == 0) == (x == y), [&] { return call(a, x, y) + " is " + std::to_string(xy); });
  c.check(d(x, x) == 0, [&] { return call(a, x, x) + " is not 0"; });
  c.check(d(y, x) == xy, [&] { return call(a, x, y) + " is not symmetric"; });
  size_t hi = std::max(x.size(), y.size()), lo = hi - std::min(x.size(), y.size());
  c.check(xy <= hi, [&] { return call(a, x, y) + " = " + std::to_string(xy) + " exceeds the longer length"; });
  c.check(xy >= lo, [&] { return call(a, x, y) + " = " + std::to_string(xy) + " is below the difference of the lengths"; });
  triangle(c, f, a, x, y, z);
  triangle(c, f, a, x, z, y);
  triangle(c, f, a, y, x, z);
  c.check(d(p + x, p + y) == xy, [&] { return call(a, x, y) + " changes with the common prefix " + show(p); });
  c.check(d(x + s, y + s) == xy, [&] { return call(a, x, y) + " changes with the common suffix " + show(s); });
  c.check(d(p + x + s, p + y + s) == xy, [&] { return call(a, x, y) + " changes with the common affixes " + show(p) + " and " + show(s); });
}

void metric(Ctx &c) {
  std::string alpha = gen::alphabet(c), x, y;
  pair_of(c, alpha, 10, x, y);
  std::string z = c.chance(3, 4) ? gen::mutant(c, c.coin() ? x : y, alpha, 4) : gen::str(c, alpha, 10);
  std::string p = gen::str(c, alpha, 5), s = gen::str(c, alpha, 5);
  if (c.chance(1, 50)) { // long affixes (the recursion visits all of the suffix)
    p = gen::str_of_len(c, alpha, c.range(6, 300));
    if (c.chance(1, 4)) s = gen::str_of_len(c, alpha, c.range(6, 40));
    c.label("long affixes");
  }
  c.describe([&] { return show(x) + ", " + show(y) + ", " + show(z) + " affixes " + show(p) + ", " + show(s); });
  Three f;
  for (int a = 0; a < 3; ++a) axioms_for(c, f, a, x, y, z, p, s);
  for (int a = 1; a < 3; ++a)
    c.check(f.of(a)(x, y) <= f.s(x, y), [&] { return call(a, x, y) + " exceeds the standard distance"; });
  if (x != y && y != z && x != z && !x.empty() && !y.empty() && !z.empty()) c.nontrivial();
  c.mix(x);
  c.mix(y);
  c.mix(z);
}

// A long string and short ones; symmetry is that of separate objects, too.
void metric_lopsided(Ctx &c) {
  c.limits = false; // long enough as it is
  std::string alpha = gen::alphabet(c);
  std::string x = gen::str_of_len(c, alpha, c.range(20, c.chance(1, 4) ? 600 : 160)), y, z;
  if (c.coin()) x.assign(x.size(), x[0]);
  auto other = [&] {
    switch (c.below(4)) {
    case 0: return gen::str(c, alpha, 8);
    case 1: return x.substr(x.size() - 1 - c.below(8));
    case 2: return x.substr(c.below(x.size()), c.range(1, 8));
    default: { // long as well, but for the end
      std::string s = x, t = x.substr(x.size() - 8);
      s.resize(s.size() - 8);
      return s + gen::mutant(c, t, alpha, 4);
    }
    }
  };
  y = other();
  z = other();
  c.describe([&] { return show(x) + ", " + show(y) + ", " + show(z); });
  Three f, g;
  for (int a = 0; a < 3; ++a) {
    triangle(c, f, a, x, y, z);
    triangle(c, f, a, y, x, z);
    triangle(c, f, a, x, z, y);
    c.check(g.of(a)(y, x) == f.of(a)(x, y), [&] { return call(a, x, y) + " is not symmetric between separate objects"; });
    c.check((f.of(a)(x, y) == 0) == (x == y), [&] { return call(a, x, y) + " contradicts equality"; });
    size_t hi = std::max(x.size(), y.size()), lo = std::min(x.size(), y.size()), d = f.of(a)(x, y);
    c.check(d <= hi && d >= hi - lo, [&] { return call(a, x, y) + " = " + std::to_string(d) + " contradicts the lengths"; });
    if (lo > 0 && x[0] == y[0]) {
      Three h;
      c.check(h.of(a)(x.substr(1), y.substr(1)) == d, [&] { return call(a, x, y) + " changes without the common first character"; });
    }
  }
  if (y != z) c.nontrivial();
  c.mix(x);
  c.mix(y);
  c.mix(z);
}

void metric_all(Ctx &c) {
  static const Strings U = all_strings("abc", 3);
  static Three f;
  size_t idx = c.below(U.size() * U.size());
  const std::string &x = U[idx / U.size()], &y = U[idx % U.size()];
  c.describe([&] { return show(x) + ", " + show(y) + " with all third strings"; });
  for (auto &z : U)
    for (int a = 0; a < 3; ++a) triangle(c, f, a, x, y, z);
  for (int a = 0; a < 3; ++a) axioms_for(c, f, a, x, y, x, "ab", "ca");
  if (x != y) c.nontrivial();
}

void witness(Ctx &c) {
  c.below(1);
  Three f;
  c.describe([&] { return std::string("the recorded triple ca, ac, abc"); });
  for (int a = 0; a < 3; ++a) axioms_for(c, f, a, "ca", "ac", "abc", "x", "y");
  triangle(c, f, model::TRA, "ca", "ac", "abc");
}

RegEnum c13w("C13", "recorded_triple", 1, 1, witness);
Reg c13a("C13", "generated_triples", 200000, 6000000, metric);
Reg c13d("C13", "long_and_short", 6000, 150000, metric_lopsided);
RegEnum c13b("C13", "all_triples_abc3", 1600, 1600, metric_all, 4);

// ---------------------------------------------------------------- C14
void history(Ctx &c, size_t maxcalls, size_t maxlen) {
  std::string alpha = gen::alphabet(c);
  int a = (int)c.below(3);
  Three f;
  Strings pool{""};
  std::string base = gen::str(c, alpha, maxlen);
  size_t np = c.range(2, 10);
  for (size_t i = 0; i < np; ++i) {
    switch (c.below(4)) {
    case 0: pool.push_back(gen::str(c, alpha, maxlen)); break;
    case 1: pool.push_back(gen::mutant(c, base, alpha, 4)); break;
    case 2: pool.push_back(base.substr(c.below(base.size() + 1))); break;
    default: { // the same characters cut differently
      std::string t = pool[c.below(pool.size())] + pool[c.below(pool.size())];
      pool.push_back(t.substr(0, maxlen + 3));
    }
    }
  }
  size_t calls = c.range(2, maxcalls);
  c.describe([&] { return std::string(model::algo_name(a)) + " on one object, strings " + show(pool) + ":"; });
  std::vector<std::pair<std::string, std::string>> done;
  for (size_t i = 0; i < calls; ++i) {
    std::string x, y;
    switch (c.weighted({6, 2, 2, 2})) {
    case 0:
      x = pool[c.below(pool.size())];
      y = pool[c.below(pool.size())];
      break;
    case 1: // repeat, perhaps exchanged
      if (!done.empty()) {
        auto &p = done[c.below(done.size())];
        x = p.first;
        y = p.second;
        if (c.coin()) std::swap(x, y);
      }
      break;
    case 2: // move the boundary between the two strings of an earlier pair
      if (!done.empty()) {
        auto &p = done[c.below(done.size())];
        std::string t = p.first + p.second;
        size_t k = c.below(t.size() + 1);
        x = t.substr(0, k);
        y = t.substr(k);
        if (x.size() > 2 * maxlen || y.size() > 2 * maxlen) x.clear(), y.clear();
      }
      break;
    default: // a NUL or another byte at the seam
      x = pool[c.below(pool.size())] + (char)c.below(3);
      y = pool[c.below(pool.size())];
    }
    c.describe([&] { return " (" + show(x) + "," + show(y) + ")"; });
    expect(c, f, a, x, y);
    done.emplace_back(x, y);
    c.mix(x);
    c.mix(y);
  }
  // and all of it again
  for (auto &[x, y] : done) {
    expect(c, f, a, x, y);
    expect(c, f, a, y, x);
  }
  if (done.size() >= 4) c.nontrivial();
}

// Let the memory of results grow to hundreds of thousands of entries, then
// ask old questions again.
void growth(Ctx &c, size_t rounds) {
  std::string alpha = c.coin() ? "abcdefgh" : gen::alphabet(c);
  int a = (int)c.below(3);
  Three f;
  std::vector<std::pair<std::string, std::string>> early;
  for (int i = 0; i < 200; ++i) {
    std::string x, y;
    pair_of(c, alpha, 8, x, y);
    expect(c, f, a, x, y);
    early.emplace_back(x, y);
  }
  for (size_t r = 0; r < rounds; ++r) {
    uint64_t s = c.below(0);
    std::string x, y;
    size_t lx = 60 + pbt::splitmix(s) % 60, ly = 60 + pbt::splitmix(s) % 60;
    for (size_t i = 0; i < lx; ++i) x += alpha[pbt::splitmix(s) % alpha.size()];
    for (size_t i = 0; i < ly; ++i) y += alpha[pbt::splitmix(s) % alpha.size()];
    expect(c, f, a, x, y);
    auto &p = early[c.below(early.size())];
    expect(c, f, a, p.first, p.second);
  }
  for (auto &[x, y] : early) {
    expect(c, f, a, y, x);
    std::string t = x + y;
    size_t k = c.below(t.size() + 1);
    expect(c, f, a, t.substr(0, k), t.substr(k));
  }
  for (int i = 0; i < 200; ++i) {
    std::string x, y;
    pair_of(c, alpha, 12, x, y);
    expect(c, f, a, x, y);
  }
  c.describe([&] { return std::string(model::algo_name(a)) + " object after several hundred thousand memorised results or more, over " + show(alpha); });
  c.nontrivial();
}

// Very many distinct short pairs on one object.
void many_pairs(Ctx &c) {
  int a = (int)c.below(3);
  Three f;
  static const Strings U = all_strings("abc", 5);
  size_t calls = c.thorough ? 60000 : 15000;
  uint64_t s = c.below(0);
  for (size_t i = 0; i < calls; ++i) {
    const std::string &x = U[pbt::splitmix(s) % U.size()], &y = U[pbt::splitmix(s) % U.size()];
    size_t got = f.of(a)(x, y), want = model::distance(a, x, y);
    c.check(got == want, [&] { return call(a, x, y) + " is " + std::to_string(got) + " after " + std::to_string(i) + " calls, should be " + std::to_string(want); });
  }
  c.describe([&] { return std::to_string(calls) + " calls on one object"; });
  c.nontrivial();
}

// Long strings against short ones or none: large distances, asked for again.
void lopsided_history(Ctx &c) {
  c.limits = false;
  std::string alpha = gen::alphabet(c);
  int a = (int)c.below(3);
  Three f;
  Strings longs, shorts{""};
  static const size_t lens[] = {120, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1025};
  static const size_t huge[] = {32767, 32768, 65534, 65535, 65536, 65537, 65600, 70000, 131071, 131072, 131080, 200000};
  size_t nl = c.range(1, 4), ns = c.range(1, 4), calls = c.range(2, 16);
  for (size_t i = 0; i < nl; ++i) {
    size_t len = c.chance(1, 3) ? huge[c.below(sizeof huge / sizeof *huge)] : lens[c.below(sizeof lens / sizeof *lens)];
    std::string s(len, gen::letter(c, alpha));
    for (size_t k = c.below(4); k > 0; --k) s[c.below(len)] = gen::letter(c, alpha);
    longs.push_back(s);
  }
  for (size_t i = 0; i < ns; ++i) shorts.push_back(gen::str(c, alpha, 3));
  auto sizes = [&] {
    std::string o;
    for (auto &s : longs) o += " " + std::to_string(s.size());
    return o;
  };
  c.describe([&] { return std::string(model::algo_name(a)) + " on one object, strings of length" + sizes() + " against " + show(shorts); });
  std::vector<std::pair<std::string, std::string>> done;
  for (size_t i = 0; i < calls; ++i) {
    std::string x = c.pick(longs), y = c.pick(shorts);
    if (x.size() > 2000) y.clear();
    if (c.coin()) std::swap(x, y);
    expect(c, f, a, x, y);
    done.emplace_back(x, y);
    c.mix(x.size() * 8 + y.size());
    c.mix(x.size() < y.size() ? x : y);
  }
  for (auto &[x, y] : done) {
    expect(c, f, a, y, x);
    expect(c, f, a, x, y);
  }
  if (done.size() >= 4) c.nontrivial();
}
Reg c14f("C14", "lopsided_histories", 1500, 30000, lopsided_history, 16);
Reg c14a("C14", "call_histories", 40000, 1200000, [](Ctx &c) { history(c, 40, 8); });
Reg c14b("C14", "long_histories", 800, 20000, [](Ctx &c) { history(c, 600, 7); });
Reg c14c("C14", "large_memory", 48, 1000, [](Ctx &c) { growth(c, c.thorough ? 60 : 25); }, 16);
Reg c14e("C14", "over_a_million_results", 3, 30, [](Ctx &c) { growth(c, 170); }, pbt::PLAIN_ONLY);
Reg c14d("C14", "many_pairs", 400, 8000, many_pairs, 8);

} // namespace
