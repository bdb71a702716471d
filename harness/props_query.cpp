// C01-C04: exact answers of queries against the reference distances.
#include "query.h"

using namespace lib;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;

namespace {

// ---------------------------------------------------------------- C01-C04

void describe(Ctx &c, const Strings &dict) {
  c.describe([&] { return "dictionary " + show(dict); });
}
void describe(Ctx &c, int algo, const std::string &q, size_t n) {
  c.describe([&] { return std::string("; ") + model::algo_name(algo) + "(" + show(q) + ", " + bound_name(n) + ")"; });
}

int pick_algo(Ctx &c, int algo) { return algo >= 0 ? algo : (int)c.below(3); }

// Generated dictionary, several queries.
void q_random(Ctx &c, int algo, bool dist) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha);
  Strings dict = gen::to_vec(set);
  describe(c, dict);
  DawgPtr d = must_build(c, dict);
  size_t nq = c.range(1, 6);
  for (size_t i = 0; i < nq; ++i) {
    int a = pick_algo(c, algo);
    std::string q = gen::query_for(c, dict, alpha);
    size_t n = c.chance(1, 10) ? DEFAULT_BOUND : gen::bound(c);
    bool with = dist || c.coin();
    if (q.size() > 14 && n != DEFAULT_BOUND && n > 5) n = 5;
    describe(c, a, q, n);
    Results r = query(c, a, d->root(), q, n, with, dict.size());
    judge(c, a, dict, q, n, r, dist && with);
    c.mix(q);
    c.mix(n);
  }
  gen::mix(c, dict);
}

// Few, closely related terms: deep edits around one word, all small bounds.
void q_close(Ctx &c, int algo, bool dist) {
  std::string alpha = gen::alphabet(c);
  std::string w = gen::str(c, alpha, 9);
  std::set<std::string> set;
  size_t k = c.range(1, 12);
  for (size_t i = 0; i < k; ++i) set.insert(gen::mutant(c, w, alpha, 5));
  Strings dict = gen::to_vec(set);
  describe(c, dict);
  DawgPtr d = must_build(c, dict);
  std::string q = gen::mutant(c, w, alpha, 3);
  int a = pick_algo(c, algo);
  size_t top = c.range(1, 6);
  for (size_t n = 0; n <= top; ++n) {
    bool with = dist || c.coin();
    describe(c, a, q, n);
    judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
  }
  c.mix(q);
  gen::mix(c, dict);
}

// Long terms that share a long prefix or suffix or both with the query.
void q_long(Ctx &c, int algo, bool dist) {
  static const size_t lens[] = {31, 40, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 400, 513};
  std::string alpha = gen::alphabet(c);
  if (alpha.size() < 3) alpha = "abcde";
  size_t len = lens[c.below(sizeof lens / sizeof *lens)];
  std::string w = gen::str_of_len(c, alpha, len);
  std::set<std::string> set;
  set.insert(w);
  size_t k = c.range(1, 4);
  auto nearend = [&](std::string s) {
    // edits near either end keep the automaton's states small
    size_t e = c.below(4);
    for (size_t i = 0; i < e; ++i) {
      size_t cut = c.below(std::min<size_t>(s.size(), 6) + 1);
      if (c.coin()) {
        std::string t = s.substr(s.size() - cut);
        gen::edit(c, t, alpha);
        s = s.substr(0, s.size() - cut) + t;
      } else {
        std::string t = s.substr(0, cut);
        gen::edit(c, t, alpha);
        s = t + s.substr(cut);
      }
    }
    return s;
  };
  for (size_t i = 0; i < k; ++i) set.insert(c.coin() ? nearend(w) : gen::mutant(c, w, alpha, 3));
  if (c.coin()) set.insert(w.substr(0, c.below(w.size())));
  Strings dict = gen::to_vec(set);
  describe(c, dict);
  DawgPtr d = must_build(c, dict);
  int a = pick_algo(c, algo);
  std::string q = nearend(c.coin() ? w : gen::mutant(c, w, alpha, 2));
  size_t n = c.below(4);
  bool with = dist || c.coin();
  describe(c, a, q, n);
  judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
  c.mix(q);
  c.mix(n);
  gen::mix(c, dict);
}

// A long common prefix (cheap while the terms agree), then a short divergent
// tail with a large bound.
void q_tail(Ctx &c, int algo, bool dist) {
  c.limits = false; // its own numbers are large enough
  std::string alpha = gen::alphabet(c);
  size_t len = c.chance(5, 6) ? c.range(20, 80) : c.range(120, 600);
  std::string w = gen::str_of_len(c, alpha, len);
  std::set<std::string> set;
  size_t k = c.range(1, 8);
  for (size_t i = 0; i < k; ++i) set.insert(w + gen::str(c, alpha, 6));
  Strings dict = gen::to_vec(set);
  describe(c, dict);
  DawgPtr d = must_build(c, dict);
  int a = pick_algo(c, algo);
  std::string q = w + gen::str(c, alpha, 6);
  size_t n = c.coin() ? gen::bound(c) : gen::extreme(c);
  bool with = dist || c.coin();
  describe(c, a, q, n);
  judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
  c.mix(q);
  c.mix(n);
  gen::mix(c, dict);
}

// A long query against short terms, or the other way round, with bounds about
// the distance: windows far wider than usual, matches at their far end.
void q_lopsided(Ctx &c, int algo, bool dist) {
  std::string alpha = gen::alphabet(c);
  bool long_query = c.chance(2, 3);
  static const size_t lens[] = {12, 20, 31, 32, 33, 40, 63, 64, 65, 70, 90, 127, 128, 129, 140, 255, 256, 257, 300};
  size_t len = lens[c.below(c.chance(3, 4) ? 11 : sizeof lens / sizeof *lens)];
  // mostly one byte, so that a match at a given place matters
  char fill = gen::letter(c, alpha);
  std::string w(len, fill);
  size_t marks = c.below(12);
  for (size_t i = 0; i < marks; ++i) {
    size_t at = c.coin() ? c.below(len) : len - 1 - c.below(std::min<size_t>(len, 8));
    w[at] = gen::letter(c, alpha);
  }
  std::set<std::string> rest;
  size_t k = c.range(1, 4);
  for (size_t i = 0; i < k; ++i) {
    std::string t;
    size_t m = c.range(1, long_query ? 8 : 6);
    switch (c.below(3)) {
    case 0: // a subsequence, mostly of the end
      for (size_t at = c.coin() ? 0 : len - std::min<size_t>(len, 12); at < len && t.size() < m; ++at)
        if (w[at] != fill || c.chance(1, 8)) t += w[at];
      break;
    case 1: { // a factor
      size_t at = c.below(len);
      t = w.substr(at, m);
      break;
    }
    default: t = w.substr(len - std::min(m, len));
    }
    if (c.chance(1, 3)) gen::edit(c, t, alpha);
    rest.insert(t);
  }
  Strings dict = long_query ? gen::to_vec(rest) : Strings{w};
  std::string q = long_query ? w : *rest.begin();
  describe(c, dict);
  DawgPtr d = must_build(c, dict);
  int a = pick_algo(c, algo);
  size_t near = model::distance(a, q, dict[c.below(dict.size())]);
  size_t n;
  switch (c.weighted({4, 3, 2, 1})) {
  case 0: n = near; break;
  case 1: n = near ? near - 1 : 0; break;
  case 2: n = near + c.below(3); break;
  default: n = gen::extreme(c);
  }
  bool with = dist || c.coin();
  describe(c, a, q, n);
  judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
  if (n > 16 && n <= len) c.label("bound over 16 within the length");
  c.mix(q);
  c.mix(n);
  gen::mix(c, dict);
}

// Bounds up to the largest representable value.
void q_extreme(Ctx &c, int algo, bool dist) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {12, 8});
  Strings dict = gen::to_vec(set);
  describe(c, dict);
  DawgPtr d = must_build(c, dict);
  int a = pick_algo(c, algo);
  std::string q = gen::query_for(c, dict, alpha, 7);
  if (q.size() > 10) q.resize(10);
  size_t n = gen::extreme(c);
  bool with = dist || c.coin();
  describe(c, a, q, n);
  judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
  if (!dict.empty() && !q.empty()) c.nontrivial();
  c.mix(q);
  c.mix(n);
  gen::mix(c, dict);
}

// More terms than 16 bits can count; the dictionary is kept between the cases
// of a worker, each of which runs a few queries.
void q_huge(Ctx &c, int algo, bool dist) {
  c.limits = false; // its own numbers are large enough
  static Strings dict;
  static std::shared_ptr<ll::Dawg> d;
  const std::string alpha = "abcdefghijkl";
  if (!d) {
    std::set<std::string> set;
    uint64_t s = 20240223;
    while (set.size() < 70000) {
      std::string t;
      size_t len = 3 + pbt::splitmix(s) % 8;
      for (size_t j = 0; j < len; ++j) t += alpha[pbt::splitmix(s) % alpha.size()];
      set.insert(t);
    }
    dict = gen::to_vec(set);
    d = std::shared_ptr<ll::Dawg>(must_build(c, dict).release());
  }
  for (int i = 0; i < 2; ++i) {
    int a = pick_algo(c, algo);
    std::string q = gen::query_for(c, dict, alpha);
    size_t n = c.below(3);
    bool with = dist || c.coin();
    describe(c, a, q, n);
    judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
    c.mix(q);
  }
}

// Two strings of middling length that differ in many places, bounds about the
// distance.
void q_distant(Ctx &c, int algo, bool dist) {
  std::string alpha = gen::alphabet(c);
  std::string w = gen::str_of_len(c, alpha, c.range(10, 30));
  std::set<std::string> set;
  size_t k = c.range(1, 3);
  for (size_t i = 0; i < k; ++i) set.insert(gen::mutant(c, w, alpha, 14));
  Strings dict = gen::to_vec(set);
  describe(c, dict);
  DawgPtr d = must_build(c, dict);
  int a = pick_algo(c, algo);
  size_t near = model::distance(a, w, dict[c.below(dict.size())]);
  for (size_t n : {near, near ? near - 1 : near + 1}) {
    bool with = dist || c.coin();
    describe(c, a, w, n);
    judge(c, a, dict, w, n, query(c, a, d->root(), w, n, with, dict.size()), dist && with);
    if (n > 5) c.label("bound over 5");
    c.mix(n);
  }
  c.mix(w);
  gen::mix(c, dict);
}

// A query of more than 65536 characters against a few short terms.
void q_huge_query(Ctx &c, int algo, bool dist) {
  c.limits = false; // its own numbers are large enough
  std::string alpha = c.coin() ? "ab" : gen::alphabet(c);
  char fill = alpha[0];
  size_t len = c.coin() ? 65530 + c.below(20) : c.range(33000, 140000);
  std::string q(len, fill);
  for (size_t i = c.below(4); i > 0; --i) q[c.coin() ? len - 1 - c.below(8) : c.below(len)] = gen::letter(c, alpha);
  std::set<std::string> set;
  for (size_t i = c.range(1, 4); i > 0; --i) {
    std::string t = c.coin() ? q.substr(len - c.below(6)) : gen::str(c, alpha, 5);
    if (c.chance(1, 3)) gen::edit(c, t, alpha);
    set.insert(t);
  }
  Strings dict = gen::to_vec(set);
  describe(c, dict);
  c.describe([&] { return "; query of " + std::to_string(len) + " characters, mostly " + show(std::string(1, fill)) + ", ending in " + show(q.substr(len - 8)); });
  DawgPtr d = must_build(c, dict);
  int a = pick_algo(c, algo);
  size_t near = model::distance(a, q, dict[c.below(dict.size())]);
  size_t n = c.chance(1, 3) ? near + c.below(3) - 1 : c.coin() ? near : c.coin() ? near + 65536 : gen::extreme(c);
  c.describe([&] { return ", " + std::string(model::algo_name(a)) + ", bound " + std::to_string(n); });
  bool with = dist || c.coin();
  judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
  c.mix(q);
  c.mix(n);
}

// Candidates of more than 65536 characters: a chain of nodes assembled by
// hand (the construction takes time quadratic in a term's length) that ends in
// a small dictionary.  A common prefix does not change any of the distances.
void q_huge_term(Ctx &c, int algo, bool dist) {
  c.limits = false; // its own numbers are large enough
  size_t len = c.coin() ? 65530 + c.below(20) : c.range(33000, 90000);
  std::string w;
  uint64_t s = c.below(0);
  for (size_t i = 0; i < len; ++i) w += "abc"[pbt::splitmix(s) % 3];
  std::string alpha = c.coin() ? "ab" : "abcd";
  auto set = gen::term_set(c, alpha, {8, 6});
  if (set.empty()) set.insert("");
  Strings tails = gen::to_vec(set);
  DawgPtr d = must_build(c, tails);
  std::vector<std::unique_ptr<ll::DawgNode>> chain;
  ll::DawgNode *node = d->root();
  for (size_t i = len; i-- > 0;) {
    chain.emplace_back(new ll::DawgNode());
    chain.back()->add_edge(w[i], node);
    node = chain.back().get();
  }
  std::string qt = gen::query_for(c, tails, alpha, 6);
  int a = pick_algo(c, algo);
  size_t n = c.chance(4, 5) ? c.below(4) : c.below(60); // the window has 2n+1 characters
  bool with = dist || c.coin();
  c.describe([&] {
    return "a common prefix of " + std::to_string(len) + " characters, then " + show(tails) + "; query with " + show(qt) + ", " +
           model::algo_name(a) + ", bound " + std::to_string(n);
  });
  Results r = query(c, a, node, w + qt, n, with, tails.size());
  Results cut;
  for (auto &[t, k] : r) {
    if (t.compare(0, w.size(), w) != 0) c.fail("a candidate does not start with the common prefix");
    cut.emplace_back(t.substr(w.size()), k);
  }
  judge(c, a, tails, qt, n, cut, dist && with, "behind the common prefix, query");
  c.mix(qt);
  c.mix(s);
  gen::mix(c, tails);
}

// Many terms.
void q_big(Ctx &c, int algo, bool dist) {
  std::string alpha = c.coin() ? "abcd" : "abcdefghijklmnopqrstuvwxyz";
  std::set<std::string> set;
  size_t k = c.range(200, 3000);
  uint64_t s = c.below(0);
  for (size_t i = 0; i < k; ++i) {
    std::string t;
    size_t len = pbt::splitmix(s) % 12;
    for (size_t j = 0; j < len; ++j) t += alpha[pbt::splitmix(s) % alpha.size()];
    set.insert(t);
  }
  Strings dict = gen::to_vec(set);
  c.describe([&] { return "dictionary of " + std::to_string(dict.size()) + " terms"; });
  DawgPtr d = must_build(c, dict);
  for (int i = 0; i < 3; ++i) {
    int a = pick_algo(c, algo);
    std::string q = gen::query_for(c, dict, alpha);
    size_t n = c.below(4);
    bool with = dist || c.coin();
    describe(c, a, q, n);
    judge(c, a, dict, q, n, query(c, a, d->root(), q, n, with, dict.size()), dist && with);
    c.mix(q);
  }
}

Strings all_strings(const std::string &alpha, size_t maxlen) {
  Strings out, level{""};
  for (size_t l = 0; l <= maxlen; ++l) {
    Strings next;
    for (auto &s : level) {
      out.push_back(s);
      if (l < maxlen)
        for (char ch : alpha) next.push_back(s + ch);
    }
    level = next;
  }
  std::sort(out.begin(), out.end());
  return out;
}

// Every pair of strings over {a,b} up to length 7 (and {a,b,c} up to 5, and
// {a,b,c,d} up to 4) for every small bound.
void q_all_pairs(Ctx &c, int algo, bool dist, const std::string &alpha, size_t maxlen, size_t maxn) {
  static std::map<std::pair<std::string, size_t>, std::pair<Strings, std::shared_ptr<ll::Dawg>>> cache;
  auto &e = cache[{alpha, maxlen}];
  if (!e.second) {
    e.first = all_strings(alpha, maxlen);
    e.second = std::shared_ptr<ll::Dawg>(build(e.first).release());
    if (!e.second) c.fail("construction failed");
  }
  size_t per = algo >= 0 ? 1 : 3;
  size_t idx = c.below(e.first.size() * per);
  int a = algo >= 0 ? algo : (int)(idx % 3);
  const std::string &q = e.first[idx / per];
  for (size_t n = 0; n <= maxn; ++n) {
    bool with = dist || ((idx + n) & 1);
    Results r = query(c, a, e.second->root(), q, n, with, e.first.size());
    if (n == 2) describe(c, a, q, n);
    judge(c, a, e.first, q, n, r, dist && with);
  }
  c.mix(q);
}

struct RegQuery {
  RegQuery(const char *prop, int algo, bool dist) {
    auto bind = [=](void (*f)(Ctx &, int, bool)) { return [=](Ctx &c) { f(c, algo, dist); }; };
    size_t k = algo >= 0 ? 1 : 2, per = algo >= 0 ? 1 : 3;
    RegEnum(prop, "all_pairs_ab7", 255 * per, 255 * per, [=](Ctx &c) { q_all_pairs(c, algo, dist, "ab", 7, c.thorough ? 8 : 5); }, 8);
    RegEnum(prop, "all_pairs_abc5", 364 * per, 364 * per, [=](Ctx &c) { q_all_pairs(c, algo, dist, "abc", 5, 5); }, 8);
    RegEnum(prop, "all_pairs_abcd4", 341 * per, 341 * per, [=](Ctx &c) { q_all_pairs(c, algo, dist, "abcd", 4, 4); }, 8);
    Reg(prop, "related_terms", 250000 * k, 6000000 * k, bind(q_random));
    Reg(prop, "one_word_all_bounds", 150000 * k, 4000000 * k, bind(q_close));
    Reg(prop, "long_terms", 4000 * k, 30000 * k, bind(q_long));
    Reg(prop, "long_prefix_large_bound", 6000 * k, 60000 * k, bind(q_tail));
    Reg(prop, "lopsided_lengths", 12000 * k, 100000 * k, bind(q_lopsided));
    Reg(prop, "distant_pairs", 10000 * k, 400000 * k, bind(q_distant));
    Reg(prop, "over_65536_terms", 80 * k, 2000 * k, bind(q_huge), pbt::PLAIN_ONLY);
    Reg(prop, "huge_queries", 160 * k, 4000 * k, bind(q_huge_query), pbt::PLAIN_ONLY);
    Reg(prop, "huge_terms", 120 * k, 3000 * k, bind(q_huge_term), pbt::PLAIN_ONLY);
    Reg(prop, "extreme_bounds", 40000 * k, 1000000 * k, bind(q_extreme));
    Reg(prop, "many_terms", 400 * k, 5000 * k, bind(q_big));
  }
};
RegQuery c01("C01", model::STD, false), c02("C02", model::TRA, false), c03("C03", model::MAS, false), c04("C04", -1, true);
} // namespace
