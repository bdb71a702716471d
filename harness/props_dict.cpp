// C05 (contents), C06 (construction iff ascending), C07 (acyclic, minimal),
// C08 (equality, hashing), C20 (frozen once finished).
#include "graphs.h"
#include "liblevenshtein/serialization/serializer.h"
#include "query.h"
#include <list>
#include <sstream>

using namespace lib;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;

namespace {

template <class C> DawgPtr build_from(const Strings &v) {
  C x(v.begin(), v.end());
  return DawgPtr(ll::sorted_dawg(x.begin(), x.end()));
}
// kind 0 vector, 1 list, 2 set, 3 one term at a time, 4 through storage
const char *kind_name[] = {"vector", "list", "set", "incremental", "stored"};
DawgPtr build_kind(Ctx &c, const Strings &v, size_t kind) {
  switch (kind) {
  case 0: return build_from<Strings>(v);
  case 1: return build_from<std::list<std::string>>(v);
  case 2: return build_from<std::set<std::string>>(v);
  case 3: {
    std::unique_ptr<ll::SortedDawg> d(new ll::SortedDawg());
    d->init();
    for (auto &t : v)
      if (!d->add(t)) return nullptr;
    d->finish();
    d->clean_up();
    return d;
  }
  default: {
    DawgPtr d = build_from<Strings>(v);
    if (!d) return nullptr;
    std::stringstream s;
    c.check(ll::serialize_protobuf(d.get(), s), "saving failed");
    DawgPtr e(ll::deserialize_protobuf(s));
    c.check((bool)e, "loading what was saved failed");
    return e;
  }
  }
}

Strings with_repeats(Ctx &c, const Strings &dict, unsigned num, unsigned den) {
  Strings out;
  for (auto &t : dict) {
    out.push_back(t);
    while (c.chance(num, den) && out.size() < 400) out.push_back(t);
  }
  return out;
}

Strings probes_for(Ctx &c, const Strings &dict, const std::string &alpha) {
  Strings p{""};
  size_t k = dict.size() > 12 ? 12 : dict.size();
  for (size_t i = 0; i < k; ++i) {
    const std::string &t = dict[dict.size() > 12 ? c.below(dict.size()) : i];
    for (size_t l = 0; l <= std::min<size_t>(t.size(), 12); ++l) p.push_back(t.substr(0, l));
    p.push_back(t + gen::letter(c, alpha));
    p.push_back(t + (char)c.below(256));
    p.push_back(t + t);
    if (!t.empty()) {
      p.push_back(t.substr(1));
      std::string u = t;
      u.back() = (char)(u.back() ^ (1 << c.below(8)));
      p.push_back(u);
      u = t;
      u[c.below(u.size())] = (char)c.below(256);
      p.push_back(u);
    }
    p.push_back(gen::mutant(c, t, alpha, 2));
  }
  for (int i = 0; i < 3; ++i) p.push_back(gen::str(c, alpha, 8));
  return p;
}

void note_dict(Ctx &c, const Strings &dict) {
  gen::mix(c, dict);
  if (dict.size() >= 2) c.nontrivial();
}

// ---------------------------------------------------------------- C05
void contents(Ctx &c, gen::DictOpt o) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, o);
  Strings dict = gen::to_vec(set);
  size_t kind = c.below(5);
  bool rep = kind != 2 && c.chance(1, 3);
  Strings input = rep ? with_repeats(c, dict, 1, 3) : dict;
  c.describe([&] { return std::string(kind_name[kind]) + " of " + show(input); });
  if (rep) c.label("with repeated terms");
  c.label(std::string("from ") + kind_name[kind]);
  DawgPtr d = build_kind(c, input, kind);
  c.check((bool)d, [&] { return "construction from sorted terms failed: " + show(input); });
  check_contents(c, *d, set, "dictionary", probes_for(c, dict, alpha));
  if (c.chance(1, 4)) { // two iterations at once
    std::multiset<std::string> g1, g2;
    auto end = d->end();
    auto i1 = d->begin();
    auto i2 = d->begin();
    while (i1 != end || i2 != end) {
      if (g1.size() + g2.size() > 2 * set.size() + 2) c.fail("interleaved iterations do not end");
      if (i1 != end && (c.coin() || !(i2 != end))) {
        g1.insert(*i1);
        ++i1;
      } else if (i2 != end) {
        g2.insert(*i2);
        ++i2;
      }
    }
    std::multiset<std::string> want(set.begin(), set.end());
    c.check(g1 == want && g2 == want, "interleaved iterations over one dictionary disturb each other");
  }
  note_dict(c, dict);
}

Strings universe(const std::string &alpha, size_t maxlen) {
  Strings out, level{""};
  for (size_t l = 0; l <= maxlen; ++l) {
    Strings next;
    for (auto &s : level) {
      out.push_back(s);
      for (char ch : alpha) next.push_back(s + ch);
    }
    level = next;
  }
  std::sort(out.begin(), out.end());
  return out;
}

// every subset of the 15 strings over {a,b} up to length 3
void contents_all(Ctx &c) {
  static const Strings U = universe("ab", 3), P = universe("ab", 4);
  size_t mask = c.below(1 << U.size());
  std::set<std::string> set;
  for (size_t i = 0; i < U.size(); ++i)
    if (mask >> i & 1) set.insert(U[i]);
  Strings dict = gen::to_vec(set);
  c.describe([&] { return show(dict); });
  DawgPtr d = must_build(c, dict);
  check_contents(c, *d, set, "dictionary", P);
  if (dict.size() >= 2) c.nontrivial();
}

void big_dict(Ctx &c, std::set<std::string> &set) {
  std::string alpha = c.coin() ? "abc" : gen::alphabet(c);
  size_t k = c.range(300, c.thorough ? 20000 : 5000);
  uint64_t s = c.below(0);
  size_t maxlen = c.range(3, 14);
  for (size_t i = 0; i < k; ++i) {
    std::string t;
    size_t len = pbt::splitmix(s) % (maxlen + 1);
    for (size_t j = 0; j < len; ++j) t += alpha[pbt::splitmix(s) % alpha.size()];
    set.insert(t);
  }
}

// more terms, and more nodes, than 16 bits can count
void huge_dict(Ctx &c, std::set<std::string> &set) {
  std::string alpha = c.coin() ? "abcdefgh" : "abcdefghijklmnopqrstuvwxyz";
  uint64_t s = c.below(0);
  size_t k = c.range(66000, 90000);
  while (set.size() < k) {
    std::string t;
    size_t len = 4 + pbt::splitmix(s) % 9;
    for (size_t j = 0; j < len; ++j) t += alpha[pbt::splitmix(s) % alpha.size()];
    set.insert(t);
  }
}

void contents_big(Ctx &c, bool huge) {
  std::set<std::string> set;
  if (huge) huge_dict(c, set);
  else big_dict(c, set);
  Strings dict = gen::to_vec(set);
  c.describe([&] { return "dictionary of " + std::to_string(dict.size()) + " terms"; });
  size_t kind = c.below(5);
  DawgPtr d = build_kind(c, dict, kind);
  c.check((bool)d, "construction from many sorted terms failed");
  Strings probes;
  for (int i = 0; i < 200; ++i) {
    const std::string &t = dict[c.below(dict.size())];
    probes.push_back(t.substr(0, c.below(t.size() + 1)));
    probes.push_back(gen::mutant(c, t, "abc", 2));
  }
  check_contents(c, *d, set, "large dictionary", probes);
  note_dict(c, dict);
}

// long terms (the library's recursion and hashing limit how long)
void contents_long(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  std::set<std::string> set;
  size_t k = c.range(1, 5);
  std::string w = gen::str_of_len(c, alpha, c.range(100, 300));
  for (size_t i = 0; i < k; ++i)
    set.insert(c.coin() ? gen::mutant(c, w, alpha, 3) : w.substr(0, c.below(w.size() + 1)));
  if (c.chance(1, 8)) set.insert(std::string(c.range(200, 400), alpha[0]));
  Strings dict = gen::to_vec(set);
  c.describe([&] { return show(dict); });
  size_t kind = c.below(5);
  DawgPtr d = build_kind(c, dict, kind);
  c.check((bool)d, "construction from long sorted terms failed");
  check_contents(c, *d, set, "long terms", probes_for(c, dict, alpha));
  note_dict(c, dict);
}

// terms of more than 65536 characters (in a graph assembled by hand), and
// terms as long as construction allows in reasonable time
void contents_very_long(Ctx &c) {
  bool hand = c.below(3) != 0;
  auto set = hand ? long_terms(c, 60000, 140000) : long_terms(c, 800, 2600, false);
  c.describe([&] { return lengths(set) + (hand ? ", assembled by hand" : ""); });
  DawgPtr d;
  if (hand)
    d.reset(new ll::SortedDawg(plain_trie(set), set.size()));
  else
    d = must_build(c, set);
  Strings probes;
  for (auto &t : set) {
    probes.push_back(t + 'a');
    probes.push_back(t.substr(0, t.size() - 1));
    probes.push_back(t.substr(0, t.size() & 0xffff));
    probes.push_back(t.substr(0, t.size() & 0xff));
    probes.push_back(t.substr(1));
    for (int i = 0; i < 3; ++i) {
      std::string p = t;
      p[c.below(p.size())] ^= 1;
      probes.push_back(p);
      probes.push_back(t.substr(0, c.below(t.size())));
    }
  }
  check_contents(c, *d, set, "very long terms", probes);
  c.nontrivial();
  for (auto &t : set) c.mix(t);
}

Reg c05f("C05", "very_long_terms", 40, 800, contents_very_long, pbt::PLAIN_ONLY);
Reg c05a("C05", "generated_dictionaries", 80000, 2500000, [](Ctx &c) { contents(c, {60, 10}); });
RegEnum c05b("C05", "all_subsets_ab3", 1 << 15, 1 << 15, contents_all, 16);
Reg c05c("C05", "many_terms", 60, 1500, [](Ctx &c) { contents_big(c, false); });
Reg c05e("C05", "over_65536_terms", 8, 150, [](Ctx &c) { contents_big(c, true); }, pbt::PLAIN_ONLY);
Reg c05d("C05", "long_terms", 300, 8000, contents_long);

// ---------------------------------------------------------------- C06
Strings almost_sorted(Ctx &c, const std::string &alpha) {
  Strings v;
  switch (c.below(4)) {
  case 0: { // arbitrary order
    size_t n = c.below(8);
    for (size_t i = 0; i < n; ++i) v.push_back(gen::str(c, alpha, 5));
    break;
  }
  case 1: { // sorted, one pair exchanged
    v = gen::to_vec(gen::term_set(c, alpha, {25, 6}));
    if (v.size() > 1) {
      size_t i = c.below(v.size()), j = c.coin() ? c.below(v.size()) : (i + 1) % v.size();
      std::swap(v[i], v[j]);
    }
    break;
  }
  case 2: { // sorted with repeats, one term replaced
    v = with_repeats(c, gen::to_vec(gen::term_set(c, alpha, {15, 6})), 1, 3);
    if (!v.empty() && c.coin()) v[c.below(v.size())] = gen::str(c, alpha, 5);
    break;
  }
  default: { // sorted, a smaller term slipped in (often a prefix of its predecessor)
    v = gen::to_vec(gen::term_set(c, alpha, {15, 6}));
    if (!v.empty()) {
      size_t i = c.below(v.size());
      std::string p = v[i].substr(0, c.below(v[i].size() + 1));
      v.insert(v.begin() + c.range(i, v.size()), p);
    }
  }
  }
  return v;
}

bool ascending(const Strings &v) {
  for (size_t i = 1; i < v.size(); ++i) {
    // byte-wise, unsigned
    const std::string &a = v[i - 1], &b = v[i];
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    bool less = k == b.size() ? k < a.size() : k < a.size() && (unsigned char)b[k] < (unsigned char)a[k];
    if (less) return false;
  }
  return true;
}
bool smaller(const std::string &a, const std::string &b) { return !ascending({b, a}); }

void construct(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  Strings v = almost_sorted(c, alpha);
  size_t kind = c.below(2);
  c.describe([&] { return std::string(kind_name[kind]) + " of " + show(v); });
  bool up = ascending(v);
  DawgPtr d = build_kind(c, v, kind);
  c.check((bool)d == up, [&] { return std::string(up ? "sorted input rejected: " : "unsorted input accepted: ") + show(v); });
  c.label(up ? "ascending" : "descending somewhere");
  if (d) check_contents(c, *d, std::set<std::string>(v.begin(), v.end()), "accepted input");
  if (v.size() >= 2) c.nontrivial();
  gen::mix(c, v);
}

void increments(Ctx &c, size_t maxops) {
  std::string alpha = gen::alphabet(c);
  Strings v;
  size_t rounds = c.range(1, 3);
  for (size_t i = 0; i < rounds; ++i)
    for (auto &t : almost_sorted(c, alpha))
      if (v.size() < maxops) v.push_back(t);
  std::unique_ptr<ll::SortedDawg> d(new ll::SortedDawg());
  d->init();
  std::set<std::string> want;
  std::string last;
  size_t rejected = 0;
  for (auto &t : v) {
    bool ok = !smaller(t, last);
    c.describe([&] { return (ok ? " +" : " -") + show(t); });
    bool got = d->add(t);
    c.check(got == ok, [&] {
      return "add(" + show(t) + ") after " + show(last) + (got ? " accepted" : " rejected");
    });
    if (ok) {
      want.insert(t);
      last = t;
    } else
      ++rejected;
    c.check(!d->remove(t), "remove() reports success");
    c.check(d->size() == want.size(), [&] { return "size() is " + std::to_string(d->size()) + " after accepting " + std::to_string(want.size()) + " distinct terms"; });
  }
  d->finish();
  if (c.coin()) d->clean_up();
  Strings probes = v;
  for (auto &t : v) probes.push_back(t.substr(0, t.size() / 2));
  check_contents(c, *d, want, "after incremental construction", probes);
  Graph g = inspect(d->root());
  c.check(g.acyclic && !g.dead, "incremental construction left a cyclic graph or dead nodes");
  if (rejected && !want.empty()) c.nontrivial(), c.label("with rejected terms in between");
  gen::mix(c, v);
}

// every sequence of length up to 4 over the 7 strings of length <= 2
void construct_all(Ctx &c) {
  static const Strings U = universe("ab", 2);
  size_t idx = c.below(7 + 49 + 343 + 2401);
  size_t len = 1, count = 7;
  while (idx >= count) {
    idx -= count;
    count *= 7;
    ++len;
  }
  Strings v;
  for (size_t i = 0; i < len; ++i) {
    v.push_back(U[idx % 7]);
    idx /= 7;
  }
  c.describe([&] { return show(v); });
  bool up = ascending(v);
  for (size_t kind = 0; kind < 2; ++kind) {
    DawgPtr d = build_kind(c, v, kind);
    c.check((bool)d == up, [&] { return std::string(up ? "sorted input rejected: " : "unsorted input accepted: ") + show(v); });
    if (d) check_contents(c, *d, std::set<std::string>(v.begin(), v.end()), "accepted input", U);
  }
  if (v.size() >= 2) c.nontrivial();
}

// a descent at every position of one long sequence
void construct_far(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  std::set<std::string> set;
  size_t n = c.range(50, 400);
  for (size_t i = 0; i < n; ++i) set.insert(gen::str(c, alpha, 8));
  Strings v = gen::to_vec(set);
  if (v.size() < 3) return;
  size_t i = c.range(1, v.size() - 1);
  c.describe([&] { return std::to_string(v.size()) + " terms, descent at " + std::to_string(i); });
  std::string saved = v[i];
  v[i] = v[c.below(i)];
  bool up = ascending(v);
  DawgPtr d = build_kind(c, v, c.below(2));
  c.check((bool)d == up, [&] { return "descent at position " + std::to_string(i) + " of " + std::to_string(v.size()) + " not noticed"; });
  v[i] = saved;
  c.check((bool)build_kind(c, v, c.below(2)), "sorted input rejected");
  c.nontrivial();
  gen::mix(c, v);
  c.mix(i);
}

// terms that agree for a very long way; construction is not completed, which
// would take too long
void increments_long(Ctx &c) {
  bool uniform = c.chance(1, 4);
  auto set = long_terms(c, c.coin() ? 300 : 60000, 140000, uniform);
  Strings v(set.begin(), set.end());
  size_t n = c.range(2, 6);
  c.describe([&] { return lengths(set) + ", added as"; });
  // later terms differ near the end of the first, so that little is minimised
  std::unique_ptr<ll::SortedDawg> d(new ll::SortedDawg());
  d->init();
  std::string last;
  std::set<std::string> want;
  for (size_t i = 0; i < n; ++i) {
    const std::string *t = &v[c.below(v.size())];
    if (want.size() > 0) { // avoid completing long tails
      size_t k = 0;
      while (k < t->size() && k < last.size() && (*t)[k] == last[k]) ++k;
      if (last.size() - k > (uniform ? 150u : 1500u) && !smaller(*t, last)) continue;
    }
    bool ok = !smaller(*t, last);
    c.describe([&] { return std::string(ok ? " +" : " -") + std::to_string(t->size()); });
    c.check(d->add(*t) == ok, [&] { return std::string("a term of ") + std::to_string(t->size()) + " characters is " + (ok ? "rejected" : "accepted"); });
    if (ok) want.insert(last = *t);
    c.check(d->size() == want.size(), "size() differs from the number of accepted terms");
  }
  if (want.size() > 1) c.nontrivial();
  for (auto &t : v) c.mix(t);
}

Reg c06e("C06", "very_long_terms", 200, 4000, increments_long, pbt::PLAIN_ONLY);
Reg c06a("C06", "nearly_sorted_input", 150000, 4000000, construct);
Reg c06b("C06", "incremental_additions", 80000, 2000000, [](Ctx &c) { increments(c, 40); });
RegEnum c06c("C06", "all_short_sequences", 2800, 2800, construct_all, 8);
Reg c06d("C06", "descent_anywhere", 3000, 100000, construct_far);

// ---------------------------------------------------------------- C07
void check_minimal(Ctx &c, const ll::Dawg &d, const std::set<std::string> &set, const char *what) {
  Graph g = inspect(d.root());
  c.check(g.acyclic, [&] { return std::string(what) + ": the graph has a cycle"; });
  c.check(!g.dead, [&] { return std::string(what) + ": the graph has a node on no term's path"; });
  size_t want = model::minimal_nodes(set);
  c.check(g.nodes == want, [&] {
    return std::string(what) + ": " + std::to_string(g.nodes) + " nodes, the minimal automaton has " + std::to_string(want);
  });
}

void minimal(Ctx &c, bool big) {
  std::set<std::string> set;
  std::string alpha;
  if (big)
    big_dict(c, set);
  else {
    alpha = gen::alphabet(c);
    set = gen::term_set(c, alpha);
  }
  Strings dict = gen::to_vec(set);
  if (big)
    c.describe([&] { return "dictionary of " + std::to_string(dict.size()) + " terms"; });
  size_t kind = c.below(4);
  Strings input = kind != 2 && !big && c.chance(1, 4) ? with_repeats(c, dict, 1, 3) : dict;
  if (!big) c.describe([&] { return std::string(kind_name[kind]) + " of " + show(input); });
  DawgPtr d = build_kind(c, input, kind);
  c.check((bool)d, "construction failed");
  check_minimal(c, *d, set, "built");
  std::stringstream s;
  c.check(ll::serialize_protobuf(d.get(), s), "saving failed");
  DawgPtr e(ll::deserialize_protobuf(s));
  c.check((bool)e, "loading failed");
  check_minimal(c, *e, set, "loaded");
  check_minimal(c, *d, set, "built, after saving");
  size_t chars = 1;
  for (auto &t : dict) chars += t.size();
  if (inspect(d->root()).nodes < chars && dict.size() > 2) c.nontrivial();
  gen::mix(c, dict);
}

void minimal_all(Ctx &c) {
  static const Strings U = universe("ab", 3);
  size_t mask = c.below(1 << U.size());
  std::set<std::string> set;
  for (size_t i = 0; i < U.size(); ++i)
    if (mask >> i & 1) set.insert(U[i]);
  c.describe([&] { return show(gen::to_vec(set)); });
  DawgPtr d = must_build(c, set);
  check_minimal(c, *d, set, "built");
  if (set.size() >= 2) c.nontrivial();
}

// prefixes x suffixes, the suffixes beginning with many different letters and
// some of the prefixes lacking a few: nodes with up to 256 edges that are to
// be shared, and others that only nearly are the same
void minimal_wide(Ctx &c) {
  size_t fan = c.coin() ? c.range(2, 40) : c.range(40, 256), np = c.range(2, 6), depth = c.below(4);
  size_t first = c.below(256);
  uint64_t s = c.below(0);
  Strings suffix;
  for (size_t i = 0; i < fan; ++i) {
    std::string t(1, (char)(first + i));
    size_t len = depth ? pbt::splitmix(s) % (depth + 1) : 0;
    for (size_t j = 0; j < len; ++j) t += (char)("ab"[pbt::splitmix(s) % 2]);
    suffix.push_back(t);
  }
  if (c.coin()) suffix.push_back("");
  std::set<std::string> set;
  c.describe([&] { return std::to_string(np) + " prefixes before " + std::to_string(suffix.size()) + " suffixes from byte " + std::to_string(first); });
  for (size_t i = 0; i < np; ++i) {
    std::string pre = gen::str(c, "abc", 4);
    size_t lacking = c.chance(1, 3) ? c.range(1, 2) : 0, at = c.below(suffix.size());
    c.describe([&] { return " " + show(pre) + (lacking ? " lacking some" : ""); });
    for (size_t j = 0; j < suffix.size(); ++j)
      if (j < at || j >= at + lacking) set.insert(pre + suffix[j]);
    c.mix(pre);
    c.mix(lacking);
  }
  DawgPtr d = must_build(c, set);
  check_minimal(c, *d, set, "built");
  c.nontrivial();
  c.mix(fan * 1000 + depth);
}

Reg c07d("C07", "wide_shared_nodes", 3000, 60000, minimal_wide);
Reg c07a("C07", "generated_dictionaries", 80000, 2500000, [](Ctx &c) { minimal(c, false); });
RegEnum c07b("C07", "all_subsets_ab3", 1 << 15, 1 << 15, minimal_all, 16);
Reg c07c("C07", "many_terms", 60, 1500, [](Ctx &c) { minimal(c, true); });

// ---------------------------------------------------------------- C08
void equal_pair(Ctx &c, const ll::Dawg &a, const ll::Dawg &b, bool same, const std::function<std::string()> &what) {
  c.check((a == b) == same, [&] { return std::string(same ? "dictionaries of the same terms compare unequal: " : "dictionaries of different terms compare equal: ") + what(); });
  c.check((b == a) == same, [&] { return "equality is not symmetric: " + what(); });
  c.check((a != b) == !same, [&] { return "!= contradicts ==: " + what(); });
  if (same)
    c.check(std::hash<ll::Dawg>()(a) == std::hash<ll::Dawg>()(b), [&] { return "equal dictionaries have different hash codes: " + what(); });
}

void equality(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto s1 = gen::term_set(c, alpha, {30, 8});
  auto s2 = s1;
  size_t edits = c.weighted({3, 4, 2, 1});
  for (size_t i = 0; i < edits; ++i) {
    Strings v = gen::to_vec(s2);
    switch (c.below(4)) {
    case 0:
      if (!v.empty()) s2.erase(v[c.below(v.size())]);
      break;
    case 1: s2.insert(gen::str(c, alpha, 8)); break;
    case 2: // exchange a term for a relative: same size
      if (!v.empty()) {
        std::string t = v[c.below(v.size())];
        std::string u = gen::mutant(c, t, alpha, 2);
        if (!s2.count(u)) {
          s2.erase(t);
          s2.insert(u);
        }
      }
      break;
    default: // exchange a term for one of its prefixes or an extension
      if (!v.empty()) {
        std::string t = v[c.below(v.size())];
        std::string u = c.coin() ? t + gen::letter(c, alpha) : t.substr(0, c.below(t.size() + 1));
        if (!s2.count(u)) {
          s2.erase(t);
          s2.insert(u);
        }
      }
    }
  }
  Strings d1 = gen::to_vec(s1), d2 = gen::to_vec(s2);
  size_t k1 = c.below(5), k2 = c.below(5);
  Strings i1 = k1 != 2 && c.chance(1, 4) ? with_repeats(c, d1, 1, 3) : d1;
  Strings i2 = k2 != 2 && c.chance(1, 4) ? with_repeats(c, d2, 1, 3) : d2;
  auto what = [&] { return std::string(kind_name[k1]) + " of " + show(i1) + " and " + kind_name[k2] + " of " + show(i2); };
  c.describe(what);
  DawgPtr a = build_kind(c, i1, k1), b = build_kind(c, i2, k2);
  c.check(a && b, "construction failed");
  bool same = s1 == s2;
  equal_pair(c, *a, *b, same, what);
  equal_pair(c, *a, *a, true, what);
  c.check((*a->root() == *b->root()) == same, "root nodes compare otherwise than their suffix sets");
  if (same) c.check(std::hash<ll::DawgNode>()(*a->root()) == std::hash<ll::DawgNode>()(*b->root()), "equal root nodes hash differently");
  c.label(same ? "same terms" : "different terms");
  if (s1.size() == s2.size() && !same) c.label("different terms, same size");
  if (d1.size() >= 2) c.nontrivial();
  gen::mix(c, d1);
  gen::mix(c, d2);
}

// one subset of the strings up to length 2 against all of them
void equality_all(Ctx &c) {
  static const Strings U = universe("ab", 2);
  static std::vector<std::shared_ptr<ll::Dawg>> all;
  auto subset = [&](size_t mask) {
    Strings v;
    for (size_t i = 0; i < U.size(); ++i)
      if (mask >> i & 1) v.push_back(U[i]);
    return v;
  };
  if (all.empty())
    for (size_t m = 0; m < 128; ++m) all.emplace_back(build(subset(m)).release());
  size_t m = c.below(128);
  c.describe([&] { return show(subset(m)) + " against all 128 subsets"; });
  for (size_t k : {0, 1, 4}) {
    DawgPtr d = build_kind(c, subset(m), k);
    c.check((bool)d, "construction failed");
    for (size_t j = 0; j < 128; ++j)
      equal_pair(c, *d, *all[j], j == m, [&] { return show(subset(m)) + " and " + show(subset(j)); });
  }
  if (m) c.nontrivial();
}

// the suffix sets of all nodes of a graph
std::map<const ll::DawgNode *, std::set<std::string>> suffixes(const Graph &g) {
  std::map<const ll::DawgNode *, std::set<std::string>> out;
  for (auto *n : g.order) {
    std::set<std::string> s;
    if (n->is_final()) s.insert("");
    n->for_each_edge([&](char l, ll::DawgNode *t) {
      for (auto &x : out[t]) s.insert(l + x);
    });
    out[n] = s;
  }
  return out;
}

void equality_nodes(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto s1 = gen::term_set(c, alpha, {10, 5});
  auto s2 = c.coin() ? s1 : gen::term_set(c, alpha, {10, 5});
  std::unique_ptr<ll::SortedDawg> g1(new ll::SortedDawg(hand_built(c, s1, (unsigned)c.below(9)), s1.size()));
  std::unique_ptr<ll::SortedDawg> g2(new ll::SortedDawg(hand_built(c, s2, (unsigned)c.below(9)), s2.size()));
  DawgPtr m = must_build(c, s1);
  c.describe([&] { return "graphs of " + show(gen::to_vec(s1)) + " and " + show(gen::to_vec(s2)); });
  std::vector<std::pair<const ll::DawgNode *, std::set<std::string>>> nodes;
  for (const ll::Dawg *d : {(const ll::Dawg *)g1.get(), (const ll::Dawg *)g2.get(), (const ll::Dawg *)m.get()})
    for (auto &[n, s] : suffixes(inspect(d->root()))) nodes.emplace_back(n, s);
  // node order must not depend on addresses: sort by suffix sets
  std::sort(nodes.begin(), nodes.end(), [](auto &a, auto &b) { return a.second < b.second; });
  size_t tries = 60, eq = 0, ne = 0;
  for (size_t i = 0; i < tries; ++i) {
    size_t x = c.below(nodes.size());
    size_t y = c.coin() ? c.below(nodes.size()) : std::min(nodes.size() - 1, x + c.below(3));
    bool same = nodes[x].second == nodes[y].second;
    c.check((*nodes[x].first == *nodes[y].first) == same, [&] {
      return std::string(same ? "nodes with the same suffixes compare unequal: " : "nodes with different suffixes compare equal: ") +
             show(gen::to_vec(nodes[x].second)) + " and " + show(gen::to_vec(nodes[y].second));
    });
    if (same) {
      c.check(std::hash<ll::DawgNode>()(*nodes[x].first) == std::hash<ll::DawgNode>()(*nodes[y].first), "equal nodes hash differently");
      if (nodes[x].first != nodes[y].first) ++eq;
    } else
      ++ne;
  }
  equal_pair(c, *g1, *m, true, [&] { return "hand-built and minimal graph of " + show(gen::to_vec(s1)); });
  equal_pair(c, *g1, *g2, s1 == s2, [&] { return "hand-built graphs of " + show(gen::to_vec(s1)) + " and " + show(gen::to_vec(s2)); });
  if (eq && ne) c.nontrivial();
  gen::mix(c, gen::to_vec(s1));
  gen::mix(c, gen::to_vec(s2));
}

void equality_long(Ctx &c) {
  auto s1 = long_terms(c, c.coin() ? 300 : 60000, 140000), s2 = s1;
  if (c.coin()) { // one small difference
    std::string t = *std::next(s2.begin(), c.below(s2.size()));
    s2.erase(t);
    size_t at = c.coin() ? t.size() - 1 : c.below(t.size());
    if (c.coin()) t[at] ^= 1;
    else t.erase(at, 1);
    s2.insert(t);
  }
  c.describe([&] { return lengths(s1) + " and " + lengths(s2) + (s1 == s2 ? ", the same" : ", not the same"); });
  ll::SortedDawg a(plain_trie(s1), s1.size()), b(plain_trie(s2), s2.size());
  equal_pair(c, a, b, s1 == s2, [&] { return "dictionaries of " + lengths(s1); });
  c.nontrivial();
  for (auto &t : s1) c.mix(t);
  for (auto &t : s2) c.mix(t);
}

Reg c08d("C08", "very_long_terms", 100, 2000, equality_long, pbt::PLAIN_ONLY);
Reg c08a("C08", "near_equal_dictionaries", 120000, 3000000, equality);
RegEnum c08b("C08", "all_subset_pairs", 128, 128, equality_all, 4);
Reg c08c("C08", "nodes_of_hand_built_graphs", 30000, 800000, equality_nodes);

// ---------------------------------------------------------------- C20
void frozen(Ctx &c, size_t min_ops, size_t max_ops, gen::DictOpt opt) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, opt);
  Strings dict = gen::to_vec(set);
  size_t kind = c.below(5);
  c.describe([&] { return std::string(kind_name[kind]) + " of " + show(dict) + ":"; });
  DawgPtr d = build_kind(c, dict, kind);
  c.check((bool)d, "construction failed");
  DawgPtr twin = must_build(c, dict);
  size_t nodes = inspect(d->root()).nodes;
  size_t ops = c.range(min_ops, max_ops), attempts = 0;
  Strings probes;
  for (size_t i = 0; i < ops; ++i) {
    std::string t;
    switch (c.below(5)) {
    case 0: t = gen::query_for(c, dict, alpha, 7); break;
    case 1: t = dict.empty() ? "" : dict.back() + gen::str(c, alpha, 3); break; // larger than all
    case 2: t = ""; break;
    case 3: t = dict.empty() ? "a" : dict[c.below(dict.size())]; break;
    default: t = std::string(c.range(1, 3), (char)0xff); break;
    }
    probes.push_back(t);
    if (c.chance(1, 4)) {
      c.describe([&] { return " remove " + show(t); });
      c.check(!d->remove(t), [&] { return "remove(" + show(t) + ") on a finished dictionary reports success"; });
    } else {
      c.describe([&] { return " add " + show(t); });
      c.check(!d->add(t), [&] { return "add(" + show(t) + ") on a finished dictionary reports success"; });
    }
    ++attempts;
    c.check(d->size() == set.size(), "size() changed after an attempted modification");
    c.check(d->contains(t) == (set.count(t) == 1), [&] { return "membership of " + show(t) + " changed"; });
  }
  check_contents(c, *d, set, "after attempted modifications", probes);
  c.check(inspect(d->root()).nodes == nodes, "number of nodes changed");
  c.check(*d == *twin && *twin == *d, "no longer equal to an untouched copy");
  c.check(std::hash<ll::Dawg>()(*d) == std::hash<ll::Dawg>()(*twin), "hash code changed");
  for (int i = 0; i < 2; ++i) {
    std::string q = c.coin() ? probes[c.below(probes.size())] : gen::query_for(c, dict, alpha, 7);
    if (q.size() > 12) q.resize(12);
    int a = (int)c.below(3);
    size_t n = c.below(4);
    judge(c, a, dict, q, n, query(c, a, d->root(), q, n, true, dict.size()), true, "query after attempted modifications");
  }
  c.nontrivial();
  gen::mix(c, dict);
  gen::mix(c, probes);
}
Reg c20a("C20", "attempted_modifications", 80000, 2000000, [](Ctx &c) { frozen(c, 1, 15, {25, 7}); });
Reg c20b("C20", "many_attempts", 400, 10000, [](Ctx &c) { frozen(c, 100, 1500, {60, 9}); });

} // namespace
