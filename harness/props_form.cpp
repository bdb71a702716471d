// C25: what is stored follows the published format.
//
// The reader and the writer of the format are written out here, from
// proto/liblevenshtein.proto as published and the protobuf wire format; the
// generated classes are not used.
#include "graphs.h"
#include "liblevenshtein/serialization/serializer.h"
#include "query.h"
#include <fstream>
#include <optional>
#include <sstream>
#include <unistd.h>

using namespace lib;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;

namespace {

struct Edge {
  uint64_t source = 0, target = 0;
  uint32_t label = 0;
};
struct Form {
  std::vector<uint64_t> nodes, finals;
  std::vector<Edge> edges;
  uint64_t root = 0, size = 0;
};

// ------------------------------------------------------------------ reader
struct Reader {
  const std::string &b;
  size_t at, end;
  bool ok = true;
  bool more() const { return ok && at < end; }
  uint64_t varint() {
    uint64_t v = 0;
    for (int shift = 0; shift < 70; shift += 7) {
      if (at >= end) break;
      unsigned char x = (unsigned char)b[at++];
      if (shift < 64) v |= (uint64_t)(x & 0x7f) << shift;
      if (!(x & 0x80)) return v;
    }
    ok = false;
    return 0;
  }
  // a field this version does not know
  bool skip(unsigned wire) {
    uint64_t n = wire == 1 ? 8 : wire == 5 ? 4 : 0;
    if (wire == 0) varint();
    else if (wire == 2) n = varint();
    else if (n == 0) ok = false;
    if (!ok || n > end - at) return ok = false;
    at += n;
    return true;
  }
  // a varint field that may be repeated, packed or not
  bool numbers(unsigned wire, std::vector<uint64_t> &out) {
    if (wire == 0) {
      out.push_back(varint());
    } else if (wire == 2) {
      uint64_t n = varint();
      if (!ok || n > end - at) return ok = false;
      Reader r{b, at, at + n};
      while (r.more()) out.push_back(r.varint());
      ok = r.ok;
      at += n;
    } else
      ok = false;
    return ok;
  }
};

std::optional<Form> decode(const std::string &b) {
  Form f;
  Reader r{b, 0, b.size()};
  std::vector<uint64_t> root, size;
  while (r.more()) {
    uint64_t key = r.varint();
    unsigned wire = key & 7;
    switch (key >> 3) {
    case 1: r.numbers(wire, f.nodes); break;
    case 2: r.numbers(wire, f.finals); break;
    case 3: {
      if (wire != 2) return {};
      uint64_t n = r.varint();
      if (!r.ok || n > r.end - r.at) return {};
      Reader e{b, r.at, r.at + n};
      Edge x;
      while (e.more()) {
        uint64_t k = e.varint();
        if ((k & 7) != 0) return {};
        uint64_t v = e.varint();
        if (k >> 3 == 1) x.source = v;
        else if (k >> 3 == 2) x.label = (uint32_t)v;
        else if (k >> 3 == 3) x.target = v;
        else return {};
      }
      if (!e.ok) return {};
      f.edges.push_back(x);
      r.at += n;
      break;
    }
    case 4: r.numbers(wire, root); break;
    case 5: r.numbers(wire, size); break;
    default: r.skip(wire);
    }
  }
  if (!r.ok) return {};
  if (!root.empty()) f.root = root.back();
  if (!size.empty()) f.size = size.back();
  return f;
}

// What a stored automaton means: the set of its terms.
std::set<std::string> meaning(Ctx &c, const Form &f, size_t cap) {
  std::set<uint64_t> nodes(f.nodes.begin(), f.nodes.end()), fin(f.finals.begin(), f.finals.end());
  c.check(nodes.size() == f.nodes.size(), "a stored node is listed twice");
  c.check(nodes.count(f.root) == 1, "the stored root is not among the stored nodes");
  for (uint64_t x : fin) c.check(nodes.count(x) == 1, "a stored final node is not among the stored nodes");
  std::map<uint64_t, std::map<unsigned char, uint64_t>> kids;
  for (auto &e : f.edges) {
    c.check(nodes.count(e.source) && nodes.count(e.target), "a stored edge leaves the stored nodes");
    c.check(kids[e.source].emplace((unsigned char)e.label, e.target).second, "two stored edges of a node have the same label");
  }
  std::set<std::string> out;
  std::vector<std::pair<uint64_t, std::string>> todo{{f.root, ""}};
  size_t steps = 0;
  while (!todo.empty()) {
    auto [n, s] = std::move(todo.back());
    todo.pop_back();
    if (++steps > cap) c.fail("the stored automaton has far more paths than the dictionary");
    if (fin.count(n)) out.insert(s);
    for (auto &[l, t] : kids[n]) todo.emplace_back(t, s + (char)l);
  }
  return out;
}

// ------------------------------------------------------------------ writer
void put_varint(std::string &o, uint64_t v) {
  while (v >= 0x80) {
    o += (char)(v | 0x80);
    v >>= 7;
  }
  o += (char)v;
}
void put_field(std::string &o, unsigned num, uint64_t v) {
  put_varint(o, num << 3);
  put_varint(o, v);
}
void put_bytes(std::string &o, unsigned num, const std::string &v) {
  put_varint(o, num << 3 | 2);
  put_varint(o, v.size());
  o += v;
}

// Any writer's rendering of the form: order of fields, packing, explicit
// zeroes and unknown additions are the writer's choice.
std::string encode(Ctx &c, const Form &f) {
  std::vector<std::string> parts;
  bool zeroes = c.chance(1, 3);
  auto list = [&](unsigned num, const std::vector<uint64_t> &v) {
    size_t style = c.below(3); // packed, one by one, packed in pieces
    if (style == 0 || (style == 2 && v.size() < 2)) {
      std::string p;
      for (uint64_t x : v) put_varint(p, x);
      if (!v.empty()) {
        std::string o;
        put_bytes(o, num, p);
        parts.push_back(o);
      }
    } else if (style == 1) {
      for (uint64_t x : v) {
        std::string o;
        put_field(o, num, x);
        parts.push_back(o);
      }
    } else {
      size_t cut = c.range(1, v.size() - 1);
      for (int h = 0; h < 2; ++h) {
        std::string p, o;
        for (size_t i = h ? cut : 0; i < (h ? v.size() : cut); ++i) put_varint(p, v[i]);
        put_bytes(o, num, p);
        parts.push_back(o);
      }
    }
  };
  list(1, f.nodes);
  list(2, f.finals);
  for (auto &e : f.edges) {
    std::string p, o;
    if (e.source || zeroes) put_field(p, 1, e.source);
    if (e.label || zeroes) put_field(p, 2, e.label);
    if (e.target || zeroes) put_field(p, 3, e.target);
    put_bytes(o, 3, p);
    parts.push_back(o);
  }
  std::string o;
  if (f.root || zeroes) {
    put_field(o, 4, f.root);
    parts.push_back(o);
    o.clear();
  }
  if (f.size || zeroes) {
    put_field(o, 5, f.size);
    parts.push_back(o);
    o.clear();
  }
  if (c.chance(1, 8)) { // something a later version may add
    if (c.coin()) put_field(o, 7, c.below(1000));
    else put_bytes(o, 100, "later");
    parts.push_back(o);
    o.clear();
  }
  if (c.chance(1, 3)) // fields in any order
    for (size_t k = parts.size(); k > 1; --k) std::swap(parts[k - 1], parts[c.below(k)]);
  for (auto &p : parts) o += p;
  return o;
}

// An automaton of the terms: a trie whose equal parts are shared with
// probability share/8 (8: the minimal automaton), numbered in some way.
Form form_of(Ctx &c, const std::set<std::string> &terms, unsigned share, size_t numbering, bool shuffle) {
  struct T {
    bool fin = false;
    std::map<unsigned char, size_t> kids;
  };
  std::vector<T> trie(1);
  for (auto &t : terms) {
    size_t at = 0;
    for (unsigned char ch : t) {
      auto [it, fresh] = trie[at].kids.emplace(ch, trie.size());
      at = it->second;
      if (fresh) trie.emplace_back();
    }
    trie[at].fin = true;
  }
  std::vector<size_t> rep(trie.size());
  std::map<std::pair<bool, std::vector<std::pair<unsigned char, size_t>>>, size_t> have;
  Form f;
  std::map<size_t, uint64_t> id;
  std::set<uint64_t> taken;
  uint64_t base = numbering == 3 ? c.below(0) : 0;
  bool wide = c.coin(); // labels from 0x80 on as earlier versions wrote them, or as plain bytes
  for (size_t i = trie.size(); i-- > 0;) {
    std::pair<bool, std::vector<std::pair<unsigned char, size_t>>> key;
    key.first = trie[i].fin;
    for (auto &[ch, k] : trie[i].kids) key.second.emplace_back(ch, rep[k]);
    auto it = have.find(key);
    if (i != 0 && it != have.end() && (share == 8 || c.below(8) < share)) {
      rep[i] = it->second;
      continue;
    }
    rep[i] = i;
    have[key] = i;
    uint64_t n;
    switch (numbering) {
    case 0: n = taken.size() + 1; break;      // from one
    case 1: n = taken.size(); break;          // from nought
    case 2: n = UINT64_MAX - taken.size(); break;
    case 3: n = base + 32 * taken.size(); break; // like addresses
    case 4: n = (uint64_t)taken.size() << 32; break; // equal in the lower half
    default: n = c.below(c.coin() ? 0 : 300);
    }
    while (!taken.insert(n).second) ++n;
    id[i] = n;
    f.nodes.push_back(n);
    if (trie[i].fin) f.finals.push_back(n);
    for (auto &[ch, k] : trie[i].kids) f.edges.push_back({n, id[rep[k]], wide ? (uint32_t)(int32_t)(signed char)ch : ch});
  }
  f.root = id[0];
  f.size = terms.size();
  if (shuffle) {
    for (size_t k = f.nodes.size(); k > 1; --k) std::swap(f.nodes[k - 1], f.nodes[c.below(k)]);
    for (size_t k = f.finals.size(); k > 1; --k) std::swap(f.finals[k - 1], f.finals[c.below(k)]);
    for (size_t k = f.edges.size(); k > 1; --k) std::swap(f.edges[k - 1], f.edges[c.below(k)]);
  }
  return f;
}

std::string save(Ctx &c, ll::Dawg *d) {
  if (c.chance(1, 4)) {
    std::string p = pbt::scratch_dir() + "/form";
    c.check(ll::serialize_protobuf(d, p), "saving to a path failed");
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    unlink(p.c_str());
    return ss.str();
  }
  std::ostringstream s;
  c.check(ll::serialize_protobuf(d, s), "saving to a stream failed");
  return s.str();
}
DawgPtr load(Ctx &c, const std::string &b) {
  if (c.chance(1, 4)) {
    std::string p = pbt::scratch_dir() + "/form";
    std::ofstream(p, std::ios::binary | std::ios::trunc) << b;
    DawgPtr d(ll::deserialize_protobuf(p));
    unlink(p.c_str());
    return d;
  }
  std::istringstream s(b);
  return DawgPtr(ll::deserialize_protobuf(s));
}

size_t total(const std::set<std::string> &set) {
  size_t n = 1;
  for (auto &t : set) n += t.size();
  return n;
}

void check_written(Ctx &c, ll::Dawg *d, const std::set<std::string> &set) {
  auto f = decode(save(c, d));
  c.check(f.has_value(), "what was saved is not a message of the published schema");
  c.check(f->size == set.size(), [&] { return "the stored size is " + std::to_string(f->size) + ", expected " + std::to_string(set.size()); });
  std::set<std::string> got = meaning(c, *f, total(set));
  c.check(got == set, [&] {
    std::multiset<std::string> m(got.begin(), got.end());
    return "the stored automaton has other terms than the dictionary:" + diff(set, m);
  });
}

void check_loaded(Ctx &c, ll::Dawg *d, const std::set<std::string> &set, const std::string &alpha, bool queries) {
  Strings dict = gen::to_vec(set), probes;
  for (int i = 0; i < 4; ++i) probes.push_back(gen::query_for(c, dict, alpha, 8));
  for (auto &t : dict)
    if (probes.size() < 12 && !t.empty()) probes.push_back(t.substr(0, c.below(t.size())));
  check_contents(c, *d, set, "dictionary of a stored form", probes);
  c.check(*d == *must_build(c, set), "the dictionary of a stored form is not equal to one built from the same terms");
  if (!queries) return;
  for (int i = 0; i < 2; ++i) {
    std::string q = gen::query_for(c, dict, alpha, 8);
    if (q.size() > 12) q.resize(12);
    int a = (int)c.below(3);
    size_t n = c.below(4);
    judge(c, a, dict, q, n, query(c, a, d->root(), q, n, true, dict.size()), true, "query on the dictionary of a stored form");
  }
}

void written(Ctx &c, gen::DictOpt opt) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, opt);
  c.describe([&] { return "dictionary " + show(gen::to_vec(set)); });
  DawgPtr d;
  if (c.chance(1, 5)) { // one that was assembled by hand
    d.reset(new ll::SortedDawg(hand_built(c, set, (unsigned)c.below(9)), set.size()));
    c.label("hand-built");
  } else
    d = must_build(c, set);
  check_written(c, d.get(), set);
  if (set.size() > 1) c.nontrivial();
  gen::mix(c, gen::to_vec(set));
}

void foreign(Ctx &c, gen::DictOpt opt) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, opt);
  unsigned share = c.coin() ? 8 : (unsigned)c.below(9);
  size_t numbering = c.below(6);
  bool shuffle = c.coin();
  c.describe([&] {
    return "dictionary " + show(gen::to_vec(set)) + " stored with sharing " + std::to_string(share) + ", numbering " +
           std::to_string(numbering) + (shuffle ? ", shuffled" : "");
  });
  Form f = form_of(c, set, share, numbering, shuffle);
  std::string b = encode(c, f);
  c.describe([&] { return "; bytes " + show(b); });
  DawgPtr d = load(c, b);
  c.check((bool)d, "a message of the published schema is not accepted");
  check_loaded(c, d.get(), set, alpha, true);
  c.check(inspect(d->root()).nodes == f.nodes.size(), "the loaded graph has another number of nodes than the stored one");
  check_written(c, d.get(), set);
  c.label(share == 8 ? "minimal" : "not minimal or chance");
  c.label("numbering " + std::to_string(numbering));
  if (set.size() > 1) c.nontrivial();
  c.mix(b);
}

// every label, with every way of writing it
void labels(Ctx &c) {
  uint64_t i = c.below(512);
  unsigned char ch = (unsigned char)i;
  uint32_t l = i < 256 ? ch : (uint32_t)(int32_t)(signed char)ch;
  c.describe([&] { return "label stored as " + std::to_string(l); });
  Form f{{1, 2, 3}, {2, 3}, {{1, 2, l}, {2, 3, l}}, 1, 2};
  DawgPtr d = load(c, encode(c, f));
  c.check((bool)d, "a message of the published schema is not accepted");
  std::set<std::string> set{std::string(1, (char)ch), std::string(2, (char)ch)};
  check_contents(c, *d, set, "dictionary of a stored form", {"", std::string(3, (char)ch), std::string(1, (char)(ch + 1))});
  check_written(c, d.get(), set);
  check_written(c, must_build(c, set).get(), set);
  c.nontrivial();
}

// all subsets of the words over {a, b} to length 3, as tries and minimal
void subsets(Ctx &c) {
  Strings U{""};
  for (size_t i = 0; U.size() < 15; ++i)
    for (char ch : {'a', 'b'}) U.push_back(U[i] + ch);
  uint64_t m = c.below(32768);
  std::set<std::string> set;
  for (size_t i = 0; i < U.size(); ++i)
    if (m >> i & 1) set.insert(U[i]);
  c.describe([&] { return "dictionary " + show(gen::to_vec(set)); });
  check_written(c, must_build(c, set).get(), set);
  for (unsigned share : {0u, 8u}) {
    DawgPtr d = load(c, encode(c, form_of(c, set, share, share ? 1 : 2, false)));
    c.check((bool)d, "a message of the published schema is not accepted");
    check_loaded(c, d.get(), set, "ab", false);
  }
  if (set.size() > 1) c.nontrivial();
}

// more than 65536 nodes
void large(Ctx &c) {
  uint64_t s = c.below(0);
  std::set<std::string> set;
  size_t want = c.range(8000, 30000);
  while (set.size() < want) {
    std::string t;
    size_t len = 3 + pbt::splitmix(s) % 8;
    for (size_t i = 0; i < len; ++i) t += (char)('a' + pbt::splitmix(s) % 20);
    set.insert(t);
  }
  c.describe([&] { return std::to_string(want) + " random terms"; });
  check_written(c, must_build(c, set).get(), set);
  Form f = form_of(c, set, 0, c.below(5), false);
  std::string b = encode(c, f);
  DawgPtr d = load(c, b);
  c.check((bool)d, "a message of the published schema is not accepted");
  check_contents(c, *d, set, "dictionary of a stored form");
  c.label(f.nodes.size() > 65536 ? "more than 65536 nodes" : "fewer nodes");
  c.nontrivial();
  c.mix(s);
}

// terms of more than 65536 characters
void very_long(Ctx &c) {
  auto set = long_terms(c, 60000, 100000);
  c.describe([&] { return lengths(set); });
  std::string b = encode(c, form_of(c, set, 0, c.below(5), false));
  DawgPtr d = load(c, b);
  c.check((bool)d, "a message of the published schema is not accepted");
  check_contents(c, *d, set, "dictionary of a stored form");
  ll::SortedDawg e(plain_trie(set), set.size());
  auto f = decode(save(c, &e));
  c.check(f.has_value(), "what was saved is not a message of the published schema");
  c.check(f->nodes.size() == inspect(e.root()).nodes && f->edges.size() + 1 == f->nodes.size() && f->size == set.size(),
          "the stored form of very long terms has other numbers of nodes or edges");
  c.nontrivial();
  for (auto &t : set) c.mix(t);
}

Reg r8("C25", "very_long_terms", 8, 100, very_long, pbt::PLAIN_ONLY);
Reg r1("C25", "written_form", 60000, 1500000, [](Ctx &c) { written(c, {40, 8}); });
Reg r2("C25", "written_form_larger", 300, 8000, [](Ctx &c) { written(c, {400, 30}); });
Reg r3("C25", "forms_of_other_writers", 60000, 1500000, [](Ctx &c) { foreign(c, {30, 8}); });
Reg r4("C25", "forms_of_other_writers_larger", 300, 8000, [](Ctx &c) { foreign(c, {300, 30}); });
RegEnum r5("C25", "every_label", 512, 512, labels);
RegEnum r6("C25", "every_small_set", 32768, 32768, subsets);
Reg r7("C25", "more_than_65536_nodes", 6, 60, large, pbt::PLAIN_ONLY);
} // namespace
