// C21: no use of the library corrupts or leaks memory.
//
// A case draws a plan of API calls and then executes it several times; the
// sanitizers judge every access, and the number of allocated bytes must not
// grow with every further execution of the same plan.
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/proto/liblevenshtein.pb.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/collection/prefix.h"
#include "liblevenshtein/collection/transition.h"
#include "liblevenshtein/distance/symmetric_pair.h"
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/intersection.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include "liblevenshtein/transducer/subsumes.h"
#include "liblevenshtein/transducer/unsubsume.h"
#include "query.h"
#include <list>
#include <malloc.h>
#include <sstream>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t in_use() {
  struct mallinfo2 m = mallinfo2();
  return m.uordblks + m.hblkhd;
}
#endif

using namespace lib;
using pbt::Reg;
using pbt::show;

namespace {

enum Op {
  BUILD, BUILD_BAD, NEW_BUILDER, BUILDER_ADD, BUILDER_END, BUILDER_DROP, OPEN, STEP, CLOSE, PASS, UNUSED_RANGE, ITERATE, SAVE, LOAD,
  DAMAGE, SAVE_PATH, LOAD_PATH, PROTO, COMPARE, PRINT, DIST_NEW, DIST, DIST_DROP, FROZEN, DROP, HAND, NODE, STATE, VALUES, N_OPS
};
const char *op_name[] = {"build", "build-unsorted", "new-builder", "builder-add", "builder-end", "builder-drop", "open", "step", "close",
                         "pass", "unused-range", "iterate", "save", "load", "damage+load", "save-path", "load-path", "protobuf", "compare",
                         "print", "new-distance", "distance", "drop-distance", "add/remove", "drop", "hand-built", "node-edges", "state", "values"};
struct Step {
  Op op;
  uint64_t a, b, k;
  std::string s, t;
  Strings terms;
};
struct Plan {
  std::vector<Step> steps;
  std::string dir;
};

struct Open {
  virtual ~Open() = default;
  virtual bool done() = 0;
  virtual size_t look() = 0;
  virtual void next() = 0;
  size_t dict = 0;
};
size_t len(const std::string &s) { return s.size(); }
size_t len(const Candidate &s) { return s.first.size() + s.second; }

// owns its transducer: transducer, range, iterators are destroyed in reverse order
template <Algorithm A, class R> struct OpenT : Open {
  ll::Transducer<A, R> tr;
  ll::LazyIterator<R> range;
  std::unique_ptr<ll::LazyQuery<R>> it, end;
  // the query is a temporary that is gone before the first use
  OpenT(ll::DawgNode *r, const std::string &q, size_t n) : tr(r), range(tr(std::string(q.data(), q.size()), n)) {}
  void begin() {
    if (it) return;
    it.reset(new ll::LazyQuery<R>(range.begin()));
    end.reset(new ll::LazyQuery<R>(range.end()));
  }
  bool done() override { return begin(), !(*it != *end); }
  size_t look() override { return begin(), len(**it); }
  void next() override { begin(), ++*it; }
};
template <Algorithm A> std::unique_ptr<Open> open2(ll::DawgNode *r, const std::string &q, size_t n, bool with) {
  if (with) return std::make_unique<OpenT<A, Candidate>>(r, q, n);
  return std::make_unique<OpenT<A, std::string>>(r, q, n);
}
std::unique_ptr<Open> open(ll::DawgNode *r, const std::string &q, size_t n, int algo, bool with) {
  if (algo == 0) return open2<Algorithm::STANDARD>(r, q, n, with);
  if (algo == 1) return open2<Algorithm::TRANSPOSITION>(r, q, n, with);
  return open2<Algorithm::MERGE_AND_SPLIT>(r, q, n, with);
}
template <Algorithm A> void unused(ll::DawgNode *r, const std::string &q, size_t n, int how) {
  ll::Transducer<A, Candidate> tr(r);
  if (how == 0) return;
  auto range = tr(std::string(q.data(), q.size()), n);
  if (how == 1) return;
  auto it = range.begin();
  if (how == 2) return;
  auto it2 = range.begin();
  auto e = range.end();
  if (it2 != e) ++it2;
}

// A trie of the terms in which some equal subtrees are shared and to which
// some ways are added that lead to no term; a function of its arguments.
ll::DawgNode *seeded_graph(const Strings &terms, uint64_t seed) {
  uint64_t x = seed, share = seed % 4, dead = seed / 4 % 4;
  struct T {
    bool fin = false;
    std::map<char, size_t> kids;
  };
  std::vector<T> trie(1);
  auto add = [&](const std::string &t) {
    size_t at = 0;
    for (char ch : t) {
      auto it = trie[at].kids.find(ch);
      if (it == trie[at].kids.end()) {
        trie[at].kids[ch] = trie.size();
        at = trie.size();
        trie.emplace_back();
      } else
        at = it->second;
    }
    return at;
  };
  for (auto &t : terms) trie[add(t)].fin = true;
  for (uint64_t i = 0; i < dead && !terms.empty(); ++i) {
    std::string t = terms[pbt::splitmix(x) % terms.size()];
    if (t.size() > 400) continue; // recursion is as deep as the way is long
    t.resize(pbt::splitmix(x) % (t.size() + 1));
    for (uint64_t k = 1 + pbt::splitmix(x) % 3; k > 0; --k) t += (char)('a' + pbt::splitmix(x) % 3);
    add(t);
  }
  std::vector<ll::DawgNode *> node(trie.size());
  std::vector<size_t> cls(trie.size());
  std::map<std::pair<bool, std::vector<std::pair<char, size_t>>>, size_t> ids;
  std::map<size_t, ll::DawgNode *> first;
  for (size_t i = trie.size(); i-- > 0;) {
    std::pair<bool, std::vector<std::pair<char, size_t>>> key;
    key.first = trie[i].fin;
    for (auto &[ch, k] : trie[i].kids) key.second.emplace_back(ch, cls[k]);
    cls[i] = ids.emplace(std::move(key), ids.size()).first->second;
  }
  node[0] = new ll::DawgNode(trie[0].fin);
  for (size_t i = 0; i < trie.size(); ++i) {
    if (!node[i]) continue; // below a subtree that is represented by another one
    for (auto &[ch, k] : trie[i].kids) {
      ll::DawgNode *to = first[cls[k]];
      if (to == nullptr || pbt::splitmix(x) % 4 >= share) to = node[k] = first[cls[k]] = new ll::DawgNode(trie[k].fin);
      node[i]->add_edge(ch, to);
      if (pbt::splitmix(x) % 8 == 0) node[i]->add_edge(ch, to); // again
    }
  }
  return node[0];
}

// Operations on automaton states, also through iterators
template <Algorithm A> uint64_t play_state(uint64_t seed) {
  uint64_t x = seed, sum = 0;
  auto draw = [&](uint64_t n) { return pbt::splitmix(x) % n; };
  auto fresh = [&] {
    bool s = A != Algorithm::STANDARD && draw(3) == 0;
    uint64_t i = draw(4);
    return new ll::Position(i, draw(4), s);
  };
  std::unique_ptr<ll::State> st;
  if (draw(3) == 0) st.reset(new ll::State());
  else if (draw(2)) st.reset(new ll::State({fresh(), fresh()}));
  else {
    std::vector<ll::Position *> v;
    for (uint64_t k = draw(5); k > 0; --k) v.push_back(fresh());
    st.reset(new ll::State(v));
  }
  for (uint64_t ops = draw(12); ops > 0; --ops) {
    ll::Position *at = nullptr, *prev = nullptr;
    size_t n = 0;
    for (auto *p = st->head(); p != nullptr; p = p->next()) ++n;
    if (n > 0) {
      at = st->head();
      for (uint64_t k = draw(n); k > 0; --k) prev = at, at = at->next();
    }
    switch (draw(8)) {
    case 0: st->head(fresh()); break;
    case 1: st->add(fresh()); break;
    case 2: st->insert_after(at, fresh()); break;
    case 3:
      if (at) st->remove(prev, at);
      break;
    case 4: st->sort(ll::compare<A>); break;
    case 5: {
      std::vector<ll::Position *> v;
      for (uint64_t k = draw(5); k > 0; --k) v.push_back(fresh());
      ll::merge<A>(st.get(), v);
      break;
    }
    case 6: ll::UnsubsumeFn(ll::subsumes<A>)(st.get(), draw(5)); break;
    default: {
      auto it = st->begin(), end = st->end();
      for (uint64_t k = draw(n + 1); k > 0 && it != end; --k) ++it;
      if (it != end) {
        if (draw(2)) it.insert(fresh());
        else it.remove();
      }
    }
    }
    for (auto *p : *st) sum = sum * 31 + p->term_index() * 8 + p->num_errors() * 2 + p->is_special();
  }
  return sum;
}

// Prefixes, transitions, intersections and pairs: made, moved, printed, gone
uint64_t play_values(std::string s, const std::string &t, uint64_t seed) {
  if (s.size() > 300) s.resize(300);
  uint64_t sum = 0;
  std::vector<std::unique_ptr<ll::DawgNode>> nodes;
  std::vector<std::unique_ptr<ll::Prefix>> prefixes;
  std::vector<std::unique_ptr<ll::Intersection>> inters;
  nodes.emplace_back(new ll::DawgNode(seed & 1));
  prefixes.emplace_back(new ll::Prefix(nodes[0].get()));
  inters.emplace_back(new ll::Intersection('\0', nodes[0].get(), new ll::State({new ll::Position(0, 0)})));
  for (size_t i = 0; i < s.size(); ++i) {
    nodes.emplace_back(new ll::DawgNode(seed >> (i % 8) & 1));
    prefixes.emplace_back(new ll::Prefix(nodes.back().get(), prefixes.back().get(), s[i]));
    inters.emplace_back(new ll::Intersection(s[i], nodes.back().get(), new ll::State({new ll::Position(i, 0), new ll::Position(i, 1)}), inters.back().get()));
  }
  ll::Prefix moved(std::move(*prefixes.back()));
  sum = sum * 31 + moved.str().size() + inters.back()->str().size();
  ll::Transition tr(s.empty() ? 'x' : s[0], nodes.front().get(), nodes.back().get());
  ll::Transition tr2(std::move(tr));
  sum = sum * 31 + (tr2 == tr2) + (unsigned char)tr2.label();
  ll::distance::SymmetricPair p(s, t), q(t, s);
  sum = sum * 31 + (p == q) + (std::hash<ll::distance::SymmetricPair>()(p) == std::hash<ll::distance::SymmetricPair>()(q));
  std::ostringstream o;
  o << p << moved << *inters.back();
  return sum * 31 + (o.str().size() > 0);
}

// Executes the plan on fresh objects and destroys them all; returns a
// checksum of what was observed.
uint64_t execute(const Plan &p) {
  uint64_t sum = 0;
  std::vector<std::unique_ptr<ll::Dawg>> dicts;
  std::vector<std::unique_ptr<ll::SortedDawg>> builders;
  std::vector<std::unique_ptr<Open>> opens;
  Strings blobs;
  std::vector<std::unique_ptr<ll::distance::StandardDistance>> d0;
  std::vector<std::unique_ptr<ll::distance::TranspositionDistance>> d1;
  std::vector<std::unique_ptr<ll::distance::MergeAndSplitDistance>> d2;
  auto keep = [&](ll::Dawg *d) {
    if (d) dicts.emplace_back(d);
    sum = sum * 31 + (d != nullptr);
  };
  for (auto &st : p.steps) {
    auto pick = [&](auto &v) -> auto & { return v[st.a % v.size()]; };
    switch (st.op) {
    case BUILD: {
      Strings v = st.terms;
      if (st.b % 3 == 0) keep(ll::sorted_dawg(v.begin(), v.end()));
      else if (st.b % 3 == 1) {
        std::list<std::string> l(v.begin(), v.end());
        keep(ll::sorted_dawg(l.begin(), l.end()));
      } else {
        std::set<std::string> s(v.begin(), v.end());
        keep(ll::sorted_dawg(s.begin(), s.end()));
      }
      break;
    }
    case BUILD_BAD: {
      Strings v = st.terms;
      if (v.size() > 1) std::swap(v[st.a % v.size()], v[st.b % v.size()]);
      keep(ll::sorted_dawg(v.begin(), v.end()));
      break;
    }
    case NEW_BUILDER:
      builders.emplace_back(new ll::SortedDawg());
      if (st.a % 8 != 0) builders.back()->init(); // else: refuses every term
      break;
    case BUILDER_ADD:
      if (!builders.empty()) {
        auto &b = pick(builders);
        sum = sum * 31 + b->add(st.s);
        if (st.b % 4 == 0) sum = sum * 31 + b->add(st.t);
        if (st.b % 5 == 0) sum += b->size() + b->contains(st.s);
      }
      break;
    case BUILDER_END:
      if (!builders.empty()) {
        size_t i = st.a % builders.size();
        // only builders that were begun can be completed
        if (builders[i]->add("") || builders[i]->size() > 0) {
          builders[i]->finish();
          if (st.b % 4) builders[i]->clean_up();
          if (st.b % 4 && st.b % 3) dicts.emplace_back(builders[i].release());
        }
        builders.erase(builders.begin() + i);
      }
      break;
    case BUILDER_DROP:
      if (!builders.empty()) builders.erase(builders.begin() + st.a % builders.size());
      break;
    case OPEN:
      if (!dicts.empty()) {
        auto o = open(pick(dicts)->root(), st.s, st.k, (int)(st.b % 3), st.b & 4);
        o->dict = st.a % dicts.size();
        opens.push_back(std::move(o));
      }
      break;
    case STEP:
      if (!opens.empty()) {
        auto &o = pick(opens);
        for (uint64_t i = 0; i < st.b % 4 && !o->done(); ++i) {
          sum = sum * 31 + o->look();
          o->next();
        }
      }
      break;
    case CLOSE:
      if (!opens.empty()) opens.erase(opens.begin() + st.a % opens.size());
      break;
    case PASS:
      if (!dicts.empty()) {
        auto o = open(pick(dicts)->root(), st.s, st.k, (int)(st.b % 3), st.b & 4);
        for (; !o->done(); o->next()) sum += o->look();
        if (st.b & 8) o->next(); // advancing a completed query does nothing
      }
      break;
    case UNUSED_RANGE:
      if (!dicts.empty()) {
        ll::DawgNode *r = pick(dicts)->root();
        int how = (int)(st.b % 4), a = (int)(st.b / 4 % 3);
        if (a == 0) unused<Algorithm::STANDARD>(r, st.s, st.k, how);
        else if (a == 1) unused<Algorithm::TRANSPOSITION>(r, st.s, st.k, how);
        else unused<Algorithm::MERGE_AND_SPLIT>(r, st.s, st.k, how);
      }
      break;
    case ITERATE:
      if (!dicts.empty()) {
        auto &d = pick(dicts);
        size_t n = 0, stop = st.b % 2 ? SIZE_MAX : st.k;
        auto end = d->end();
        for (auto it = d->begin(); it != end && n < stop; ++it, ++n) sum += (*it).size();
      }
      break;
    case SAVE:
      if (!dicts.empty()) {
        std::ostringstream o;
        sum = sum * 31 + ll::serialize_protobuf(pick(dicts).get(), o);
        blobs.push_back(o.str());
      }
      break;
    case LOAD:
      if (!blobs.empty()) {
        std::istringstream i(pick(blobs));
        keep(ll::deserialize_protobuf(i));
      }
      break;
    case DAMAGE:
      if (!blobs.empty()) {
        std::string b = pick(blobs);
        if (st.b % 3 == 0) b.resize(b.empty() ? 0 : st.k * 7919 % b.size());
        else if (!b.empty()) b[st.k * 7919 % b.size()] ^= (char)(1 + st.b % 255);
        std::istringstream i(b);
        keep(ll::deserialize_protobuf(i));
      }
      break;
    case SAVE_PATH:
      if (!dicts.empty()) {
        std::string path = st.b % 5 == 0 ? p.dir + "/absent/x" : p.dir + "/m" + std::to_string(st.b % 3);
        sum = sum * 31 + ll::serialize_protobuf(pick(dicts).get(), path);
      }
      break;
    case LOAD_PATH: {
      std::string path = st.b % 5 == 0 ? p.dir + "/none" : p.dir + "/m" + std::to_string(st.b % 3);
      keep(ll::deserialize_protobuf(path));
      break;
    }
    case PROTO:
      if (!dicts.empty()) {
        std::unique_ptr<ll::proto::Dictionary> m(ll::to_protobuf(pick(dicts).get()));
        if (st.b % 4 == 1) m->set_size(m->size() + 1);
        if (st.b % 4 == 2) m->set_root_id(m->root_id() ^ 1);
        if (st.b % 4 == 3 && m->edge_size()) m->mutable_edge((int)(st.k % m->edge_size()))->set_target_id(m->root_id());
        if (st.k == 1) m->add_node_id(m->node_id((int)(st.b % m->node_id_size())));       // a node listed twice
        if (st.k == 2) m->add_node_id(st.b);                                              // a node on its own
        if (st.k == 3 && m->edge_size()) *m->add_edge() = m->edge((int)(st.b % m->edge_size())); // an edge listed twice
        if (st.k == 4) m->add_final_node_id(st.b % 2 ? st.b : m->node_id(0));
        keep(ll::from_protobuf(*m));
      }
      break;
    case COMPARE:
      if (!dicts.empty()) {
        auto &x = pick(dicts);
        auto &y = dicts[st.b % dicts.size()];
        sum = sum * 31 + (*x == *y) + std::hash<ll::Dawg>()(*x);
        sum += *x->root() == *y->root();
      }
      break;
    case PRINT:
      if (!dicts.empty()) {
        std::ostringstream o;
        o << *pick(dicts);
        o << ll::distance::SymmetricPair(st.s, st.t);
      }
      break;
    case DIST_NEW:
      if (st.a % 3 == 0) d0.emplace_back(new ll::distance::StandardDistance());
      else if (st.a % 3 == 1) d1.emplace_back(new ll::distance::TranspositionDistance());
      else d2.emplace_back(new ll::distance::MergeAndSplitDistance());
      break;
    case DIST:
      if (!d0.empty()) sum = sum * 31 + (*pick(d0))(st.s, st.t);
      if (!d1.empty()) sum = sum * 31 + (*pick(d1))(st.s, st.t);
      if (!d2.empty()) sum = sum * 31 + (*pick(d2))(st.s, st.t);
      break;
    case DIST_DROP:
      if (!d0.empty()) d0.pop_back();
      if (!d1.empty() && st.a % 2) d1.pop_back();
      if (!d2.empty() && st.b % 2) d2.pop_back();
      break;
    case FROZEN:
      if (!dicts.empty()) sum = sum * 31 + pick(dicts)->add(st.s) * 2 + pick(dicts)->remove(st.t);
      break;
    case DROP:
      if (!dicts.empty()) {
        size_t i = st.a % dicts.size();
        for (size_t k = opens.size(); k-- > 0;) {
          if (opens[k]->dict == i)
            opens.erase(opens.begin() + k);
          else if (opens[k]->dict > i)
            --opens[k]->dict;
        }
        dicts.erase(dicts.begin() + i);
      }
      break;
    case HAND: // a graph put together by hand, handed to a dictionary
      keep(new ll::SortedDawg(seeded_graph(st.terms, st.b), std::set<std::string>(st.terms.begin(), st.terms.end()).size()));
      break;
    case NODE: { // leaves of one node, some replaced
      ll::DawgNode n(st.a & 1);
      for (char ch : st.s) n.add_edge(ch, new ll::DawgNode(st.b & 1));
      std::vector<ll::DawgNode *> kids;
      n.for_each_edge([&](char, ll::DawgNode *t) { kids.push_back(t); });
      for (auto *t : kids) delete t;
      break;
    }
    case STATE:
      if (st.a % 3 == 0) sum = sum * 31 + play_state<Algorithm::STANDARD>(st.b * 1000 + st.k);
      else if (st.a % 3 == 1) sum = sum * 31 + play_state<Algorithm::TRANSPOSITION>(st.b * 1000 + st.k);
      else sum = sum * 31 + play_state<Algorithm::MERGE_AND_SPLIT>(st.b * 1000 + st.k);
      break;
    case VALUES: sum = sum * 31 + play_values(st.s, st.t, st.b); break;
    default: break;
    }
    if (opens.size() > 12) opens.erase(opens.begin());
  }
  opens.clear();
  return sum;
}

// trunk: length of a word that is put before the terms and queries of some steps
Plan draw(Ctx &c, size_t max_steps, gen::DictOpt opt, size_t max_trunk) {
  Plan p;
  p.dir = pbt::scratch_dir();
  std::string alpha = gen::alphabet(c);
  Strings seen;
  std::string trunk;
  if (max_trunk) {
    std::string unit = gen::str_of_len(c, alpha, c.range(1, 5));
    size_t len = c.coin() ? c.range(max_trunk / 20, max_trunk) : (size_t)std::min<uint64_t>(max_trunk, (1u << c.range(5, 12)) - c.below(9));
    while (trunk.size() < len) trunk += unit;
    trunk.resize(len);
  }
  size_t n = c.range(1, max_steps);
  for (size_t i = 0; i < n; ++i) {
    Step s;
    s.op = (Op)c.weighted({8, 4, 3, 6, 3, 2, 6, 8, 3, 6, 3, 4, 4, 4, 4, 2, 2, 3, 3, 1, 2, 4, 1, 3, 4, 4, 1, 2, 1});
    if (i == 0 && c.chance(3, 4)) s.op = BUILD;
    s.a = c.below(16);
    s.b = c.below(240);
    s.k = c.below(5);
    if (s.op == BUILD || s.op == BUILD_BAD || s.op == HAND) {
      s.terms = gen::to_vec(gen::term_set(c, alpha, opt));
      if (s.op == BUILD && c.chance(1, 4) && !s.terms.empty()) { // repeated terms
        size_t k = c.below(s.terms.size());
        s.terms.insert(s.terms.begin() + k, s.terms[k]);
      }
      if (seen.size() < 40) seen.insert(seen.end(), s.terms.begin(), s.terms.end());
    }
    s.s = gen::query_for(c, seen, alpha, opt.max_len);
    s.t = c.coin() ? gen::query_for(c, seen, alpha, opt.max_len) : s.s;
    if (s.op == DIST) {
      if (s.s.size() > 8) s.s.resize(8);
      if (s.t.size() > 8) s.t.resize(8);
    }
    if (max_trunk) {
      if (c.coin()) {
        // construction takes time quadratic in the length
        if (trunk.size() > 120 && (s.op == BUILD || s.op == BUILD_BAD)) s.op = HAND;
        for (auto &t : s.terms) t = trunk + t;
      }
      if (trunk.size() > 300 && s.op == BUILDER_ADD) s.op = PASS;
      if (c.coin()) s.s = trunk + s.s;
      if (c.coin()) s.t = trunk + s.t;
      if (s.op == NODE && s.s.size() > 300) s.s.resize(300);
      if (s.op == DIST && s.s.size() + s.t.size() > 300 && (s.s.size() < 9 || s.t.size() < 9)) s.t = s.s;
    }
    if ((s.op == OPEN || s.op == PASS || s.op == UNUSED_RANGE) && s.s.size() < 8 && c.chance(1, 25)) s.k = gen::extreme(c);
    p.steps.push_back(std::move(s));
  }
  c.describe([&] {
    std::string o;
    for (auto &s : p.steps) {
      o += std::string(o.empty() ? "" : "; ") + op_name[s.op] + "#" + std::to_string(s.a) + "/" + std::to_string(s.b);
      if (!s.terms.empty()) o += show(s.terms);
      if (s.op == BUILDER_ADD || s.op == OPEN || s.op == PASS || s.op == UNUSED_RANGE || s.op == FROZEN || s.op == DIST || s.op == NODE)
        o += "(" + show(s.s) + "," + show(s.t) + "," + std::to_string(s.k) + ")";
    }
    return o;
  });
  return p;
}

void history(Ctx &c, size_t max_steps, gen::DictOpt opt, size_t max_trunk = 0) {
  Plan p = draw(c, max_steps, opt, max_trunk);
  std::set<int> kinds;
  for (auto &s : p.steps) kinds.insert(s.op);
  for (int i = 0; i < 3; ++i) unlink((p.dir + "/m" + std::to_string(i)).c_str());
  execute(p);
  // the same plan again, on files as the first execution left them
  size_t before = in_use(), grew = 0, last = before;
  const int rounds = 3;
  for (int r = 0; r < rounds; ++r) {
    execute(p);
    size_t now = in_use();
    if (now > last) ++grew;
    last = now;
    if (!grew) break;
  }
  c.compared();
  if (grew == rounds)
    c.fail("memory is not released: every execution of the history leaves " + std::to_string((last - before) / rounds) + " more bytes allocated");
  for (auto &s : p.steps) c.label(op_name[s.op]);
  if (kinds.size() >= 3) c.nontrivial();
}

Reg r1("C21", "short_history", 60000, 1500000, [](Ctx &c) { history(c, 6, {12, 6}); });
Reg r2("C21", "history", 30000, 800000, [](Ctx &c) { history(c, 30, {30, 8}); });
Reg r3("C21", "long_history", 1500, 40000, [](Ctx &c) { history(c, 150, {60, 10}); });
Reg r4("C21", "long_terms", 8000, 160000, [](Ctx &c) { history(c, 12, {8, 6}, 600); });
Reg r5("C21", "very_long_terms", 1500, 30000, [](Ctx &c) { c.limits = false; history(c, 5, {4, 4}, 2100); });
Reg r6("C21", "many_terms", 1500, 30000, [](Ctx &c) { c.limits = false; history(c, 12, {1500, 8}); });
} // namespace
