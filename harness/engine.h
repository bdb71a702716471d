// A small choice-sequence property-testing engine.
//
// A test case is a sequence of bounded integers ("choices").  Generators draw
// choices from a Source; in search mode the Source is a PRNG seeded from
// (VERIF_SEED, property, mode, case index) and every draw is recorded, in
// replay mode it is a stored sequence.  Shrinking edits the recorded sequence
// and re-runs the case, so every failure (including crashes and sanitizer
// reports, because cases run in forked workers) shrinks and replays the same
// way.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 0x100000001b3ULL;
  }
  return h;
}

// Shared memory in which a replayed case leaves its choices and description,
// so that they survive a crash.
struct Mirror {
  static constexpr uint64_t CAP = 1 << 18, DCAP = 1 << 16;
  volatile uint64_t n, dn;
  uint64_t v[CAP];
  char d[DCAP];
};

class Source {
public:
  explicit Source(uint64_t seed) : _state(seed) {}
  Source(std::vector<uint64_t> in) : _replay(true), _in(std::move(in)) {}

  // Uniform in [0, n); n == 0 means the full 64-bit range.  What is drawn stands
  // for base more than that.
  uint64_t below(uint64_t n, uint64_t base = 0) {
    uint64_t v;
    if (_pos < _forced.size()) {
      v = _forced[_pos];
    } else if (_replay) {
      v = _pos < _in.size() ? _in[_pos] : 0;
    } else {
      v = splitmix(_state);
      if (_focus && n > 8) near_limit(v, n, base);
    }
    if (n != 0 && v >= n) {
      v %= n;
    }
    ++_pos;
    _rec.push_back(v);
    if (_mirror && _mirror->n < Mirror::CAP) {
      _mirror->v[_mirror->n] = v;
      _mirror->n = _mirror->n + 1;
    }
    return v;
  }
  // Draws often end up at or next to one of these numbers.
  void focus(const std::vector<uint64_t> *limits) { _focus = limits; }
  void mirror(Mirror *m) { _mirror = m; }
  void force(std::vector<uint64_t> f) { _forced = std::move(f); }
  const std::vector<uint64_t> &recorded() const { return _rec; }

private:
  void near_limit(uint64_t &v, uint64_t n, uint64_t base) {
    uint64_t r = splitmix(_state);
    if (r % 4) return;
    for (int k = 0; k < 6; ++k) {
      r = splitmix(_state);
      uint64_t x = (*_focus)[r % _focus->size()] + (r >> 40) % 3 - 1;
      if (x >= base && x - base < n) {
        v = x - base;
        return;
      }
    }
  }
  const std::vector<uint64_t> *_focus = nullptr;
  uint64_t _state = 0;
  bool _replay = false;
  std::vector<uint64_t> _in, _forced, _rec;
  size_t _pos = 0;
  Mirror *_mirror = nullptr;
};

// What one case (or a whole worker) has seen.
struct Stats {
  uint64_t cases = 0, nontrivial = 0, comparisons = 0;
  double slowest = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
};

class Ctx {
public:
  Ctx(Source &s, Stats &st) : src(s), stats(st) {}

  // --- drawing -----------------------------------------------------------
  uint64_t below(uint64_t n) { return src.below(n); }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + src.below(hi - lo + 1, lo); }
  bool chance(uint64_t num, uint64_t den) { return src.below(den) >= den - num; }
  bool coin() { return src.below(2) == 1; }
  // index drawn with the given weights; smaller indices shrink first
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t total = 0;
    for (unsigned x : w) total += x;
    uint64_t v = src.below(total);
    size_t i = 0;
    for (unsigned x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  template <class C> auto &pick(C &c) { return c[src.below(c.size())]; }

  // --- bookkeeping -------------------------------------------------------
  void nontrivial() { _nontrivial = true; }
  void label(const std::string &l) { ++stats.labels[l]; }
  void compared(uint64_t n = 1) { stats.comparisons += n; }
  void mix(const std::string &s) { mixed = true; key = fnv(s.data(), s.size(), key * 31 + s.size()); }
  void mix(uint64_t v) { mixed = true; key = fnv(&v, sizeof v, key); }
  template <class F> void describe(F f) {
    if (!want_desc) return;
    desc += f();
    if (mirror) {
      uint64_t k = desc.size() < Mirror::DCAP ? desc.size() : Mirror::DCAP;
      memcpy(mirror->d, desc.data(), k);
      mirror->dn = k;
    }
  }
  [[noreturn]] void fail(const std::string &msg) { throw Failure(msg); }
  void check(bool ok, const char *msg) {
    ++stats.comparisons;
    if (!ok) fail(msg);
  }
  template <class F> void check(bool ok, F f) {
    ++stats.comparisons;
    if (!ok) fail(f());
  }

  Source &src;
  Stats &stats;
  bool want_desc = false;
  Mirror *mirror = nullptr;
  std::string desc;
  uint64_t key = 0xcbf29ce484222325ULL;
  bool mixed = false; // a case that mixes nothing is identified by its choices
  bool is_nontrivial() const { return _nontrivial; }
  bool thorough = false;
  bool limits = false; // numbers and characters near limits are wanted
  std::string trunk;   // ... and a few strings that share this
  size_t long_ones = 0;

private:
  bool _nontrivial = false;
};

struct Mode {
  std::string prop, name;
  bool enumerated = false; // case i forces the first choice to i; N is the size of the space
  uint64_t quick = 0, thorough = 0;
  std::function<void(Ctx &)> fn;
  unsigned asan_div = 0; // 0: default divisor from the command line
  bool limits = false;   // draws near limits (see add_limit_modes)
};

// Registration (static initialisers in props_*.cpp)
constexpr unsigned PLAIN_ONLY = ~0u; // too slow under a sanitizer

struct Reg {
  // random cases
  Reg(const char *prop, const char *name, uint64_t quick, uint64_t thorough,
      std::function<void(Ctx &)> fn, unsigned asan_div = 0);
};
struct RegEnum {
  // enumerated cases: fn receives ctx whose first below(N) returns the index
  RegEnum(const char *prop, const char *name, uint64_t quick, uint64_t thorough,
          std::function<void(Ctx &)> fn, unsigned asan_div = 0);
};

std::string show(const std::string &s);              // quoted, escaped
std::string show(const std::vector<std::string> &v); // list of quoted strings

const std::string &scratch_dir(); // private to this process, removed at the end
extern std::map<std::string, std::string> options; // --set key=value

} // namespace pbt
