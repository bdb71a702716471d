// Generators shared by the properties.  Small choices mean simple values, so
// that shrinking the choice sequence simplifies the case.
#pragma once
#include "engine.h"
#include "model.h"
#include <set>

namespace gen {
using pbt::Ctx;
using Strings = std::vector<std::string>;

inline std::string alphabet(Ctx &c) {
  if (c.limits && c.coin()) { // bytes that are special to someone
    std::string s = "a";
    for (size_t n = c.range(1, 4); n > 0; --n) s += (char)c.below(256);
    return s;
  }
  switch (c.weighted({30, 20, 12, 10, 8, 8, 6, 6})) {
  case 0: return "ab";
  case 1: return "abc";
  case 2: return "abcdef";
  case 3: return "abcdefghijklmnopqrstuvwxyz";
  case 4: { // any byte
    std::string s;
    for (int i = 0; i < 256; ++i) s += (char)((i + 'a') & 255);
    return s;
  }
  case 5: return std::string("\x00\x01\x7f\x80\xff" "a", 6);
  case 6: return std::string("\xc3\xa9\xe2\x82\xac" "e\n", 7);
  default: { // two to four arbitrary bytes
    std::string s;
    size_t n = c.range(2, 4);
    for (size_t i = 0; i < n; ++i) s += (char)c.below(256);
    return s;
  }
  }
}

inline char letter(Ctx &c, const std::string &alpha) { return alpha[c.below(alpha.size())]; }

inline std::string str_of_len(Ctx &c, const std::string &alpha, size_t len) {
  std::string s;
  s.reserve(len);
  for (size_t i = 0; i < len; ++i) s += letter(c, alpha);
  return s;
}

inline std::string str(Ctx &c, const std::string &alpha, size_t maxlen = 10) {
  size_t len;
  if (c.limits && maxlen > 4) {
    if (c.chance(1, 8)) return str_of_len(c, alpha, c.below(81));
    if (c.long_ones < 6 && c.chance(1, 40)) { // strings that agree in a long part
      if (c.trunk.empty()) {
        std::string unit = str_of_len(c, alpha, c.range(1, 5));
        size_t l = (1u << c.range(6, 8)) + 4 - c.below(9);
        while (c.trunk.size() < l) c.trunk += unit;
        c.trunk.resize(l);
      }
      ++c.long_ones;
      std::string s = str_of_len(c, alpha, c.below(4));
      return c.coin() ? c.trunk + s : s + c.trunk;
    }
  }
  switch (c.weighted({6, 3, 1})) {
  case 0: len = c.below(std::min<size_t>(maxlen, 6) + 1); break;
  case 1: len = c.below(maxlen + 1); break;
  default: len = maxlen; break;
  }
  return str_of_len(c, alpha, len);
}

// One random edit operation, of all the kinds the library knows.
inline void edit(Ctx &c, std::string &s, const std::string &alpha) {
  switch (c.below(7)) {
  case 0: // substitute
    if (!s.empty()) {
      size_t i = c.below(s.size());
      s[i] = letter(c, alpha);
      break;
    }
    [[fallthrough]];
  case 1: { // insert
    size_t i = c.below(s.size() + 1);
    s.insert(s.begin() + i, letter(c, alpha));
    break;
  }
  case 2: // delete
    if (!s.empty()) s.erase(c.below(s.size()), 1);
    break;
  case 3: // transpose
    if (s.size() > 1) {
      size_t i = c.below(s.size() - 1);
      std::swap(s[i], s[i + 1]);
    }
    break;
  case 4: // merge
    if (s.size() > 1) {
      size_t i = c.below(s.size() - 1);
      s.erase(i, 1);
      s[i] = letter(c, alpha);
    }
    break;
  case 5: // split
    if (!s.empty()) {
      size_t i = c.below(s.size());
      s[i] = letter(c, alpha);
      s.insert(s.begin() + i, letter(c, alpha));
    }
    break;
  default: // delete a block / duplicate a block
    if (!s.empty()) {
      size_t i = c.below(s.size());
      size_t n = std::min<size_t>(c.range(1, 4), s.size() - i);
      if (c.coin())
        s.erase(i, n);
      else
        s.insert(i, s.substr(i, n));
    }
  }
}

inline std::string mutant(Ctx &c, std::string s, const std::string &alpha, size_t max_edits) {
  size_t n = c.below(max_edits + 1);
  for (size_t i = 0; i < n; ++i) edit(c, s, alpha);
  return s;
}

struct DictOpt {
  size_t max_terms = 60, max_len = 10;
};

// A set of distinct terms (may be empty).
inline std::set<std::string> term_set(Ctx &c, const std::string &alpha, DictOpt o = {}) {
  std::set<std::string> out;
  size_t style = c.weighted({20, 25, 15, 12, 10, 8, 4, 6});
  size_t cap = c.weighted({3, 4, 2}) ;
  size_t n = cap == 0 ? c.below(std::min<size_t>(o.max_terms, 6) + 1)
             : cap == 1 ? c.below(std::min<size_t>(o.max_terms, 25) + 1)
                        : c.below(o.max_terms + 1);
  if (c.limits && o.max_terms > 9 && c.chance(1, 16)) n = c.below(301);
  switch (style) {
  case 0: // unrelated terms
    for (size_t i = 0; i < n; ++i) out.insert(str(c, alpha, o.max_len));
    break;
  case 1: { // relatives of a seed word
    std::string w = str(c, alpha, o.max_len);
    if (w.size() > 100 && o.max_len <= 100) n = std::min<size_t>(n, 6);
    for (size_t i = 0; i < n; ++i) out.insert(mutant(c, w, alpha, 4));
    break;
  }
  case 2: { // prefixes x suffixes: much sharing
    Strings p, q;
    size_t np = c.range(1, 5), nq = c.range(1, 5);
    for (size_t i = 0; i < np; ++i) p.push_back(str(c, alpha, o.max_len / 2));
    for (size_t i = 0; i < nq; ++i) q.push_back(str(c, alpha, o.max_len / 2));
    if (c.long_ones) n = std::min<size_t>(n, 6);
    for (auto &x : p)
      for (auto &y : q)
        if (out.size() < std::max<size_t>(n, 1) && !c.chance(1, 6)) out.insert(x + y);
    break;
  }
  case 3: { // a chain of prefixes of one word
    std::string w = str_of_len(c, alpha, c.below(o.max_len + 3));
    for (size_t i = 0; i <= w.size(); ++i)
      if (c.coin()) out.insert(w.substr(0, i));
    break;
  }
  case 4: { // common suffixes
    std::string w = str_of_len(c, alpha, c.below(o.max_len + 1));
    for (size_t i = 0; i < n; ++i) {
      std::string s = str(c, alpha, 3);
      out.insert(s + (w.empty() ? w : w.substr(c.below(w.size() + 1))));
    }
    break;
  }
  case 5: { // periodic terms
    std::string unit = str_of_len(c, alpha, c.range(1, 3));
    for (size_t i = 0; i < n; ++i) {
      std::string s;
      size_t len = c.below(o.max_len + 3);
      while (s.size() < len) s += unit;
      s.resize(len);
      if (c.chance(1, 3)) edit(c, s, alpha);
      out.insert(s);
    }
    break;
  }
  case 6: { // everything up to a small length
    std::string a = alpha.substr(0, std::min<size_t>(alpha.size(), 3));
    size_t maxlen = c.below(4);
    Strings level{""};
    for (size_t l = 0; l <= maxlen; ++l) {
      Strings next;
      for (auto &s : level) {
        if (!c.chance(1, 8)) out.insert(s);
        for (char ch : a) next.push_back(s + ch);
      }
      level = next;
    }
    break;
  }
  default: { // two families plus the empty term
    std::string w = str(c, alpha, o.max_len), v = str(c, alpha, o.max_len);
    if (c.coin()) out.insert("");
    for (size_t i = 0; i < n; ++i) out.insert(mutant(c, c.coin() ? w : v, alpha, 3));
  }
  }
  return out;
}

inline Strings to_vec(const std::set<std::string> &s) { return Strings(s.begin(), s.end()); }

inline std::string query_for(Ctx &c, const Strings &dict, const std::string &alpha, size_t maxlen = 10) {
  switch (c.weighted({10, 3, 2, 1, 1})) {
  case 0:
    if (!dict.empty()) return mutant(c, dict[c.below(dict.size())], alpha, 5);
    return str(c, alpha, maxlen);
  case 1: return str(c, alpha, maxlen);
  case 2:
    if (!dict.empty()) return dict[c.below(dict.size())];
    return "";
  case 3:
    if (!dict.empty()) {
      std::string s = dict[c.below(dict.size())];
      size_t i = c.below(s.size() + 1);
      return c.coin() ? s.substr(0, i) : s.substr(i);
    }
    return "";
  default: { // a word over bytes the dictionary may not have
    std::string s = str(c, alpha, maxlen);
    if (!s.empty()) s[c.below(s.size())] = (char)c.below(256);
    return s;
  }
  }
}

inline size_t bound(Ctx &c) { return c.weighted({10, 14, 14, 10, 6, 4, 3, 2, 2}); }

inline size_t extreme(Ctx &c) {
  static const size_t v[] = {9,          12,         20,           64,           127,          128,
                             255,        256,        257,          32767,        32768,        65535,
                             65536,      0x7fffffff, 0x80000000ul, 0xffffffff,   0x100000000,  SIZE_MAX / 2 - 1,
                             SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, SIZE_MAX - 2, SIZE_MAX - 1, SIZE_MAX};
  if (c.chance(2, 3)) return v[c.below(sizeof v / sizeof *v)];
  // about a power of two
  return ((size_t)1 << c.range(4, 63)) + c.below(7) - 2;
}

inline Ctx &mix(Ctx &c, const Strings &v) {
  for (auto &s : v) c.mix(s);
  return c;
}

} // namespace gen
