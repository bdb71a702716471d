// C09 (round trip), C10 (success only if stored completely), C11 (damaged data).
#include "graphs.h"
#include "liblevenshtein/serialization/serializer.h"
#include "query.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <grp.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace lib;
using pbt::Reg;
using pbt::RegEnum;
using pbt::show;
namespace stdfs = std::filesystem;

namespace {

std::string bytes_of(Ctx &c, ll::Dawg *d) {
  std::ostringstream s;
  c.check(ll::serialize_protobuf(d, s), "saving to a stream failed");
  return s.str();
}
DawgPtr load_bytes(const std::string &b) {
  std::istringstream s(b);
  return DawgPtr(ll::deserialize_protobuf(s));
}
std::string fresh_path() {
  static size_t n = 0;
  return pbt::scratch_dir() + "/f" + std::to_string(n++ % 4);
}
std::string read_file(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void write_file(const std::string &p, const std::string &b) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << b;
}

// ---------------------------------------------------------------- C09
bool save_path(ll::Dawg *d, const std::string &p, size_t how) {
  switch (how) {
  case 0: return ll::serialize_protobuf(d, p);
  case 1: return ll::serialize_protobuf(d, p.c_str());
  default: return ll::serialize_protobuf(d, stdfs::path(p));
  }
}
ll::Dawg *load_path(const std::string &p, size_t how) {
  switch (how) {
  case 0: return ll::deserialize_protobuf(p);
  case 1: return ll::deserialize_protobuf(p.c_str());
  default: return ll::deserialize_protobuf(stdfs::path(p));
  }
}

void same_dictionary(Ctx &c, ll::Dawg &d, ll::Dawg &e, const std::set<std::string> &set, const std::string &alpha) {
  Strings dict = gen::to_vec(set);
  check_contents(c, e, set, "loaded dictionary");
  c.check(e == d && d == e, "the loaded dictionary is not equal to the original");
  c.check(std::hash<ll::Dawg>()(d) == std::hash<ll::Dawg>()(e), "the loaded dictionary has another hash code");
  c.check(inspect(d.root()).nodes == inspect(e.root()).nodes, "the loaded dictionary has another number of nodes");
  for (int i = 0; i < 2; ++i) {
    std::string q = gen::query_for(c, dict, alpha, 8);
    if (q.size() > 12) q.resize(12);
    c.check(d.contains(q) == e.contains(q), [&] { return "membership of " + show(q) + " differs after loading"; });
    int a = (int)c.below(3);
    size_t n = c.below(4);
    Results r1 = query(c, a, d.root(), q, n, true, dict.size()), r2 = query(c, a, e.root(), q, n, true, dict.size());
    std::sort(r1.begin(), r1.end());
    std::sort(r2.begin(), r2.end());
    c.check(r1 == r2, [&] { return std::string(model::algo_name(a)) + "(" + show(q) + ", " + std::to_string(n) + ") differs after loading"; });
  }
}

struct InDirectory {
  int before;
  explicit InDirectory(const std::string &d) : before(open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC)) {
    if (chdir(d.c_str()) != 0) throw pbt::Failure("harness: chdir");
  }
  ~InDirectory() {
    if (before >= 0) {
      if (fchdir(before) != 0) {}
      close(before);
    }
  }
};

void round_trip(Ctx &c, std::set<std::string> set, const std::string &alpha, size_t min_gens = 1, size_t max_gens = 3) {
  Strings dict = gen::to_vec(set);
  DawgPtr d = must_build(c, dict);
  size_t nodes = inspect(d->root()).nodes;
  size_t gens = c.range(min_gens, max_gens);
  ll::Dawg *cur = d.get();
  std::vector<DawgPtr> keep;
  for (size_t g = 0; g < gens; ++g) {
    DawgPtr e;
    if (c.chance(1, 6)) {
      c.describe([&] { return "; through a message"; });
      std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(cur));
      c.check((bool)m, "no message of a dictionary");
      e.reset(ll::from_protobuf(*m));
      if (c.coin()) { // again, after the message was copied and the first dictionary discarded
        llp::Dictionary copy(*m);
        m.reset();
        e.reset();
        e.reset(ll::from_protobuf(copy));
      }
    } else if (c.below(3) == 0) {
      c.describe([&] { return "; through a stream"; });
      std::string b = bytes_of(c, cur);
      e = load_bytes(b);
      // a stream positioned in the middle of other data
      if (c.chance(1, 5)) {
        std::string pre = gen::str(c, alpha, 8);
        std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
        s << pre;
        c.check(ll::serialize_protobuf(cur, s), "saving to a stream failed");
        s.seekg((std::streamoff)pre.size());
        DawgPtr e2(ll::deserialize_protobuf(s));
        c.check(e2 && *e2 == *d, "round trip at an offset within a stream");
      }
    } else {
      size_t how = c.below(3), how2 = c.below(3);
      std::string p = fresh_path();
      size_t name = c.below(11);
      InDirectory here(pbt::scratch_dir());
      if (name == 3 || name == 4) { // any name
        size_t l = name == 3 ? c.range(1, 20) : c.range(100, 255);
        std::string any;
        for (size_t i = 0; i < l; ++i) any += (char)(c.coin() ? c.below(256) : 'a' + c.below(26));
        for (auto &ch : any)
          if (ch == '/' || ch == '\0') ch = '_';
        if (any == "." || any == "..") any += "x";
        p = pbt::scratch_dir() + "/" + any;
      }
      if (name == 5) { // far down
        p = pbt::scratch_dir();
        size_t depth = c.range(1, 12);
        for (size_t i = 0; i < depth; ++i) mkdir((p += "/" + std::string(100, 'd')).c_str(), 0700);
        p += "/x";
      }
      if (name == 6) { // not in its simplest form
        mkdir((pbt::scratch_dir() + "/sub.d").c_str(), 0700);
        p = pbt::scratch_dir() + "/./sub.d//../sub.d/x.pb.tmp~";
      }
      if (name == 7) { // a symbolic link
        p = pbt::scratch_dir() + "/link";
        unlink(p.c_str());
        if (symlink("target", p.c_str()) != 0) c.fail("harness: symlink");
      }
      if (name == 8) // from the working directory
        p = c.coin() ? "relative" : "./.relative";
      if (name == 9) { // up from where a link leads
        for (const char *sub : {"/up", "/up/down", "/up/down/deep"}) mkdir((pbt::scratch_dir() + sub).c_str(), 0700);
        if (symlink("up/down/deep", (pbt::scratch_dir() + "/shortcut").c_str()) != 0 && errno != EEXIST) c.fail("harness: symlink");
        p = pbt::scratch_dir() + "/shortcut/../x";
      }
      if (name == 1) p += " with space \xc3\xa9.bin";
      if (name == 2) { // an existing subdirectory
        std::string sub = pbt::scratch_dir() + "/sub.d";
        mkdir(sub.c_str(), 0700);
        p = sub + "/x";
      }
      size_t pre = c.below(3);
      if (pre == 0)
        unlink((name == 7 ? pbt::scratch_dir() + "/target" : p).c_str());
      else if (pre == 1) // a longer file is already there
        write_file(p, std::string(c.range(1, 6000), (char)c.below(256)));
      else { // an older dictionary is already there
        DawgPtr o = must_build(c, gen::term_set(c, alpha, {60, 8}));
        c.check(save_path(o.get(), p, how), "saving to a path failed");
      }
      c.describe([&] { return "; through " + show(p) + " entry points " + std::to_string(how) + "/" + std::to_string(how2) + " existing " + std::to_string(pre); });
      c.check(save_path(cur, p, how), "saving to a writable path failed");
      e.reset(load_path(p, how2));
      c.check((bool)e, "loading the saved file failed");
      if (c.coin()) { // the same file again, and through a stream
        DawgPtr e2(load_path(p, c.below(3)));
        c.check(e2 && *e2 == *d, "loading the same file again gives another dictionary");
        std::ifstream f(p, std::ios::binary);
        DawgPtr e3(ll::deserialize_protobuf(f));
        c.check(e3 && *e3 == *d, "loading the file through a stream gives another dictionary");
      }
      if (name == 7) unlink((pbt::scratch_dir() + "/target").c_str());
      unlink(p.c_str());
    }
    c.check((bool)e, "loading what was saved yields no dictionary");
    same_dictionary(c, *d, *e, set, alpha);
    if (keep.size() > 4) keep.erase(keep.begin());
    keep.push_back(std::move(e));
    cur = keep.back().get();
  }
  check_contents(c, *d, set, "the saved dictionary itself");
  c.check(inspect(d->root()).nodes == nodes, "saving changed the number of nodes");
  if (dict.size() >= 2) c.nontrivial();
  gen::mix(c, dict);
  c.mix(gens);
}

void rt_small(Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {60, 8});
  c.describe([&] { return "dictionary " + show(gen::to_vec(set)); });
  round_trip(c, set, alpha);
}
void rt_big(Ctx &c, bool huge) {
  std::string alpha = huge ? "abcdefghijklmnopqrstuvwxyz" : c.coin() ? "abcdefghij" : gen::alphabet(c);
  std::set<std::string> set;
  size_t k = huge ? c.range(66000, 80000) : c.range(500, 5000);
  uint64_t s = c.below(0);
  for (size_t i = 0; huge ? set.size() < k : i < k; ++i) {
    std::string t;
    size_t len = pbt::splitmix(s) % 11;
    for (size_t j = 0; j < len; ++j) t += alpha[pbt::splitmix(s) % alpha.size()];
    set.insert(t);
  }
  c.describe([&] { return "dictionary of " + std::to_string(set.size()) + " terms"; });
  if (!huge) return round_trip(c, set, alpha);
  Strings v = gen::to_vec(set);
  DawgPtr d = must_build(c, v);
  std::stringstream f(std::ios::in | std::ios::out | std::ios::binary);
  c.check(ll::serialize_protobuf(d.get(), f), "saving a large dictionary failed");
  DawgPtr e(ll::deserialize_protobuf(f));
  c.check((bool)e, "loading a large dictionary failed");
  c.check(e->size() == v.size(), "a large dictionary is loaded with another size");
  for (auto &t : v) c.check(e->contains(t), [&] { return "a large dictionary is loaded without " + show(t); });
  c.check(*d == *e && std::hash<ll::Dawg>()(*d) == std::hash<ll::Dawg>()(*e), "a large dictionary differs once loaded");
  c.nontrivial();
}
// every byte value as a label, alone and in combination
void rt_labels(Ctx &c) {
  size_t x = c.below(256);
  std::set<std::string> set{std::string(1, (char)x), std::string("p") + (char)x, std::string(1, (char)x) + "q" + (char)(x ^ 0x80)};
  if (x & 1) set.insert("");
  c.describe([&] { return show(gen::to_vec(set)); });
  round_trip(c, set, std::string(1, (char)x) + "pq");
  c.nontrivial();
}
void rt_missing(Ctx &c) {
  std::string p = pbt::scratch_dir() + "/missing" + std::to_string(c.below(1000));
  unlink(p.c_str());
  size_t how = c.below(3), what = c.below(4);
  std::string target = what == 0 ? p : what == 1 ? pbt::scratch_dir() : what == 2 ? p + "/below" : "";
  c.describe([&] { return "load from " + std::string(what == 0 ? "missing file" : what == 1 ? "directory" : what == 2 ? "missing directory" : "empty path"); });
  DawgPtr d(load_path(target, how));
  c.check(!d, "loading from a path without a readable file yields a dictionary");
  struct stat st;
  c.check(stat(p.c_str(), &st) != 0, "loading created a file");
  c.nontrivial();
  c.mix(what * 3 + how);
}

void rt_long(Ctx &c) {
  auto set = long_terms(c, 60000, 140000);
  c.describe([&] { return lengths(set); });
  ll::SortedDawg d(plain_trie(set), set.size());
  std::stringstream f(std::ios::in | std::ios::out | std::ios::binary);
  c.check(ll::serialize_protobuf(&d, f), "saving very long terms failed");
  DawgPtr e(ll::deserialize_protobuf(f));
  c.check((bool)e, "loading very long terms failed");
  check_contents(c, *e, set, "very long terms, loaded");
  c.check(d == *e && std::hash<ll::Dawg>()(d) == std::hash<ll::Dawg>()(*e), "a dictionary of very long terms differs once loaded");
  c.check(inspect(d.root()).nodes == inspect(e->root()).nodes, "a dictionary of very long terms is loaded with another number of nodes");
  c.nontrivial();
  for (auto &t : set) c.mix(t);
}

Reg c09f("C09", "very_long_terms", 16, 300, rt_long, pbt::PLAIN_ONLY);
Reg c09a("C09", "generated_dictionaries", 20000, 600000, rt_small);
Reg c09g("C09", "many_generations", 200, 5000, [](Ctx &c) {
  std::string alpha = gen::alphabet(c);
  auto set = gen::term_set(c, alpha, {12, 6});
  c.describe([&] { return "dictionary " + show(gen::to_vec(set)); });
  round_trip(c, set, alpha, 20, 300);
});
Reg c09b("C09", "many_terms", 60, 1500, [](Ctx &c) { rt_big(c, false); });
Reg c09e("C09", "over_65536_terms", 8, 80, [](Ctx &c) { rt_big(c, true); }, pbt::PLAIN_ONLY);
RegEnum c09c("C09", "every_label", 256, 256, rt_labels, 4);
Reg c09d("C09", "unreadable_paths", 200, 1000, rt_missing);

// ---------------------------------------------------------------- C10
// Accepts `limit` bytes and then fails, in one of several ways.
struct Failing : std::streambuf {
  size_t limit;
  int style; // 0 short count, 1 exception, 2 tiny buffer with overflow
  std::string got;
  std::vector<char> buf;
  Failing(size_t l, int s) : limit(l), style(s), buf(7) {
    if (style == 2) setp(buf.data(), buf.data() + buf.size());
  }
  bool room(size_t n) const { return got.size() + n <= limit; }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    if (style == 2) return std::streambuf::xsputn(s, n);
    size_t k = std::min<size_t>((size_t)n, limit - got.size());
    got.append(s, k);
    if (k < (size_t)n && style == 1) throw std::runtime_error("device failed");
    return (std::streamsize)k;
  }
  int flush_buf() {
    size_t n = pptr() - pbase();
    size_t k = std::min(n, limit - got.size());
    got.append(pbase(), k);
    setp(buf.data(), buf.data() + buf.size());
    return k < n ? -1 : 0;
  }
  int_type overflow(int_type ch) override {
    if (style == 2) {
      if (flush_buf() != 0) return traits_type::eof();
      if (!traits_type::eq_int_type(ch, traits_type::eof())) sputc(traits_type::to_char_type(ch));
      return traits_type::not_eof(ch);
    }
    if (!room(1)) {
      if (style == 1) throw std::runtime_error("device failed");
      return traits_type::eof();
    }
    got += traits_type::to_char_type(ch);
    return ch;
  }
  int sync() override { return style == 2 ? flush_buf() : 0; }
};

struct Dict10 {
  std::string alpha;
  std::set<std::string> set;
  DawgPtr d;
  std::string bytes;
};
Dict10 dict10(Ctx &c, gen::DictOpt o) {
  Dict10 x;
  x.alpha = gen::alphabet(c);
  x.set = gen::term_set(c, x.alpha, o);
  c.describe([&] { return "dictionary " + show(gen::to_vec(x.set)); });
  x.d = must_build(c, x.set);
  x.bytes = bytes_of(c, x.d.get());
  gen::mix(c, gen::to_vec(x.set));
  return x;
}

// the destination fails after k bytes, for every k
void w_stream(Ctx &c) {
  c.limits = false; // its own numbers are large enough
  Dict10 x = dict10(c, {12, 6});
  int style = (int)c.below(3);
  c.describe([&] { return "; stream failing (style " + std::to_string(style) + ") after every byte count up to " + std::to_string(x.bytes.size()); });
  size_t N = x.bytes.size();
  for (size_t k = 0; k <= N + 1; ++k) {
    Failing buf(k, style);
    std::ostream out(&buf);
    bool ok = ll::serialize_protobuf(x.d.get(), out);
    if (style == 2) {
      // what the stream still buffers counts as handed over only if flushing works
      if (k < N) {
        bool flushed = !out.flush().fail();
        c.check(!(ok && flushed), [&] { return "saving reports success although the stream failed after " + std::to_string(k) + " of " + std::to_string(N) + " bytes"; });
        continue;
      }
      out.flush();
    }
    if (k < N)
      c.check(!ok, [&] { return "saving reports success although the stream failed after " + std::to_string(k) + " of " + std::to_string(N) + " bytes"; });
    else {
      c.check(ok, "saving reports failure although nothing failed");
      c.check(buf.got.size() == N, "saving reports success with another number of bytes");
      DawgPtr e = load_bytes(buf.got);
      c.check(e && *e == *x.d, "what was stored successfully does not load as an equal dictionary");
    }
    c.label("write fault offsets");
  }
  // a stream that has failed before
  std::ostringstream bad;
  bad.setstate(c.coin() ? std::ios::badbit : std::ios::failbit);
  c.check(!ll::serialize_protobuf(x.d.get(), bad), "saving to a stream in a failed state reports success");
  check_contents(c, *x.d, x.set, "after failed saves");
  c.nontrivial();
}

struct FileLimit {
  rlimit old;
  void (*handler)(int);
  explicit FileLimit(size_t n) {
    handler = signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit r = old;
    r.rlim_cur = n;
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~FileLimit() {
    setrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, handler);
  }
};

// the file may not grow beyond k bytes
void w_file(Ctx &c, bool big) {
  Dict10 x;
  if (big) {
    // several file buffers long
    x.alpha = "abcdefghij";
    uint64_t s = c.below(0);
    size_t n = c.range(400, 1500);
    for (size_t i = 0; i < n; ++i) {
      std::string t;
      size_t len = 3 + pbt::splitmix(s) % 8;
      for (size_t j = 0; j < len; ++j) t += x.alpha[pbt::splitmix(s) % 10];
      x.set.insert(t);
    }
    x.d = must_build(c, x.set);
    x.bytes = bytes_of(c, x.d.get());
    c.describe([&] { return "dictionary of " + std::to_string(x.set.size()) + " terms"; });
    gen::mix(c, gen::to_vec(x.set));
  } else
    x = dict10(c, {30, 8});
  size_t N = x.bytes.size();
  std::string p = fresh_path();
  size_t how = c.below(3);
  size_t tries = big ? 6 : 12;
  for (size_t i = 0; i < tries; ++i) {
    size_t k;
    switch (c.below(5)) {
    case 0: k = N - 1; break;
    case 1: k = N; break;
    case 2: k = N - 1 - std::min<size_t>(N - 1, c.below(20)); break;
    case 3: k = c.below(3); break;
    default: k = c.below(N + 5);
    }
    if (i == 0) k = N - 1;
    if (c.coin()) unlink(p.c_str());
    struct stat st;
    bool existed = stat(p.c_str(), &st) == 0; // an earlier try's complete file may be kept
    c.describe([&] { return "; file limited to " + std::to_string(k) + " of " + std::to_string(N) + " bytes"; });
    bool ok;
    {
      FileLimit lim(k);
      ok = save_path(x.d.get(), p, how);
    }
    size_t size = read_file(p).size();
    if (k < N)
      c.check(!ok, [&] { return "saving to a path reports success although only " + std::to_string(size) + " of " + std::to_string(N) + " bytes could be written"; });
    else
      c.check(ok, "saving to a path reports failure although everything fits");
    DawgPtr e(load_path(p, c.below(3)));
    if (ok)
      c.check(e && *e == *x.d, "reported success, but the file does not load as an equal dictionary");
    else
      c.check(!e || (existed && *e == *x.d), "a torn file loads as a dictionary");
    c.label("file size limits");
    c.mix(k);
  }
  unlink(p.c_str());
  check_contents(c, *x.d, x.set, "after failed saves");
  c.nontrivial();
}

// Runs f in a child that has no privileges, so that whatever f does cannot
// reach more than the scratch directory and what everyone may write to.
// Returns what f returns (0 to 99), or 100 if there is no such child.
template <class F> int as_nobody(F f) {
  pid_t pid = fork();
  if (pid < 0) return 100;
  if (pid == 0) {
    int rc = 100;
    if (setgroups(0, nullptr) == 0 && setresgid(65534, 65534, 65534) == 0 && setresuid(65534, 65534, 65534) == 0 && geteuid() == 65534) {
      try {
        rc = f();
      } catch (...) {
        rc = 99;
      }
    }
    _exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
}

// destinations that an ordinary user cannot write to, as an ordinary user
void w_forbidden(Ctx &c) {
  Dict10 x = dict10(c, {10, 6});
  size_t how = c.below(3), what = c.below(4);
  // a directory of its own that only root may change
  std::string dir = pbt::scratch_dir() + "/forbidden";
  mkdir(dir.c_str(), 0755);
  chmod(pbt::scratch_dir().c_str(), 0755);
  std::string p;
  switch (what) {
  case 0: p = "/dev/full"; break;
  case 1: p = dir + "/new"; break;
  case 2:
  default:
    p = dir + "/old";
    std::ofstream(p) << "old";
    if (what == 2) chmod(p.c_str(), 0444);
    else chmod(p.c_str(), 0666); // can be written to, but not replaced
    break;
  }
  struct stat st;
  bool usable = what != 0 || (stat(p.c_str(), &st) == 0 && S_ISCHR(st.st_mode));
  c.describe([&] { return "; saving to " + show(p) + " as an ordinary user"; });
  int rc = !usable ? 100 : as_nobody([&] {
    if (!save_path(x.d.get(), p, how)) return 0;
    if (what == 0) return 2; // cannot be read back
    DawgPtr e(load_path(p, 0));
    return e && *e == *x.d ? 1 : 2;
  });
  unlink((dir + "/old").c_str());
  unlink((dir + "/new").c_str());
  if (rc == 100) {
    c.label("no unprivileged child");
    return;
  }
  c.label("as an ordinary user");
  c.check(rc < 98, [&] { return "saving to " + show(p) + " as an ordinary user ends the process (" + std::to_string(rc) + ")"; });
  c.check(rc != 2, [&] { return "saving to " + show(p) + " reports success, but stored no equal dictionary"; });
  if (what < 3)
    c.check(rc == 0, [&] { return "saving to " + show(p) + " reports success although it cannot be written"; });
  check_contents(c, *x.d, x.set, "after a failed save");
  c.nontrivial();
  c.mix(what);
  c.mix(how);
}

// destinations that cannot take the data at all
void w_path(Ctx &c) {
  Dict10 x = dict10(c, {10, 6});
  InDirectory here(pbt::scratch_dir());
  size_t how = c.below(3), what = c.range(1, 3);
  std::string p;
  switch (what) {
  case 1: p = pbt::scratch_dir() + "/no-such-directory/file"; break;
  case 2: p = pbt::scratch_dir(); break;
  default: p = ""; break;
  }
  c.describe([&] { return "; saving to " + show(what == 2 ? "a directory" : p); });
  bool ok = save_path(x.d.get(), p, how);
  c.check(!ok, [&] { return "saving to " + show(p) + " reports success"; });
  check_contents(c, *x.d, x.set, "after a failed save");
  c.nontrivial();
  c.mix(what);
  c.mix(how);
}

// Reading fails after k bytes.
struct BadSource : std::streambuf {
  std::string data;
  size_t limit, chunk, pos = 0;
  int style; // 0 exception, 1 end of data
  BadSource(std::string d, size_t l, size_t ch, int s) : data(std::move(d)), limit(l), chunk(ch), style(s) {}
  int_type underflow() override {
    if (pos >= limit) {
      if (style == 0) throw std::runtime_error("read failed");
      return traits_type::eof();
    }
    size_t n = std::min(chunk, limit - pos);
    setg(&data[pos], &data[pos], &data[pos] + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
};

void r_fault(Ctx &c) {
  c.limits = false; // its own numbers are large enough
  Dict10 x = dict10(c, {12, 6});
  size_t N = x.bytes.size();
  size_t chunk = c.range(1, 40);
  c.describe([&] { return "; reads of " + std::to_string(chunk) + " bytes failing after every byte count up to " + std::to_string(N); });
  for (size_t k = 0; k <= N; ++k)
    for (int style = 0; style < 2; ++style) {
      BadSource b(x.bytes, k, chunk, style);
      std::istream in(&b);
      DawgPtr e(ll::deserialize_protobuf(in));
      if (k < N || style == 0)
        c.check(!e, [&] { return "a read that failed after " + std::to_string(k) + " of " + std::to_string(N) + " bytes yields a dictionary"; });
      else
        c.check(e && *e == *x.d, "a complete read in pieces does not yield the dictionary");
      c.label("read fault offsets");
    }
  c.nontrivial();
}

Reg c10a("C10", "stream_fails_at_every_byte", 1500, 40000, w_stream);
Reg c10b("C10", "file_size_limit", 1500, 40000, [](Ctx &c) { w_file(c, false); });
Reg c10c("C10", "file_size_limit_large", 60, 1500, [](Ctx &c) { w_file(c, true); });
Reg c10d("C10", "unusable_destinations", 300, 3000, w_path);
Reg c10f("C10", "forbidden_destinations", 300, 3000, w_forbidden);
Reg c10e("C10", "read_fails_at_every_byte", 1000, 30000, r_fault);

// ---------------------------------------------------------------- C11
// Canonical stored form with small ids, so that cases replay at any address.
llp::Dictionary canonical(Ctx &c, ll::Dawg *d) {
  std::unique_ptr<llp::Dictionary> p(ll::to_protobuf(d));
  std::map<uint64_t, uint64_t> id;
  // ids by position in a traversal from the root
  std::map<uint64_t, std::map<unsigned char, uint64_t>> kids;
  for (auto &e : p->edge()) kids[e.source_id()][(unsigned char)e.label()] = e.target_id();
  std::vector<uint64_t> todo{p->root_id()};
  id[p->root_id()] = 1;
  for (size_t i = 0; i < todo.size(); ++i)
    for (auto &[l, t] : kids[todo[i]])
      if (id.emplace(t, id.size() + 1).second) todo.push_back(t);
  llp::Dictionary q;
  std::set<uint64_t> fin(p->final_node_id().begin(), p->final_node_id().end());
  for (uint64_t n : todo) q.add_node_id(id[n]);
  for (uint64_t n : todo)
    if (fin.count(n)) q.add_final_node_id(id[n]);
  for (uint64_t n : todo)
    for (auto &[l, t] : kids[n]) {
      auto *e = q.add_edge();
      e->set_source_id(id[n]);
      e->set_label(l);
      e->set_target_id(id[t]);
    }
  q.set_root_id(1);
  q.set_size(p->size());
  return q;
}

// Whatever was loaded must be sound.
void sound(Ctx &c, DawgPtr d, bool *loaded = nullptr) {
  if (loaded) *loaded = (bool)d;
  if (!d) {
    c.label("rejected");
    return;
  }
  c.label("accepted");
  c.check(d->root() != nullptr, "a loaded dictionary has no root");
  Graph g = inspect(d->root());
  c.check(g.acyclic, "a loaded dictionary has a cyclic graph");
  if (d->size() > 4000 || g.nodes > 4000) {
    // too many terms to list: count them along the graph instead
    std::map<const ll::DawgNode *, unsigned __int128> count;
    for (auto *n : g.order) {
      unsigned __int128 k = n->is_final();
      n->for_each_edge([&](char, ll::DawgNode *t) { k += count[t]; });
      if (k > ((unsigned __int128)1 << 100)) k = (unsigned __int128)1 << 100;
      count[n] = k;
    }
    c.check(count[d->root()] == d->size(), "size() of a loaded dictionary is not the number of its terms");
    std::ostringstream s;
    c.check(ll::serialize_protobuf(d.get(), s), "a loaded dictionary cannot be saved");
    d.reset();
    c.label("accepted, huge");
    return;
  }
  Strings it = iterate(c, *d, d->size() + 1);
  std::set<std::string> set(it.begin(), it.end());
  c.check(set.size() == it.size(), "iteration over a loaded dictionary repeats a term");
  c.check(it.size() == d->size(), "size() of a loaded dictionary differs from what iteration yields");
  // the terms the graph accepts, by walking it
  {
    std::vector<std::pair<const ll::DawgNode *, std::string>> todo{{d->root(), ""}};
    std::set<std::string> walk;
    size_t steps = 0;
    while (!todo.empty() && ++steps < 200000) {
      auto [n, s] = todo.back();
      todo.pop_back();
      if (n->is_final()) walk.insert(s);
      n->for_each_edge([&, s = s](char l, ll::DawgNode *t) { todo.emplace_back(t, s + l); });
    }
    if (steps < 200000) c.check(walk == set, "iteration over a loaded dictionary does not yield what its graph accepts");
  }
  for (auto &t : set) c.check(d->contains(t), [&] { return "a loaded dictionary does not contain its own term " + show(t); });
  Strings dict = gen::to_vec(set);
  std::string q = dict.empty() ? "ab" : dict[c.below(dict.size())];
  if (q.size() > 10) q.resize(10);
  bool small = true;
  for (auto &t : dict) small = small && t.size() <= 60;
  if (small) {
    int a = (int)c.below(3);
    judge(c, a, dict, q, 1, query(c, a, d->root(), q, 1, true, dict.size()), true, "query on a loaded dictionary");
  }
  c.check(*d == *d, "a loaded dictionary is not equal to itself");
  std::string b = bytes_of(c, d.get());
  DawgPtr e = load_bytes(b);
  c.check(e && *e == *d, "a loaded dictionary does not survive saving and loading");
}

void t_truncate(Ctx &c) {
  Dict10 x = dict10(c, {12, 6});
  bool canon = c.coin();
  std::string b = canon ? canonical(c, x.d.get()).SerializeAsString() : x.bytes;
  c.describe([&] { return "; every proper prefix of " + std::to_string(b.size()) + " bytes"; });
  for (size_t k = 0; k < b.size(); ++k) {
    DawgPtr e = load_bytes(b.substr(0, k));
    c.check(!e, [&] { return "a prefix of " + std::to_string(k) + " of " + std::to_string(b.size()) + " bytes is accepted"; });
  }
  DawgPtr e = load_bytes(b);
  c.check(e && *e == *x.d, "the complete bytes are not accepted");
  c.label("prefixes tried");
  std::string p = fresh_path();
  size_t k = c.below(b.size());
  write_file(p, b.substr(0, k));
  c.check(!DawgPtr(load_path(p, c.below(3))), [&] { return "a file torn after " + std::to_string(k) + " of " + std::to_string(b.size()) + " bytes is accepted"; });
  unlink(p.c_str());
  c.nontrivial();
}

// single and multiple byte damage of the canonical form
void t_bytes(Ctx &c) {
  Dict10 x = dict10(c, {10, 5});
  std::string b = canonical(c, x.d.get()).SerializeAsString();
  std::string damaged = b;
  size_t k = c.weighted({0, 6, 2, 1, 1});
  for (size_t i = 0; i < k; ++i) {
    size_t at = damaged.empty() ? 0 : c.below(damaged.size());
    switch (c.below(5)) {
    case 0:
      if (!damaged.empty()) damaged[at] = (char)(damaged[at] ^ (1 << c.below(8)));
      break;
    case 1:
      if (!damaged.empty()) damaged[at] = (char)c.below(256);
      break;
    case 2:
      if (!damaged.empty()) damaged.erase(at, c.range(1, 8));
      break;
    case 3: damaged.insert(at, std::string(c.range(1, 4), (char)c.below(256))); break;
    default:
      if (!damaged.empty()) {
        size_t from = c.below(damaged.size());
        damaged.insert(at, damaged.substr(from, c.range(1, 12)));
      }
    }
  }
  c.describe([&] { return "; stored as " + show(b) + ", damaged to " + show(damaged); });
  sound(c, load_bytes(damaged));
  if (damaged != b) c.nontrivial();
  c.mix(damaged);
}

// all single-bit flips of one stored dictionary
void t_flips(Ctx &c) {
  Dict10 x = dict10(c, {6, 4});
  std::string b = canonical(c, x.d.get()).SerializeAsString();
  c.describe([&] { return "; every bit of " + show(b); });
  for (size_t i = 0; i < b.size() * 8; ++i) {
    std::string f = b;
    f[i / 8] = (char)(f[i / 8] ^ (1 << (i % 8)));
    sound(c, load_bytes(f));
  }
  c.nontrivial();
}

void t_noise(Ctx &c) {
  std::string b;
  size_t n = c.below(40);
  bool keys = c.coin();
  static const char tags[] = {0x08, 0x0a, 0x10, 0x12, 0x1a, 0x20, 0x28, 0x00, 0x01, 0x02, 0x03};
  for (size_t i = 0; i < n; ++i) b += keys && c.coin() ? tags[c.below(sizeof tags)] : (char)c.below(256);
  c.describe([&] { return "bytes " + show(b); });
  sound(c, load_bytes(b));
  if (b.size() > 1) c.nontrivial();
  c.mix(b);
}

// damage at the level of the stored graph
void t_graph(Ctx &c) {
  Dict10 x = dict10(c, {10, 5});
  llp::Dictionary p = canonical(c, x.d.get());
  std::string before = p.SerializeAsString();
  auto some_id = [&]() -> uint64_t {
    switch (c.below(6)) {
    case 0: return 0;
    case 1: return c.below(p.node_id_size() + 6);
    case 2: return SIZE_MAX;
    default: return p.node_id_size() ? p.node_id((int)c.below(p.node_id_size())) : 1;
    }
  };
  size_t k = c.weighted({0, 6, 3, 2, 1});
  for (size_t i = 0; i < k; ++i) {
    size_t op = c.below(13);
    c.describe([&] { return " op" + std::to_string(op); });
    switch (op) {
    case 0: p.set_size(c.coin() ? c.below(2 * p.size() + 3) : c.below(0)); break;
    case 1: p.set_root_id(some_id()); break;
    case 2: p.add_node_id(some_id()); break;
    case 3: p.add_final_node_id(some_id()); break;
    case 4:
      if (p.node_id_size()) {
        p.mutable_node_id()->SwapElements((int)c.below(p.node_id_size()), p.node_id_size() - 1);
        p.mutable_node_id()->RemoveLast();
      }
      break;
    case 5:
      if (p.final_node_id_size()) {
        p.mutable_final_node_id()->SwapElements((int)c.below(p.final_node_id_size()), p.final_node_id_size() - 1);
        p.mutable_final_node_id()->RemoveLast();
        if (c.coin()) p.set_size(p.size() - 1);
      }
      break;
    case 6:
      if (p.edge_size()) {
        p.mutable_edge()->SwapElements((int)c.below(p.edge_size()), p.edge_size() - 1);
        p.mutable_edge()->RemoveLast();
      }
      break;
    case 7: { // another edge
      auto *e = p.add_edge();
      e->set_source_id(some_id());
      e->set_label((uint32_t)(c.coin() ? 'a' + c.below(4) : c.below(0x100000000)));
      e->set_target_id(some_id());
      break;
    }
    case 8:
      if (p.edge_size()) p.mutable_edge((int)c.below(p.edge_size()))->set_target_id(some_id());
      break;
    case 9:
      if (p.edge_size()) p.mutable_edge((int)c.below(p.edge_size()))->set_source_id(some_id());
      break;
    case 10:
      if (p.edge_size()) {
        auto *e = p.mutable_edge((int)c.below(p.edge_size()));
        e->set_label(c.coin() ? e->label() + 256 : (uint32_t)c.below(256));
      }
      break;
    case 11: // the same edge twice
      if (p.edge_size()) {
        llp::Dictionary::Edge e = p.edge((int)c.below(p.edge_size()));
        if (c.coin()) e.set_target_id(some_id());
        *p.add_edge() = e;
      }
      break;
    default: // a self-loop or back edge to the root
      if (p.node_id_size()) {
        auto *e = p.add_edge();
        uint64_t n = p.node_id((int)c.below(p.node_id_size()));
        e->set_source_id(n);
        e->set_label((uint32_t)c.below(256));
        e->set_target_id(c.coin() ? n : p.root_id());
      }
    }
  }
  std::string b = p.SerializeAsString();
  c.describe([&] { return "; stored graph altered to " + p.ShortDebugString(); });
  sound(c, load_bytes(b));
  if (b != before) c.nontrivial();
  c.mix(b);
}

// graphs made up from scratch: any nodes, any edges
void t_random_graph(Ctx &c) {
  llp::Dictionary p;
  size_t n = c.below(7);
  for (size_t i = 1; i <= n; ++i) p.add_node_id(c.chance(1, 12) ? c.below(n + 2) : i);
  size_t nf = c.below(n + 2);
  for (size_t i = 0; i < nf; ++i) p.add_final_node_id(c.below(n + 2));
  size_t ne = c.below(2 * n + 2);
  bool dag = c.coin(), exact = dag && c.coin();
  if (exact) { // a well-formed graph, perhaps spoiled by one more edge
    p.Clear();
    n = c.range(1, 7);
    std::vector<bool> fin(n + 1);
    std::vector<uint64_t> paths(n + 1);
    std::vector<std::set<int>> used(n + 1);
    paths[1] = 1;
    uint64_t total = 0;
    std::vector<std::vector<std::pair<int, size_t>>> out(n + 1);
    for (size_t i = 1; i <= n; ++i) {
      p.add_node_id(i);
      if (c.coin() || i == n) p.add_final_node_id(i), fin[i] = true;
      size_t in = i == 1 ? 0 : c.range(1, 2);
      for (size_t k = 0; k < in; ++k) {
        size_t s = c.range(1, i - 1);
        int l = (int)('a' + c.below(5));
        while (used[s].count(l)) ++l;
        used[s].insert(l);
        auto *e = p.add_edge();
        e->set_source_id(s);
        e->set_label((uint32_t)l);
        e->set_target_id(i);
        paths[i] += paths[s];
      }
      if (fin[i]) total += paths[i];
    }
    p.set_root_id(1);
    p.set_size(total + (c.chance(1, 6) ? c.below(3) : 0));
    if (c.chance(1, 3)) {
      auto *e = p.add_edge();
      e->set_source_id(c.range(1, n));
      e->set_label((uint32_t)('a' + c.below(8)));
      e->set_target_id(c.range(1, n));
    }
    c.describe([&] { return "stored graph " + p.ShortDebugString(); });
    std::string b = p.SerializeAsString();
    sound(c, load_bytes(b));
    c.nontrivial();
    c.mix(b);
    return;
  }
  for (size_t i = 0; i < ne; ++i) {
    auto *e = p.add_edge();
    size_t s = c.below(n + 1), t = c.below(n + 1);
    if (dag && s > t) std::swap(s, t);
    e->set_source_id(s);
    e->set_label((uint32_t)('a' + c.below(4)));
    e->set_target_id(t);
  }
  p.set_root_id(c.chance(1, 8) ? c.below(n + 2) : 1);
  p.set_size(c.below(8));
  c.describe([&] { return "stored graph " + p.ShortDebugString(); });
  std::string b = p.SerializeAsString();
  sound(c, load_bytes(b));
  if (ne > 0) c.nontrivial();
  c.mix(b);
}

// small files with exponentially many paths
void t_diamonds(Ctx &c) {
  size_t n = c.range(2, c.coin() ? 12 : 100);
  llp::Dictionary p;
  for (size_t i = 0; i <= n; ++i) p.add_node_id(i + 1);
  p.add_final_node_id(n + 1);
  unsigned __int128 total = (unsigned __int128)1 << n;
  while (c.chance(1, 3)) { // further final nodes
    size_t f = c.below(n);
    bool have = false;
    for (auto id : p.final_node_id()) have = have || id == f + 1;
    if (!have) p.add_final_node_id(f + 1), total += (unsigned __int128)1 << f;
  }
  bool loop = c.chance(1, 4);
  for (size_t i = 0; i < n; ++i)
    for (char l : {'a', 'b'}) {
      auto *e = p.add_edge();
      e->set_source_id(i + 1);
      e->set_label((uint32_t)l);
      e->set_target_id(loop && i == n - 1 && l == 'b' ? c.range(1, n) : i + 2);
    }
  p.set_root_id(1);
  static const int width[] = {8, 15, 16, 24, 31, 32, 53, 63};
  switch (c.below(3)) { // the number of terms, what a narrow counter would make of it, or another
  case 0: p.set_size((uint64_t)total); break;
  case 1: p.set_size((uint64_t)(total & (((unsigned __int128)1 << width[c.below(8)]) - 1))); break;
  default: p.set_size(c.below(4));
  }
  c.describe([&] { return "chain of " + std::to_string(n) + " diamonds, size " + std::to_string(p.size()) + (loop ? ", with a back edge" : ""); });
  sound(c, load_bytes(p.SerializeAsString()));
  c.nontrivial();
}

Reg c11a("C11", "every_prefix", 1200, 30000, t_truncate);
Reg c11b("C11", "byte_damage", 60000, 2000000, t_bytes);
Reg c11c("C11", "every_bit_flip", 150, 4000, t_flips);
Reg c11d("C11", "noise", 60000, 2000000, t_noise);
Reg c11e("C11", "graph_damage", 60000, 2000000, t_graph);
Reg c11f("C11", "arbitrary_graphs", 60000, 2000000, t_random_graph);
Reg c11g("C11", "many_paths", 3000, 60000, t_diamonds);

} // namespace
