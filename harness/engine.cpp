#include "engine.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::map<std::string, std::string> options;

static std::vector<Mode> &modes() {
  static std::vector<Mode> m;
  return m;
}

Reg::Reg(const char *prop, const char *name, uint64_t quick, uint64_t thorough,
         std::function<void(Ctx &)> fn, unsigned asan_div) {
  modes().push_back(Mode{prop, name, false, quick, thorough, std::move(fn), asan_div});
}
RegEnum::RegEnum(const char *prop, const char *name, uint64_t quick, uint64_t thorough,
                 std::function<void(Ctx &)> fn, unsigned asan_div) {
  modes().push_back(Mode{prop, name, true, quick, thorough, std::move(fn), asan_div});
}

// Numbers about which programs change their behaviour: the usual ones, and
// those the source under test mentions (option "literals", from the driver).
static const std::vector<uint64_t> &limits() {
  static const std::vector<uint64_t> v = [] {
    std::vector<uint64_t> l{10, 16, 20, 32, 50, 64, 100, 127, 128, 200, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65535, 65536};
    std::istringstream is(options["literals"]);
    uint64_t x;
    std::vector<uint64_t> own;
    while (is >> x) own.push_back(x);
    for (size_t k = own.empty() ? 0 : 1 + l.size() / own.size(); k > 0; --k) l.insert(l.end(), own.begin(), own.end());
    return l;
  }();
  return v;
}

// Every random mode has a smaller sibling whose draws cluster around limits.
static void add_limit_modes() {
  std::vector<Mode> more;
  for (auto &m : modes())
    if (!m.enumerated) {
      Mode t = m;
      t.name += "@limits";
      t.limits = true;
      t.quick = (m.quick + 15) / 16;
      t.thorough = (m.thorough + 15) / 16;
      more.push_back(std::move(t));
    }
  modes().insert(modes().end(), more.begin(), more.end());
}

std::string show(const std::string &s) {
  std::string o = "\"";
  char b[8];
  size_t shown = 0;
  for (unsigned char c : s) {
    if (++shown > 400) {
      o += "...(" + std::to_string(s.size()) + " bytes)";
      break;
    }
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o + "\"";
}
std::string show(const std::vector<std::string> &v) {
  std::string o = "[";
  size_t n = 0;
  for (auto &s : v) {
    if (n) o += ", ";
    if (++n > 60) {
      o += "...(" + std::to_string(v.size()) + " terms)";
      break;
    }
    o += show(s);
  }
  return o + "]";
}

static std::string g_scratch;
const std::string &scratch_dir() { return g_scratch; }

// ---------------------------------------------------------------------------

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}

struct Opts {
  std::string prop, tier = "quick", out, distinct_in, distinct_out, replay_out, replay_in, variant = "plain", mode;
  uint64_t seed = 1;
  int jobs = 8;
  double div = 1, mult = 1;
  double budget = 400; // wall seconds for the search
  bool list = false;
  double hang_cpu = 25, hang_wall = 40;
} O;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static double cpu_of(pid_t pid) {
  clockid_t c;
  if (clock_getcpuclockid(pid, &c) != 0) return -1;
  timespec t;
  if (clock_gettime(c, &t) != 0) return -1;
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// Whether every thread of the process sleeps, over three seconds: a deadlock,
// however busy the machine is.
static bool all_blocked(pid_t pid) {
  double c0 = cpu_of(pid);
  int quiet = 0, n = 60;
  std::string dir = "/proc/" + std::to_string(pid) + "/task";
  for (int k = 0; k < n; ++k) {
    bool all = true;
    DIR *d = opendir(dir.c_str());
    if (!d) return false;
    while (dirent *e = readdir(d)) {
      if (e->d_name[0] == '.') continue;
      std::ifstream f(dir + "/" + e->d_name + "/stat");
      std::string l;
      if (!std::getline(f, l)) continue;
      size_t p = l.rfind(')');
      if (p == std::string::npos || p + 2 >= l.size() || l[p + 2] != 'S') all = false;
    }
    closedir(d);
    quiet += all;
    usleep(50000);
  }
  return quiet >= n - 3 && cpu_of(pid) - c0 < 0.1;
}

static std::vector<const Mode *> selected() {
  std::vector<const Mode *> v;
  for (auto &m : modes())
    if (m.prop == O.prop && (O.mode.empty() || O.mode == m.name)) v.push_back(&m);
  return v;
}

static uint64_t mode_cases(const Mode &m) {
  uint64_t n = O.tier == "thorough" ? m.thorough : m.quick;
  double d = O.div;
  if (O.variant != "plain" && m.asan_div == PLAIN_ONLY) return 0;
  if (O.variant != "plain" && m.asan_div) d = m.asan_div;
  double r = n / d;
  if (!m.enumerated) r *= O.mult;
  uint64_t k = (uint64_t)r;
  if (n > 0 && k == 0) k = 1;
  if (m.enumerated && k > n) k = n;
  return k;
}

// The index-th case that this run executes of an enumerated space of n cases
// of which k are run: a deterministic stride with a seed-dependent phase.
static uint64_t enum_index(uint64_t i, uint64_t k, uint64_t n) {
  if (k >= n) return i;
  uint64_t stride = n / k;
  return (i * stride + O.seed % stride) % n;
}

static Source make_source(const Mode &m, uint64_t i, uint64_t k) {
  uint64_t h = fnv(m.name.data(), m.name.size(), fnv(m.prop.data(), m.prop.size()));
  h = fnv(O.variant.data(), O.variant.size(), h);
  uint64_t s = O.seed * 0x9E3779B97F4A7C15ULL ^ h;
  splitmix(s);
  s ^= i * 0xD1342543DE82EF95ULL + 0x2545F4914F6CDD1DULL;
  splitmix(s);
  Source src(s);
  if (m.limits) src.focus(&limits());
  if (m.enumerated) {
    uint64_t n = O.tier == "thorough" ? m.thorough : m.quick;
    src.force({enum_index(i, k, n)});
  }
  return src;
}

// Runs one case; throws Failure on a violation.
static void run_case(const Mode &m, Source &src, Stats &st, bool want_desc, std::string *desc,
                     bool count = true, Mirror *mirror = nullptr) {
  Ctx ctx(src, st);
  ctx.want_desc = want_desc;
  ctx.mirror = mirror;
  ctx.thorough = O.tier == "thorough";
  ctx.limits = m.limits;
  struct Fin {
    Ctx &c;
    std::string *d;
    ~Fin() {
      if (d) *d = c.desc;
    }
  } fin{ctx, desc};
  ctx.mix(m.name);
  ctx.mixed = false;
  try {
    m.fn(ctx);
  } catch (const Failure &) {
    throw;
  } catch (const std::exception &e) {
    throw Failure(std::string("unexpected exception: ") + e.what());
  }
  if (count) {
    ++st.cases;
    if (ctx.is_nontrivial()) {
      ++st.nontrivial;
      uint64_t k = ctx.key;
      if (!ctx.mixed) k = fnv(src.recorded().data(), src.recorded().size() * sizeof(uint64_t), k);
      if (m.enumerated) {
        uint64_t f = src.recorded().empty() ? 0 : src.recorded()[0];
        k = fnv(&f, sizeof f, k);
      }
      st.distinct.insert(k);
    }
  }
}

// ---------------------------------------------------------------------------
// Workers

struct Slot {
  std::atomic<uint64_t> mode, index, serial;
  std::atomic<int> active, finished;
};
struct Shared {
  std::atomic<int> stop;
  Slot slot[64];
};

struct Found {
  bool any = false;
  std::string kind; // "oracle", "crash", "hang"
  std::string message;
  size_t mode = 0;
  uint64_t index = 0;
  int worker = 0;
};

static std::string wfile(int w, const char *ext) {
  return g_scratch + "/w" + std::to_string(w) + ext;
}

static void write_stats(int w, const std::vector<Stats> &all, bool budget_hit) {
  std::ofstream f(wfile(w, ".stats"));
  f << all.size() << " " << budget_hit << "\n";
  for (auto &s : all) {
    f << s.cases << " " << s.nontrivial << " " << s.comparisons << " " << s.slowest << " " << s.labels.size() << " "
      << s.samples.size() << "\n";
    for (auto &[k, v] : s.labels) f << v << " " << k << "\n";
    for (auto &x : s.samples) f << jstr(x) << "\n";
  }
  f.close();
  std::ofstream d(wfile(w, ".distinct"), std::ios::binary);
  for (auto &s : all)
    for (uint64_t h : s.distinct) d.write((const char *)&h, sizeof h);
}

static const int EXIT_FOUND = 77;

static void redirect_stderr(const std::string &path) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

[[noreturn]] static void worker(int w, Shared *sh, double deadline) {
  redirect_stderr(wfile(w, ".err"));
  std::string mydir = g_scratch + "/d" + std::to_string(w);
  mkdir(mydir.c_str(), 0700);
  std::string base = g_scratch;
  auto sel = selected();
  std::vector<Stats> all(sel.size());
  Slot &sl = sh->slot[w];
  bool budget_hit = false;
  for (size_t mi = 0; mi < sel.size() && !sh->stop; ++mi) {
    const Mode &m = *sel[mi];
    uint64_t n = mode_cases(m);
    for (uint64_t i = w; i < n; i += O.jobs) {
      if (sh->stop) break;
      if (now() > deadline) {
        budget_hit = true;
        break;
      }
      sl.mode = mi;
      sl.index = i;
      ++sl.serial;
      sl.active = 1;
      Source src = make_source(m, i, n);
      bool want = w < 2 && all[mi].samples.size() < 2;
      std::string desc;
      g_scratch = mydir;
      try {
        uint64_t before = all[mi].nontrivial;
        double t0 = now();
        run_case(m, src, all[mi], want, &desc);
        all[mi].slowest = std::max(all[mi].slowest, now() - t0);
        if (want && all[mi].nontrivial > before && !desc.empty())
          all[mi].samples.push_back(m.name + ": " + desc);
      } catch (const Failure &e) {
        g_scratch = base;
        sh->stop = 1;
        std::ofstream f(wfile(w, ".fail"));
        f << e.what();
        f.close();
        write_stats(w, all, false);
        _exit(EXIT_FOUND);
      }
      g_scratch = base;
      sl.active = 0;
    }
  }
  write_stats(w, all, budget_hit);
  sl.finished = 1;
  // A leak report at exit would belong to the harness; leaks are judged per case (C21).
  _exit(0);
}

// ---------------------------------------------------------------------------
// Replays in forked children

struct Case {
  const Mode *m;
  bool by_seed;
  uint64_t index, total;
  std::vector<uint64_t> choices;
};

struct Outcome {
  bool failed = false;
  std::string kind, message, desc;
  std::vector<uint64_t> choices; // normalised choices of the last case
};

static int g_replay_no = 0;

static std::string slurp(const std::string &p, size_t limit = 1 << 20) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > limit) s.resize(limit);
  return s;
}

static std::string first_report_line(const std::string &err) {
  std::istringstream is(err);
  std::string line, best;
  while (std::getline(is, line)) {
    if (line.find("ERROR: ") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos ||
        line.find("runtime error:") != std::string::npos || line.find("terminate called") != std::string::npos ||
        line.find("Assertion") != std::string::npos) {
      best = line;
      break;
    }
  }
  return best;
}

// Runs the cases in order in one fresh process; outcome concerns any of them.
static Outcome replay(const std::vector<Case> &cases, bool want_desc) {
  std::string base = g_scratch + "/r" + std::to_string(g_replay_no++);
  std::string okf = base + ".out", errf = base + ".err", dir = base + ".d";
  static Mirror *mir = nullptr;
  if (!mir) {
    mir = (Mirror *)mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  mir->n = 0;
  mir->dn = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr(errf);
    mkdir(dir.c_str(), 0700);
    g_scratch = dir;
    for (size_t i = 0; i < cases.size(); ++i) {
      const Case &c = cases[i];
      Source src = c.by_seed ? make_source(*c.m, c.index, c.total) : Source(c.choices);
      Stats st;
      std::string desc, msg;
      bool failed = false;
      bool last = i + 1 == cases.size();
      if (last) {
        mir->n = 0;
  mir->dn = 0;
        src.mirror(mir);
      }
      try {
        run_case(*c.m, src, st, want_desc && last, &desc, false, last ? mir : nullptr);
      } catch (const Failure &e) {
        failed = true;
        msg = e.what();
      }
      if (last || failed) {
        std::ofstream f(okf);
        f << jstr(msg) << "\n";
        f.close();
        _exit(failed ? EXIT_FOUND : 0);
      }
    }
    _exit(0);
  }
  double t0 = now();
  int status = 0;
  bool hang = false, dead = false;
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    double w = now() - t0;
    if (w > O.hang_wall) {
      double c = cpu_of(pid);
      if (c > O.hang_cpu || (c >= 0 && c < 0.5 + 0.02 * w) || w > 5 * O.hang_wall) {
        dead = all_blocked(pid);
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        hang = true;
        break;
      }
    }
    usleep(w < 0.05 ? 500 : 5000);
  }
  Outcome o;
  if (hang) {
    o.failed = true;
    o.kind = dead ? "deadlock" : "hang";
    o.message = dead ? "deadlock: all threads are blocked"
                     : "no progress: the case did not finish (cpu limit " + std::to_string((int)O.hang_cpu) + " s)";
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FOUND) {
    o.failed = true;
    o.kind = "oracle";
  } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
    // ended from outside (memory): says nothing about the property
    o.kind = "lost";
  } else {
    o.failed = true;
    o.kind = "crash";
    o.message = WIFSIGNALED(status) ? std::string("killed by signal ") + strsignal(WTERMSIG(status))
                                    : "aborted with exit status " + std::to_string(WEXITSTATUS(status));
    std::string rep = first_report_line(slurp(errf));
    if (!rep.empty()) o.message += ": " + rep;
    rep = jstr(o.message);
    o.message = rep.substr(1, rep.size() - 2);
  }
  {
    std::ifstream f(okf);
    std::string m;
    if (std::getline(f, m) && o.kind == "oracle") o.message = m.size() > 2 ? m.substr(1, m.size() - 2) : "";
    if (mir->n < Mirror::CAP) o.choices.assign(mir->v, mir->v + mir->n);
    std::string d = jstr(std::string(mir->d, mir->dn));
    o.desc = d.substr(1, d.size() - 2);
  }
  unlink(okf.c_str());
  if (!o.failed) unlink(errf.c_str());
  std::string rm = "rm -rf '" + dir + "'";
  if (system(rm.c_str())) {
  }
  return o;
}

static void shrink(std::vector<Case> &cases, Outcome &best, double budget) {
  double end = now() + budget;
  int runs = 0;
  Case &last = cases.back();
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (now() > end || runs > 4000) return false;
    ++runs;
    std::vector<Case> cs = cases;
    cs.back().by_seed = false;
    cs.back().choices = cand;
    Outcome o = replay(cs, false);
    if (o.failed && o.kind == best.kind) {
      std::vector<uint64_t> norm = o.choices.empty() ? cand : o.choices;
      if (norm.size() > cand.size()) norm = cand; // keep the shorter description
      last.choices = norm;
      best.message = o.message;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, last.choices.size() / 2); blk >= 1; blk /= 2) {
      size_t i = last.choices.size();
      while (i > 0) {
        size_t from = i > blk ? i - blk : 0;
        std::vector<uint64_t> c = last.choices;
        if (from >= c.size()) {
          i = c.size();
          if (i == 0) break;
          continue;
        }
        c.erase(c.begin() + from, c.begin() + std::min(i, c.size()));
        if (c.size() < last.choices.size() && attempt(c)) {
          progress = true;
          i = std::min(from, last.choices.size());
        } else {
          i = from;
        }
        if (now() > end) break;
      }
      if (now() > end) break;
    }
    for (size_t i = 0; i < last.choices.size() && now() < end; ++i) {
      if (last.choices[i] == 0) continue;
      std::vector<uint64_t> c = last.choices;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = i < last.choices.size() ? last.choices[i] : 0;
      while (lo + 1 < hi && now() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = last.choices;
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          hi = i < last.choices.size() ? std::min(mid, last.choices[i]) : 0;
        } else
          lo = mid;
      }
    }
  }
}

static void cleanup() {
  if (!g_scratch.empty() && g_scratch.rfind("/tmp/pbt.", 0) == 0) {
    std::string rm = "rm -rf '" + g_scratch + "'";
    if (system(rm.c_str())) {
    }
  }
}

static void write_replay(const std::string &path, const std::vector<Case> &cases, const Outcome &o,
                         const std::string &note) {
  std::ofstream f(path);
  f << "{\n \"property\": " << jstr(O.prop) << ",\n \"variant\": " << jstr(O.variant)
    << ",\n \"tier\": " << jstr(O.tier) << ",\n \"seed\": " << O.seed << ",\n \"kind\": " << jstr(o.kind)
    << ",\n \"message\": \"" << o.message << "\""
    << ",\n \"case\": \"" << o.desc << "\",\n \"note\": " << jstr(note) << ",\n \"cases\": [\n";
  for (size_t i = 0; i < cases.size(); ++i) {
    auto &c = cases[i];
    f << "  {\"mode\": " << jstr(c.m->name);
    if (c.by_seed)
      f << ", \"index\": " << c.index << ", \"total\": " << c.total;
    f << ", \"choices\": [";
    for (size_t j = 0; j < c.choices.size(); ++j) f << (j ? ", " : "") << c.choices[j];
    f << "]}" << (i + 1 < cases.size() ? "," : "") << "\n";
  }
  f << " ]\n}\n";
}

// Plain-text twin of the replay (one line per case), read back by --replay.
static void write_replay_txt(const std::string &path, const std::vector<Case> &cases) {
  std::ofstream f(path);
  f << O.prop << " " << O.tier << " " << O.seed << " " << O.variant << "\n";
  for (auto &c : cases) {
    f << c.m->name << " " << (c.by_seed ? 1 : 0) << " " << c.index << " " << c.total << " " << c.choices.size();
    for (uint64_t v : c.choices) f << " " << v;
    f << "\n";
  }
}

static int do_replay() {
  std::ifstream f(O.replay_in);
  std::string header;
  if (!std::getline(f, header)) {
    fprintf(stderr, "cannot read replay file\n");
    return 2;
  }
  std::istringstream h(header);
  h >> O.prop >> O.tier >> O.seed >> O.variant;
  std::vector<Case> cases;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    Case c{};
    std::string name;
    int bs;
    size_t n;
    if (!(is >> name >> bs >> c.index >> c.total >> n)) continue;
    c.by_seed = bs;
    c.choices.resize(n);
    for (auto &v : c.choices) is >> v;
    for (auto &m : modes())
      if (m.prop == O.prop && m.name == name) c.m = &m;
    if (!c.m) {
      fprintf(stderr, "unknown mode %s\n", name.c_str());
      return 2;
    }
    cases.push_back(c);
  }
  Outcome o = replay(cases, true);
  printf("%s\nkind=%s\nmessage=%s\ncase=%s\n", o.failed ? "FAILED" : "passed", o.kind.c_str(), o.message.c_str(),
         o.desc.c_str());
  return o.failed ? 1 : 0;
}

static int do_run() {
  auto sel = selected();
  if (sel.empty()) {
    fprintf(stderr, "no modes for %s\n", O.prop.c_str());
    return 2;
  }
  void *mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared *sh = new (mem) Shared();
  double t0 = now(), deadline = t0 + O.budget;
  std::vector<pid_t> pids(O.jobs);
  std::vector<bool> alive(O.jobs, true);
  std::vector<uint64_t> last_serial(O.jobs, 0);
  std::vector<double> since_wall(O.jobs, t0), since_cpu(O.jobs, 0);
  fflush(nullptr);
  for (int w = 0; w < O.jobs; ++w) {
    pids[w] = fork();
    if (pids[w] == 0) worker(w, sh, deadline);
  }
  std::vector<Found> found;
  int left = O.jobs, lost = 0;
  while (left > 0) {
    for (int w = 0; w < O.jobs; ++w) {
      if (!alive[w]) continue;
      int status;
      pid_t r = waitpid(pids[w], &status, WNOHANG);
      Slot &sl = sh->slot[w];
      if (r == pids[w]) {
        alive[w] = false;
        --left;
        Found f;
        f.worker = w;
        f.mode = sl.mode;
        f.index = sl.index;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FOUND) {
          f.any = true;
          f.kind = "oracle";
          f.message = slurp(wfile(w, ".fail"));
        } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
          ++lost;
        } else {
          f.any = true;
          f.kind = "crash";
          f.message = (WIFSIGNALED(status) ? std::string("killed by signal ") + strsignal(WTERMSIG(status))
                                           : "aborted with exit status " + std::to_string(WEXITSTATUS(status))) +
                      " " + first_report_line(slurp(wfile(w, ".err")));
        }
        if (f.any) {
          sh->stop = 1;
          found.push_back(f);
        }
        continue;
      }
      // progress watch
      double t = now();
      if (sl.serial != last_serial[w] || !sl.active) {
        last_serial[w] = sl.serial;
        since_wall[w] = t;
        since_cpu[w] = cpu_of(pids[w]);
      } else {
        double wall = t - since_wall[w];
        if (wall > O.hang_wall) {
          double c = cpu_of(pids[w]) - since_cpu[w];
          if (c > O.hang_cpu || c < 0.5 + 0.02 * wall || wall > 5 * O.hang_wall) {
            bool dead = all_blocked(pids[w]);
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &status, 0);
            alive[w] = false;
            --left;
            Found f;
            f.any = true;
            f.kind = dead ? "deadlock" : "hang";
            f.message = dead ? "deadlock: all threads are blocked" : "case did not finish";
            f.worker = w;
            f.mode = sl.mode;
            f.index = sl.index;
            found.push_back(f);
            sh->stop = 1;
          }
        }
      }
    }
    usleep(2000);
  }
  double search_s = now() - t0;

  // --- confirm, shrink ---------------------------------------------------
  bool violation = false;
  std::string vmsg;
  std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) {
    if ((a.kind == "hang") != (b.kind == "hang")) return b.kind == "hang";
    return std::make_pair(a.mode, a.index) < std::make_pair(b.mode, b.index);
  });
  int unconfirmed = 0;
  for (auto &f : found) {
    const Mode &m = *sel[f.mode];
    uint64_t total = mode_cases(m);
    std::vector<Case> cases{{&m, true, f.index, total, {}}};
    int tries = f.kind == "hang" ? 2 : 3, hits = 0;
    double keep_wall = O.hang_wall;
    if (f.kind == "deadlock") O.hang_wall = std::min(O.hang_wall, 15.0);
    Outcome o;
    for (int k = 0; k < tries; ++k) {
      Outcome r = replay(cases, true);
      if (r.failed) {
        ++hits;
        o = r;
      }
    }
    O.hang_wall = keep_wall;
    std::string note = "replayed alone: failed " + std::to_string(hits) + "/" + std::to_string(tries);
    bool shrinkable = hits == tries;
    if (hits == 0 && f.kind == "deadlock") {
      o.failed = true;
      o.kind = f.kind;
      o.message = f.message;
      note += "; observed in the search, depends on the schedule";
      hits = 1;
    }
    if (hits == 0 && f.kind != "hang") {
      // Perhaps it needs what this worker ran before: replay the whole history.
      std::vector<Case> hist;
      for (size_t mi = 0; mi <= f.mode; ++mi) {
        uint64_t n = mode_cases(*sel[mi]);
        for (uint64_t i = f.worker; i < n; i += O.jobs) {
          if (mi == f.mode && i > f.index) break;
          hist.push_back(Case{sel[mi], true, i, n, {}});
        }
      }
      double save = O.hang_wall, savec = O.hang_cpu;
      O.hang_wall = 600;
      O.hang_cpu = 600;
      // shortest suffix (doubling) that still fails
      bool ok = false;
      for (size_t len = 2;; len *= 2) {
        size_t l = std::min(len, hist.size());
        std::vector<Case> suf(hist.end() - l, hist.end());
        Outcome r = replay(suf, true);
        if (r.failed) {
          cases = suf;
          o = r;
          ok = true;
          note += "; needs the preceding cases of the same process: suffix of " + std::to_string(l) + " cases fails";
          break;
        }
        if (l == hist.size() || now() - t0 > O.budget + 200) break;
      }
      if (ok) {
        // drop predecessors one block at a time
        double end = now() + 40;
        for (size_t blk = std::max<size_t>(1, cases.size() / 2); blk >= 1; blk /= 2) {
          for (size_t i = 0; i + 1 < cases.size() && now() < end;) {
            std::vector<Case> c = cases;
            size_t e = std::min(i + blk, cases.size() - 1);
            c.erase(c.begin() + i, c.begin() + e);
            Outcome r = replay(c, true);
            if (r.failed) {
              cases = c;
              o = r;
            } else
              i += blk;
          }
          if (now() > end) break;
        }
        hits = 1;
      }
      O.hang_wall = save;
      O.hang_cpu = savec;
      if (!ok) {
        // Observed once with an explicit oracle or a sanitizer report, but not
        // again: try the single case some more (address-dependent behaviour).
        for (int k = 0; k < 20 && !hits; ++k) {
          Outcome r = replay({Case{&m, true, f.index, total, {}}}, true);
          if (r.failed) {
            ++hits;
            o = r;
          }
        }
        note += "; intermittent";
        if (!hits && f.kind != "hang") {
          // still an observed mismatch against the oracle
          o.failed = true;
          o.kind = f.kind;
          o.message = f.message;
          std::string esc = jstr(o.message);
          o.message = esc.substr(1, esc.size() - 2);
          note += "; observed in the search but not reproduced in 20 replays";
          hits = 1;
        }
      }
    }
    if (hits == 0 || (f.kind == "hang" && hits < tries)) {
      ++unconfirmed;
      continue;
    }
    violation = true;
    if (shrinkable && o.kind != "hang" && o.kind != "deadlock") {
      std::vector<uint64_t> ch = o.choices;
      if (!ch.empty()) {
        cases.back().by_seed = false;
        cases.back().choices = ch;
        Outcome chk = replay(cases, true);
        if (chk.failed) {
          shrink(cases, chk, 60);
          Outcome fin = replay(cases, true);
          if (fin.failed) o = fin;
        } else {
          cases.back().by_seed = true;
        }
      }
    }
    if (o.message.empty()) {
      std::string esc = jstr(f.message);
      o.message = esc.substr(1, esc.size() - 2);
    }
    vmsg = o.kind + ": " + o.message;
    write_replay(O.replay_out + ".json", cases, o, note);
    write_replay_txt(O.replay_out + ".replay", cases);
    break;
  }

  // --- aggregate ---------------------------------------------------------
  std::vector<Stats> agg(sel.size());
  std::unordered_set<uint64_t> distinct;
  bool budget_hit = false;
  for (int w = 0; w < O.jobs; ++w) {
    std::ifstream f(wfile(w, ".stats"));
    size_t n;
    bool bh;
    if (!(f >> n >> bh)) continue;
    budget_hit |= bh;
    for (size_t i = 0; i < n && i < agg.size(); ++i) {
      uint64_t c, nt, cmp;
      size_t nl, ns;
      double slow;
      f >> c >> nt >> cmp >> slow >> nl >> ns;
      agg[i].slowest = std::max(agg[i].slowest, slow);
      agg[i].cases += c;
      agg[i].nontrivial += nt;
      agg[i].comparisons += cmp;
      std::string line;
      for (size_t k = 0; k < nl; ++k) {
        uint64_t v;
        f >> v;
        f.get();
        std::getline(f, line);
        agg[i].labels[line] += v;
      }
      if (nl == 0) std::getline(f, line);
      for (size_t k = 0; k < ns; ++k) {
        std::getline(f, line);
        if (line.empty()) { --k; if (!f) break; continue; }
        agg[i].samples.push_back(line);
      }
    }
    std::ifstream d(wfile(w, ".distinct"), std::ios::binary);
    uint64_t h;
    while (d.read((char *)&h, sizeof h)) distinct.insert(h);
  }
  if (!O.distinct_in.empty()) {
    std::ifstream d(O.distinct_in, std::ios::binary);
    uint64_t h;
    while (d.read((char *)&h, sizeof h)) distinct.insert(h);
  }
  if (!O.distinct_out.empty()) {
    std::ofstream d(O.distinct_out, std::ios::binary);
    for (uint64_t h : distinct) d.write((const char *)&h, sizeof h);
  }
  uint64_t cases = 0, nt = 0, cmp = 0;
  for (auto &s : agg) {
    cases += s.cases;
    nt += s.nontrivial;
    cmp += s.comparisons;
  }
  std::ofstream out(O.out);
  out << "{\"property\": " << jstr(O.prop) << ", \"variant\": " << jstr(O.variant) << ", \"tier\": " << jstr(O.tier)
      << ", \"seed\": " << O.seed << ", \"cases\": " << cases << ", \"nontrivial\": " << nt
      << ", \"distinct_nontrivial\": " << distinct.size() << ", \"comparisons\": " << cmp
      << ", \"violation\": " << (violation ? "true" : "false") << ", \"message\": \"" << vmsg << "\""
      << ", \"unconfirmed\": " << unconfirmed << ", \"lost_workers\": " << lost
      << ", \"budget_hit\": " << (budget_hit ? "true" : "false") << ", \"search_s\": " << search_s << ", \"modes\": [";
  for (size_t i = 0; i < agg.size(); ++i) {
    auto &s = agg[i];
    out << (i ? ", " : "") << "{\"name\": " << jstr(sel[i]->name) << ", \"enumerated\": "
        << (sel[i]->enumerated ? "true" : "false") << ", \"space\": "
        << (sel[i]->enumerated ? (O.tier == "thorough" ? sel[i]->thorough : sel[i]->quick) : 0)
        << ", \"cases\": " << s.cases << ", \"nontrivial\": " << s.nontrivial << ", \"comparisons\": " << s.comparisons
        << ", \"slowest_case_s\": " << s.slowest << ", \"labels\": {";
    bool first = true;
    for (auto &[k, v] : s.labels) {
      out << (first ? "" : ", ") << jstr(k) << ": " << v;
      first = false;
    }
    out << "}, \"samples\": [";
    for (size_t k = 0; k < s.samples.size() && k < 3; ++k) out << (k ? ", " : "") << s.samples[k];
    out << "]}";
  }
  out << "]}\n";
  out.close();
  if (violation) {
    printf("FAILED %s\n", vmsg.c_str());
    return 1;
  }
  if (lost) {
    fprintf(stderr, "%d worker(s) were ended from outside\n", lost);
    return 3;
  }
  return 0;
}

} // namespace pbt

int main(int argc, char **argv) {
  using namespace pbt;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") O.prop = val();
    else if (a == "--tier") O.tier = val();
    else if (a == "--seed") O.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--jobs") O.jobs = std::min(64, std::max(1, atoi(val().c_str())));
    else if (a == "--out") O.out = val();
    else if (a == "--distinct-in") O.distinct_in = val();
    else if (a == "--distinct-out") O.distinct_out = val();
    else if (a == "--replay-out") O.replay_out = val();
    else if (a == "--replay") O.replay_in = val();
    else if (a == "--variant") O.variant = val();
    else if (a == "--mode") O.mode = val();
    else if (a == "--div") O.div = atof(val().c_str());
    else if (a == "--mult") O.mult = atof(val().c_str());
    else if (a == "--budget") O.budget = atof(val().c_str());
    else if (a == "--hang") { O.hang_cpu = atof(val().c_str()); O.hang_wall = O.hang_cpu * 1.6; }
    else if (a == "--list") O.list = true;
    else if (a == "--set") {
      std::string kv = val();
      auto p = kv.find('=');
      options[kv.substr(0, p)] = p == std::string::npos ? "" : kv.substr(p + 1);
    } else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  add_limit_modes();
  if (O.list) {
    for (auto &m : modes())
      printf("%s %s %s quick=%llu thorough=%llu\n", m.prop.c_str(), m.name.c_str(), m.enumerated ? "enum" : "random",
             (unsigned long long)m.quick, (unsigned long long)m.thorough);
    return 0;
  }
  // Same addresses in every run where the system allows it, so that a failure
  // that depends on them replays.
  if (!getenv("PBT_NO_ASLR")) {
    setenv("PBT_NO_ASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 2;
  }
  g_scratch = tmpl;
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  // the library recurses along terms: a deep recursion is no finding of ours
  rlimit stack{};
  getrlimit(RLIMIT_STACK, &stack);
  if (stack.rlim_cur != RLIM_INFINITY && stack.rlim_cur < (100ul << 20)) {
    stack.rlim_cur = std::min<rlim_t>(stack.rlim_max, 100ul << 20);
    setrlimit(RLIMIT_STACK, &stack);
  }
  if (O.variant == "plain") { // sanitized builds have their own limit (driver)
    rlimit as{(rlim_t)6 << 30, (rlim_t)6 << 30};
    setrlimit(RLIMIT_AS, &as);
  }
  signal(SIGPIPE, SIG_IGN);
  if (!O.replay_in.empty()) { // the variant decides the seeds
    std::ifstream f(O.replay_in);
    std::string p, t, s;
    f >> p >> t >> s >> O.variant;
  }
  int rc = O.replay_in.empty() ? do_run() : do_replay();
  g_scratch = tmpl;
  cleanup();
  return rc;
}
