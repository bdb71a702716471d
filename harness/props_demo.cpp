// C24: a demo session prints exactly the matching terms and survives restarts;
// C29: the demo follows its command line.
#include "gen.h"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using gen::Strings;
using pbt::Ctx;
using pbt::Reg;
using pbt::show;

namespace {

std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void spit(const std::string &p, const std::string &b) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << b;
}

struct Session {
  int algo = -1;              // -1: not given
  bool bound_given = false;
  size_t bound = 2;
  bool dictionary = true;     // --dictionary-path given
  Strings queries;
  bool unterminated = false;  // the last query line lacks its newline
  bool empty_line = false;    // the session is ended by an empty line, more follows
  bool swapped = false;       // options in another order
};

// The listed finding: without a newline at the end of the input the demo
// repeats the last query for ever (here: until the output reaches its limit).
bool listed() {
  return pbt::options.count("known") && pbt::options["known"].find("unterminated-input") != std::string::npos;
}

// Runs the demo in `dir`; "in", "out" and "err" are its streams.
int launch(Ctx &c, const std::string &dir, std::vector<std::string> args, rlim_t most) {
  std::vector<char *> argv;
  args.insert(args.begin(), pbt::options["app"]);
  for (auto &a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  unlink((dir + "/out").c_str());
  pid_t pid = fork();
  if (pid == 0) {
    int i = open((dir + "/in").c_str(), O_RDONLY);
    int o = open((dir + "/out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    int e = open((dir + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(i, 0);
    dup2(o, 1);
    dup2(e, 2);
    rlimit fs{most, most};
    setrlimit(RLIMIT_FSIZE, &fs);
    if (chdir(dir.c_str()) == 0) execv(argv[0], argv.data());
    _exit(126);
  }
  int status = 0;
  rusage ru{};
  double waited = 0;
  for (;;) {
    pid_t r = wait4(pid, &status, WNOHANG, &ru);
    if (r == pid) break;
    usleep(waited < 0.05 ? 300 : 3000);
    waited += waited < 0.05 ? 0.0003 : 0.003;
    if (waited > 30) { // the sleeps alone took 30 s: far beyond any session generated here
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      c.fail("the demo session does not end");
    }
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 126) {
    fprintf(stderr, "cannot run %s\n", argv[0]);
    _exit(77);
  }
  return status;
}

std::string ending(const std::string &dir, int status) {
  std::string err = slurp(dir + "/err"), why;
  size_t at = err.find("ERROR:");
  if (at == std::string::npos) at = err.find("runtime error");
  if (at != std::string::npos) why = ": " + err.substr(at, 160);
  return (WIFSIGNALED(status) ? std::string("signal ") + strsignal(WTERMSIG(status)) : "status " + std::to_string(WEXITSTATUS(status))) + why;
}

std::string run(Ctx &c, const std::string &dir, const Session &s, bool &endless) {
  std::vector<std::string> args;
  auto dict = [&] {
    if (s.dictionary) args.insert(args.end(), {"--dictionary-path", dir + "/words.txt"});
  };
  auto ser = [&] { args.insert(args.end(), {"--serialization-path", dir + "/words.pb"}); };
  auto algo = [&] {
    if (s.algo == 0) args.push_back("--standard");
    if (s.algo == 1) args.push_back("--transposition");
    if (s.algo == 2) args.push_back("--merge-and-split");
    if (s.bound_given) args.insert(args.end(), {"--max-distance", std::to_string(s.bound)});
  };
  if (s.swapped) {
    algo();
    ser();
    dict();
  } else {
    dict();
    ser();
    algo();
  }
  std::string in;
  for (size_t i = 0; i < s.queries.size(); ++i) {
    in += s.queries[i];
    if (!(s.unterminated && i + 1 == s.queries.size())) in += '\n';
  }
  if (s.empty_line) in += "\nignored\n";
  spit(dir + "/in", in);
  int status = launch(c, dir, args, s.unterminated ? 1 << 17 : 64 << 20);
  endless = s.unterminated && WIFSIGNALED(status) && WTERMSIG(status) == SIGXFSZ;
  if (endless && listed()) return slurp(dir + "/out");
  if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) c.fail("the demo session ended with " + ending(dir, status));
  return slurp(dir + "/out");
}

void judge(Ctx &c, const std::string &out, const std::set<std::string> &lines, const Session &s, bool endless) {
  static const std::string mark = "\nEnter a query term (or nothing to exit).\nquery> ";
  std::vector<std::string> blocks;
  size_t at = out.find(mark);
  c.check(at != std::string::npos, "the demo never prompts");
  while (at != std::string::npos) {
    size_t from = at + mark.size();
    size_t next = out.find(mark, from);
    blocks.push_back(out.substr(from, next == std::string::npos ? std::string::npos : next - from));
    at = next;
  }
  if (endless) { // every further answer is the last one again
    c.check(blocks.size() > s.queries.size() + 1, "the output of the demo ends too early");
    for (size_t k = s.queries.size(); k + 1 < blocks.size(); ++k)
      c.check(blocks[k] == blocks[s.queries.size() - 1], "the demo answers a query that was not asked");
    c.label("KNOWN input without a newline at its end is answered for ever");
    blocks.resize(s.queries.size() + 1);
    blocks.back() = "Exiting ...";
  }
  c.check(blocks.size() == s.queries.size() + 1, [&] {
    return "the demo prompts " + std::to_string(blocks.size()) + " times for " + std::to_string(s.queries.size()) + " queries and the end";
  });
  int algo = s.algo < 0 ? 1 : s.algo;
  for (size_t k = 0; k < s.queries.size(); ++k) {
    std::multiset<std::string> got;
    std::istringstream is(blocks[k]);
    std::string l;
    while (std::getline(is, l)) got.insert(l);
    std::multiset<std::string> want;
    for (auto &t : lines) {
      size_t d = model::distance(algo, s.queries[k], t);
      if (d <= s.bound) want.insert("d(\"" + s.queries[k] + "\", \"" + t + "\") = " + std::to_string(d));
    }
    if (!want.empty() && want.size() < lines.size()) c.nontrivial();
    c.compared(lines.size());
    if (got != want) {
      std::string m = "answers to " + show(s.queries[k]) + " (" + model::algo_name(algo) + ", " + std::to_string(s.bound) + "):";
      size_t n = 0;
      for (auto &w : want)
        if (!got.count(w) && n++ < 3) m += " missing " + show(w);
      for (auto &g : got)
        if (got.count(g) != want.count(g) && want.count(g) < got.count(g) && n++ < 6) m += " unexpected " + show(g);
      c.fail(m);
    }
  }
  c.check(blocks.back().find("Exiting ...") != std::string::npos, "the demo does not announce its end");
}

std::string line_alphabet(Ctx &c) {
  std::string a = gen::alphabet(c), o;
  for (char ch : a)
    if (ch != '\n') o += ch;
  return o;
}

Session draw(Ctx &c, const Strings &dict, const std::string &alpha, size_t max_len) {
  Session s;
  s.algo = (int)c.below(4) - 1;
  s.bound_given = c.coin();
  if (s.bound_given) s.bound = c.chance(1, 12) ? gen::extreme(c) : c.below(5);
  s.swapped = c.coin();
  size_t n = c.below(5);
  for (size_t i = 0; i < n; ++i) {
    std::string q;
    for (char ch : gen::query_for(c, dict, alpha, max_len + 1))
      if (ch != '\n') q += ch;
    if (q.size() > 9 && s.bound > 4) q.resize(9);
    if (max_len > 20 && s.bound > 8) s.bound = 8;
    if (q.empty()) q = alpha.substr(0, 1);
    s.queries.push_back(q);
  }
  s.unterminated = !s.queries.empty() && c.chance(1, 6);
  s.empty_line = !s.unterminated && c.chance(1, 6);
  return s;
}

std::string tell(const Session &s) {
  return std::string("; session ") + (s.dictionary ? "with" : "without") + " dictionary, " +
         (s.algo < 0 ? "default algorithm" : model::algo_name(s.algo)) + ", bound " + std::to_string(s.bound) + (s.bound_given ? "" : " (default)") +
         ": " + show(s.queries) + (s.unterminated ? " unterminated" : "") + (s.empty_line ? " then an empty line" : "");
}

void sessions(Ctx &c, gen::DictOpt opt, size_t max_sessions) {
  std::string alpha = line_alphabet(c);
  auto set = gen::term_set(c, alpha, opt);
  std::set<std::string> lines;
  for (auto t : set) {
    t.erase(std::remove(t.begin(), t.end(), '\n'), t.end());
    lines.insert(t);
  }
  Strings file(lines.begin(), lines.end());
  size_t reps = c.below(4);
  for (size_t i = 0; i < reps && !lines.empty(); ++i) file.push_back(file[c.below(file.size())]);
  for (size_t k = file.size(); k > 1; --k) std::swap(file[k - 1], file[c.below(k)]);
  bool last = c.coin(); // whether the last line is terminated
  std::string text;
  for (size_t i = 0; i < file.size(); ++i) {
    text += file[i];
    if (i + 1 < file.size() || last || file[i].empty()) text += '\n';
  }
  c.describe([&] { return "lines " + show(file); });
  Strings dict = gen::to_vec(lines);
  std::string dir = pbt::scratch_dir() + "/demo";
  mkdir(dir.c_str(), 0700);
  for (const char *f : {"/words.txt", "/words.pb", "/in", "/out", "/err"}) unlink((dir + f).c_str());
  spit(dir + "/words.txt", text);
  size_t n = c.range(1, max_sessions);
  for (size_t k = 0; k < n; ++k) {
    Session s = draw(c, dict, alpha, opt.max_len);
    if (max_sessions > 3 && k + 1 < n) s.unterminated = false; // nothing is saved in such a session
    bool noise = false;
    if (k > 0) {
      switch (max_sessions > 3 && k + 1 < n ? c.weighted({2, 2, 0, 3}) : c.below(4)) {
      case 0: // a restart with the saved file only
        s.dictionary = false;
        unlink((dir + "/words.txt").c_str());
        break;
      case 1: { // torn
        std::string b = slurp(dir + "/words.pb");
        if (!b.empty()) b.resize(c.below(b.size()));
        c.describe([&] { return "; saved file cut to " + std::to_string(b.size()) + " bytes"; });
        spit(dir + "/words.pb", b);
        if (c.coin()) { // and the dictionary file has changed
          std::set<std::string> some;
          for (auto &t : lines)
            if (c.chance(1, 3)) some.insert(t);
          std::string extra = gen::str(c, alpha, 6);
          if (c.chance(1, 3)) some.insert(extra);
          lines = some;
          dict = gen::to_vec(lines);
          text.clear();
          for (auto &t : dict) text += t + "\n";
          c.describe([&] { return "; new lines " + show(dict); });
          c.label("dictionary file changed");
        }
        spit(dir + "/words.txt", text);
        break;
      }
      case 2: { // overwritten in part: may or may not be noticed, but must not crash
        std::string b = slurp(dir + "/words.pb");
        size_t m = c.range(1, 6);
        for (size_t i = 0; i < m && !b.empty(); ++i) b[c.below(b.size())] = (char)c.below(256);
        c.describe([&] { return "; saved file damaged"; });
        spit(dir + "/words.pb", b);
        spit(dir + "/words.txt", text);
        noise = true;
        break;
      }
      default: spit(dir + "/words.txt", text);
      }
    }
    c.describe([&] { return tell(s); });
    if (noise) { // no bound beyond the ordinary for a dictionary we do not know
      if (s.bound > 4) s.bound = 4;
      c.label("damaged saved file");
      bool endless;
      run(c, dir, s, endless);
      return;
    }
    bool endless;
    std::string out = run(c, dir, s, endless);
    judge(c, out, lines, s, endless);
    if (endless) return; // nothing was saved
    c.label(s.dictionary ? "session with dictionary" : "session with saved file only");
  }
}

// ---------------------------------------------------------------- C29
// A command line is read from left to right: the first thing wrong with it, or
// a request for help, decides; otherwise the last of several values counts.
void command_lines(Ctx &c) {
  std::string dir = pbt::scratch_dir() + "/cwd", res = pbt::scratch_dir() + "/resources";
  mkdir(dir.c_str(), 0700);
  mkdir(res.c_str(), 0700);
  const std::string deflt = "../resources/programming-languages.txt", stored = "programming-languages.pb";
  // the words of each file; every list tells the algorithms and bounds apart
  std::map<std::string, std::set<std::string>> text{
      {"one.txt", {"ab", "ba", "c", "abcd", "one"}}, {"two words.txt", {"ab", "ba", "c", "two"}}, {"--standard", {"ab", "ba", "cc", "three"}}, {deflt, {"ab", "ba", "c", "four"}}};
  std::set<std::string> present;
  for (auto &[f, w] : text) {
    unlink((dir + "/" + f).c_str());
    bool there = f == deflt ? c.chance(1, 3) : c.chance(4, 5);
    if (!there) continue;
    std::string b;
    for (auto &t : w) b += t + "\n";
    spit(dir + "/" + f, b);
    present.insert(f);
  }
  const Strings stores{"a.pb", "b.pb", "-h", stored};
  for (auto &f : stores) unlink((dir + "/" + f).c_str());
  std::map<std::string, std::set<std::string>> saved;
  c.describe([&] {
    std::string o = "files";
    for (auto &f : present) o += " " + show(f);
    return o + ";";
  });
  size_t runs = c.range(1, 3);
  for (size_t r = 0; r < runs; ++r) {
    Strings args;
    size_t n = c.below(6);
    for (size_t i = 0; i < n; ++i) {
      bool last = i + 1 == n && c.chance(1, 5); // the value may be missing
      switch (c.weighted({8, 8, 3, 3, 3, 6, 1, 2})) {
      case 0:
        args.push_back("--dictionary-path");
        if (!last) args.push_back(c.weighted({5, 1}) ? "absent.txt" : (const char *[]){"one.txt", "two words.txt", "--standard"}[c.below(3)]);
        break;
      case 1:
        args.push_back("--serialization-path");
        if (!last) args.push_back(stores[c.below(3)]);
        break;
      case 2: args.push_back("--standard"); break;
      case 3: args.push_back("--transposition"); break;
      case 4: args.push_back("--merge-and-split"); break;
      case 5:
        args.push_back("--max-distance");
        if (!last) args.push_back(std::to_string(c.chance(1, 10) ? gen::extreme(c) : c.below(5)));
        break;
      case 6: args.push_back(c.coin() ? "-h" : "--help"); break;
      default: { // an option that does not exist, often nearly one that does
        static const Strings real{"-h", "--help", "--standard", "--transposition", "--merge-and-split", "--max-distance", "--dictionary-path", "--serialization-path"};
        std::string w = c.coin() ? real[c.below(real.size())] : gen::str(c, "-sh", 6);
        switch (c.below(4)) {
        case 0: w += "="; break;
        case 1: w = w.substr(0, c.below(w.size() + 1)); break;
        case 2:
          if (!w.empty()) w[c.below(w.size())] ^= 32;
          break;
        default: w += 's';
        }
        if (std::find(real.begin(), real.end(), w) == real.end() && c.coin()) args.push_back(w);
      }
      }
    }
    c.describe([&] { return " run " + show(args); });
    // the model
    int want = -1; // the exit status if no session takes place
    std::string dict = deflt, store = stored;
    Session s;
    for (size_t i = 0; i < args.size() && want < 0; ++i) {
      const std::string &a = args[i];
      bool more = i + 1 < args.size();
      if (a == "-h" || a == "--help") want = 0;
      else if (a == "--dictionary-path") {
        if (!more) want = 2;
        else if (!present.count(dict = args[++i])) want = 3;
      } else if (a == "--serialization-path") {
        if (!more) want = 2;
        else store = args[++i];
      } else if (a == "--standard") s.algo = 0;
      else if (a == "--transposition") s.algo = 1;
      else if (a == "--merge-and-split") s.algo = 2;
      else if (a == "--max-distance") {
        if (!more) want = 2;
        else s.bound = std::stoull(args[++i]);
      } else want = 4;
    }
    if (want < 0 && !present.count(dict) && !saved.count(store)) want = 3;
    s.queries = {"ab", "two"};
    spit(dir + "/in", "ab\ntwo\n\n");
    int status = launch(c, dir, args, 64 << 20);
    int expected = want < 0 ? 0 : want;
    c.check(WIFEXITED(status) && WEXITSTATUS(status) == expected,
            [&] { return "with " + show(args) + " the demo ended with " + ending(dir, status) + ", expected status " + std::to_string(expected); });
    std::string out = slurp(dir + "/out");
    if (want >= 0) {
      c.check(out.find("query> ") == std::string::npos, [&] { return "with " + show(args) + " the demo prompts although it ought not to start"; });
      c.check(!slurp(dir + "/err").empty(), [&] { return "with " + show(args) + " the demo says nothing on standard error"; });
      c.label("status " + std::to_string(want));
    } else {
      auto has = [&](const std::string &l) { return ("\n" + out).find("\n  " + l + "\n") != std::string::npos; };
      static const char *name[] = {"standard", "transposition", "merge-and-split"};
      c.check(has(std::string("algorithm: ") + name[s.algo < 0 ? 1 : s.algo]), [&] { return "with " + show(args) + " the demo reports another algorithm"; });
      c.check(has("max-distance: " + std::to_string(s.bound)), [&] { return "with " + show(args) + " the demo reports another distance"; });
      const std::set<std::string> lines = saved.count(store) ? saved[store] : text[dict];
      judge(c, out, lines, s, false);
      saved[store] = lines;
      c.label("session");
    }
    for (auto &f : stores)
      c.check((access((dir + "/" + f).c_str(), F_OK) == 0) == (saved.count(f) > 0), [&] { return "after " + show(args) + " the file " + show(f) + (saved.count(f) ? " is missing" : " exists"); });
    if (args.size() >= 2) c.nontrivial();
  }
}

Reg r2("C29", "command_lines", 12000, 250000, command_lines);
Reg r1("C24", "sessions", 20000, 400000, [](Ctx &c) { sessions(c, {25, 7}, 3); });
Reg r3("C24", "many_sessions", 600, 12000, [](Ctx &c) { sessions(c, {12, 6}, 25); });
Reg r4("C24", "long_lines", 600, 12000, [](Ctx &c) { sessions(c, {12, 300}, 3); });
Reg r5("C24", "many_lines", 400, 8000, [](Ctx &c) { sessions(c, {3000, 8}, 3); });
} // namespace
