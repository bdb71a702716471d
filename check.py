#!/usr/bin/env python3
"""Builds the harness for one property from /repo's working tree, runs it,
writes evidence/<id>.json and reports.

  check.py <property> [--tier quick|thorough]     run the check
  check.py --replay <file.replay>                 replay one recorded failure
  check.py --selftest                             the toolchain works
  check.py --build                                compile everything once

Exit status: 0 the property held on everything explored, 1 with a VIOLATION
line if it is broken, 2 or 3 if the check itself could not run.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")
JOBS = max(2, min(8, os.cpu_count() or 2))

# C26 counts executed basic blocks
EXTRA_FLAGS = {"lazy": ["-fsanitize-coverage=trace-pc"]}
VARIANTS = {
    # how the library and the harness are compiled; NDEBUG as in the project's own build
    "plain": ["-O2", "-g1", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr",
             "-fno-sanitize-recover=all"],
    "memcheck": ["-O1", "-g1", "-DNDEBUG"],  # run under valgrind
    "tsan": ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}

GEN = ("Every case is drawn from a choice sequence seeded by VERIF_SEED, the property, the mode, the build variant "
       "and the case number; enumerated modes walk their whole space. ")

# property -> harness binary, parts (variant, divisor of the case counts), level, what makes a case non-trivial
P = {}


def prop(pid, binary, parts, rule, level="exploration", assumptions=None):
    P[pid] = dict(binary=binary, parts=parts, rule=GEN + rule, level=level, assumptions=assumptions or [])


SEM = [("plain", 1), ("asan", 25)]
DP = "the textbook dynamic programmes in harness/model.h define the three distances"
for _p in ("C01", "C02", "C03"):
    prop(_p, "query", SEM, "A case is a generated dictionary with one or more queries; it is non-trivial if some query "
         "has both a dictionary term within the bound and one outside it (for extreme bounds: non-empty dictionary and query).",
         assumptions=[DP])
prop("C04", "query", SEM, "A case is a generated dictionary with one or more queries whose reported distances are compared "
     "with the reference distance; non-trivial if some query has a term within and one outside the bound "
     "(for extreme bounds: non-empty dictionary and query).", assumptions=[DP])
prop("C05", "dict", SEM, "A case is a generated set of terms, built through one of five routes and compared with the set; "
     "non-trivial if it has at least two terms.")
prop("C06", "dict", SEM, "A case is a sequence of terms, ascending or not; non-trivial if it has at least two terms "
     "(incremental mode: at least one accepted and one rejected term).")
prop("C07", "dict", SEM, "A case is a generated set of terms whose graph is compared with the minimal automaton; non-trivial "
     "if the graph shares nodes (fewer nodes than trie bound, more than two terms), in enumerated mode at least two terms.")
prop("C08", "dict", SEM, "A case is a pair of near-equal dictionaries or graphs; non-trivial if the first has at least two terms "
     "(node mode: both an equal pair of distinct nodes and an unequal pair were compared).")
prop("C09", "ser", SEM, "A case is a generated dictionary taken through one to three save/load generations; non-trivial if it "
     "has at least two terms (unreadable paths: always).")
prop("C10", "ser", [("plain", 1), ("asan", 15)], "A case is a generated dictionary and an injected fault at every byte offset "
     "(streams) or at drawn file size limits; non-trivial if at least one fault was injected.", level="fault_enumeration",
     assumptions=["disk-full conditions are represented by RLIMIT_FSIZE, /dev/full (written to by an unprivileged child process only) and failing stream buffers"])
prop("C11", "ser", [("plain", 1), ("asan", 10)], "A case is a byte sequence derived from a saved dictionary by damage to bytes or to the "
     "stored graph, or noise; non-trivial if it differs from a well-formed saved dictionary.", level="fault_enumeration")
prop("C12", "dist", SEM, "A case is a pair of strings compared under all three functions; non-trivial if they differ and neither is empty.",
     assumptions=[DP])
prop("C13", "dist", SEM, "A case is a triple of strings with affixes; non-trivial if the three differ and none is empty "
     "(enumerated: first two differ).")
prop("C14", "dist", SEM, "A case is a history of calls on one distance object; non-trivial if it has at least four calls.",
     assumptions=[DP])
prop("C16", "hist", SEM, "A case is a history of opening, advancing, abandoning, draining and repeating queries on shared "
     "transducers; non-trivial if some pass has a term within and one outside the bound.", assumptions=[DP])
prop("C18", "meta", SEM, "A case is a dictionary, queries and a permutation of the byte values; non-trivial if some query has "
     "candidates but not the whole dictionary (byte pairs: always).")
prop("C19", "meta", SEM, "A case is a dictionary (or pair of strings) queried with related bounds, algorithms or strings; non-trivial "
     "if the result set grows, differs between algorithms, or the distance is positive, respectively.")
prop("C20", "dict", SEM, "A case is a finished or loaded dictionary with attempted additions and removals; always non-trivial.")
prop("C22", "meta", SEM, "A case is a set of terms with a minimal and a hand-built graph queried alike; non-trivial if a query has "
     "a term within and one outside the bound (single nodes: at least two edges).", assumptions=[DP])

RACE = "schedules are those the operating system and the generated pauses produce; ThreadSanitizer reports unordered accesses in schedules that went well, too"
prop("C15", "conc", [("plain", 1), ("tsan", 4)], "A case is a plan of distance computations for 2 to 120 threads on one shared distance object; "
     "non-trivial if the threads make at least four calls.", assumptions=[DP, RACE])
prop("C17", "conc", [("plain", 1), ("tsan", 4)], "A case is a dictionary and a plan of queries, membership tests and iterations for 2 to 120 threads; "
     "non-trivial if some complete query has a term within and one outside the bound.", assumptions=[DP, RACE])
prop("C21", "mem", [("asan", 1), ("memcheck", 10)], "A case is a history of API calls executed up to four times on fresh objects; non-trivial if it uses "
     "at least three kinds of calls.", assumptions=["invalid accesses are those AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and "
     "valgrind memcheck report; a leak is an allocated size that grows with every repetition of the history"])
prop("C23", "state", [("plain", 1), ("asan", 8)], "A case is a sequence of operations on a state, a triple of positions, or batches to merge or sort; "
     "non-trivial if it has at least three operations, distinct positions, or at least two positions, respectively.")
prop("C24", "demo", [("plain", 1), ("asan", 10)], "A case is one or more sessions of the demo application in a scratch directory; non-trivial if some query line "
     "has matching and non-matching dictionary lines.", assumptions=[DP])
prop("C25", "form", SEM, "A case is a set of terms whose stored form is read by an independent reader, or which is stored by an independent "
     "writer and loaded; non-trivial if it has at least two terms.",
     assumptions=["harness/props_form.cpp transcribes the published schema and the protobuf wire format"])
prop("C26", "lazy", [("plain", 1)], "A case is a query on a small and a large dictionary, or a query consumed in part, whose allocations and executed basic blocks are counted; "
     "non-trivial if the large dictionary has at least 150 more nodes out of reach, or all of its terms are candidates, or (repeated) it has two terms.",
     assumptions=["work is measured as allocations, allocated bytes and executed basic blocks"])
prop("C27", "auto", [("plain", 1), ("asan", 15)], "A case is an automaton of a word with a state to step from, a word to read, pairs of positions, or a state "
     "to remove subsumed positions from; non-trivial if the word is not empty and the bound not nought, two steps are made, some pair has different "
     "errors, or the state has two positions, respectively.", assumptions=[DP])
prop("C28", "value", [("plain", 1), ("asan", 15)], "A case is a set of pairs of strings with operations on a hash map, two graphs whose transitions are compared, or a "
     "tree of paths; non-trivial if equal and different ones occur, or some path has more than two characters (long ones: if they differ).")
prop("C29", "demo", [("plain", 1), ("asan", 10)], "A case is one to three runs of the demo application with generated command lines in a scratch directory; "
     "non-trivial if some command line has at least two words.", assumptions=[DP])

prop("C30", "oom", [("plain", 1), ("asan", 8)], "A case is one or several operations on shared objects during which allocations are made to fail; non-trivial if "
     "some allocation failed (every_point: more than three).", level="fault_enumeration",
     assumptions=[DP, "running out of memory is represented by operator new throwing std::bad_alloc, once or from some point on"])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sources():
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + sorted(glob.glob(REPO + "/third-party/**/*.cpp", recursive=True))
    hdr = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True)) + sorted(glob.glob(REPO + "/third-party/**/*.h", recursive=True))
    return src, hdr


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def run_all(cmds):
    def one(c):
        r = sh(c)
        if r.returncode != 0:
            raise BuildError(" ".join(c[:1] + c[-4:]) + "\n" + r.stdout[-6000:])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(one, c) for c in cmds]:
            f.result()


def build(variant, binary):
    """Returns the path of the harness binary compiled from the current tree."""
    flags = VARIANTS[variant] + EXTRA_FLAGS.get(binary, [])
    src, hdr = sources()
    proto = REPO + "/proto/liblevenshtein.proto"
    harness = sorted(glob.glob(HARNESS + "/*.h")) + [HARNESS + "/engine.cpp", HARNESS + "/props_%s.cpp" % binary]
    demo = []
    if binary == "demo":
        demo = sorted(glob.glob(REPO + "/example/src/*.cpp")) + sorted(glob.glob(REPO + "/example/src/*.h"))
    key = digest(src + hdr + [proto] + harness + demo, variant + " ".join(flags) + binary)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s-%s" % (variant, binary, key))
    exe = os.path.join(out, binary)
    with open(os.path.join(BUILD, "lock-%s-%s" % (variant, binary)), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "done")):
            return exe
        for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (variant, binary))):
            shutil.rmtree(old, ignore_errors=True)
        inc = os.path.join(out, "inc")
        pb = os.path.join(inc, "liblevenshtein", "proto")
        os.makedirs(pb)
        r = sh(["protoc", "--proto_path=" + REPO + "/proto", "--cpp_out=" + pb, proto])
        if r.returncode != 0:
            raise BuildError(r.stdout)
        base = ["g++", "-std=c++20", "-w"] + flags + ["-I" + REPO + "/src", "-I" + REPO + "/third-party", "-I" + inc, "-I" + HARNESS]
        cmds, objs = [], []
        units = [(HARNESS + "/props_%s.cpp" % binary, "props"), (HARNESS + "/engine.cpp", "engine")]
        units += [(s, "lib%d" % i) for i, s in enumerate(src)] + [(s, "pb%d" % i) for i, s in enumerate(glob.glob(pb + "/*.cc"))]
        for s, name in units:
            o = os.path.join(out, name + ".o")
            cmds.append(base + ["-c", s, "-o", o])
            objs.append(o)
        demo_objs = []
        for i, s in enumerate(x for x in demo if x.endswith(".cpp")):
            o = os.path.join(out, "demo%d.o" % i)
            cmds.append(base + ["-I" + REPO + "/example/src", "-c", s, "-o", o])
            demo_objs.append(o)
        run_all(cmds)
        run_all([["g++"] + flags + ["-o", exe] + objs + ["-lprotobuf", "-lpthread"]])
        if demo_objs:
            lib = [o for o in objs if not o.endswith(("props.o", "engine.o"))]
            run_all([["g++"] + flags + ["-o", exe + ".app"] + demo_objs + lib + ["-lprotobuf", "-lpthread"]])
        compiled_limits(out)
        for o in objs + demo_objs:
            os.unlink(o)
        open(os.path.join(out, "done"), "w").close()
    return exe


def compiled_limits(out):
    """Notes the numbers that the library's machine code compares with."""
    r = sh(["objdump", "-d", "--no-show-raw-insn"] + glob.glob(out + "/lib*.o"))
    found = set(int(m, 16) for m in re.findall(r"\bcmp[a-z]*\s+\$0x([0-9a-f]+)", r.stdout)) if r.returncode == 0 else set()
    with open(os.path.join(out, "limits"), "w") as f:
        f.write(" ".join(str(x) for x in sorted(found)))


def env_for(variant):
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:"
                         "hard_rss_limit_mb=5000:allocator_may_return_null=1:strict_string_checks=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    if variant == "memcheck":
        e["PBT_NO_ASLR"] = "1"
    e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:report_signal_unsafe=0:history_size=4"
    return e


def prefix_for(variant):
    if variant == "memcheck":  # reads of uninitialised memory, which the compiled-in sanitizers do not see
        return ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=97", "--leak-check=no"]
    return []


def literals():
    """Numbers and characters that occur in the library's source, and may be limits of some kind. They
    only direct the search; verdicts do not depend on them."""
    out = set()
    widths = {"int8_t": 7, "uint8_t": 8, "UINT8_MAX": 8, "INT8_MAX": 7, "UCHAR_MAX": 8, "CHAR_MAX": 7, "int16_t": 15, "uint16_t": 16,
              "short": 16, "INT16_MAX": 15, "UINT16_MAX": 16, "SHRT_MAX": 15, "USHRT_MAX": 16}
    escapes = {"n": 10, "t": 9, "r": 13, "0": 0, "a": 7, "b": 8, "f": 12, "v": 11}
    for f in sources()[0] + sources()[1]:
        if "third-party" in f:
            continue
        t = open(f, errors="replace").read()
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"^\s*#.*$", " ", t, flags=re.M)
        t = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", t)
        for m in re.finditer(r"(?<![0-9a-fA-F])'(\\x[0-9a-fA-F]+|\\[0-7]{1,3}|\\.|[^'\\\n])'", t):
            c = m.group(1)
            if c[0] != "\\":
                out.add(ord(c) & 255)
            elif c[1] == "x":
                out.add(int(c[2:], 16) & 255)
            elif c[1] in "01234567":
                out.add(int(c[1:], 8) & 255)
            else:
                out.add(escapes.get(c[1], ord(c[1]) & 255))
        t = re.sub(r"(?<![0-9a-fA-F])'(?:[^'\\\n]|\\.)+'", " ", t)
        num = r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)[uUlLzZ]*(?![\w.])"
        for m in re.finditer(num, t):
            d = m.group(1).replace("'", "")
            out.add(int(d, 8) if re.fullmatch(r"0[0-7]+", d) else int(d, 0) if not re.fullmatch(r"0\d+", d) else int(d))
        for m in re.finditer(r"(?<![\w.])(\d+)[uUlL]*\s*<<\s*(\d+)", t):
            out.add(int(m.group(1)) << min(int(m.group(2)), 64))
        for w in re.findall(r"\w+", t):
            if w in widths:
                out.add(1 << widths[w])
    return sorted(x for x in out if 2 < x <= 1 << 20 or x == 0)


def known(pid):
    """The findings listed for a property: list of (tag, text)."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) \[([\w-]+)\] (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def run_check(pid, tier, seed):
    t0 = time.time()
    spec = P[pid]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    findings, lits = known(pid), literals()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(build, v, spec["binary"]) for v, _ in spec["parts"]]
        exes = [f.result() for f in futs]
    build_s = time.time() - t0
    compiled = set(int(x) for x in open(os.path.join(os.path.dirname(exes[0]), "limits")).read().split())
    lits = sorted(set(lits) | set(x for x in compiled if 8 < x <= 1 << 20))
    parts, violation, error = [], None, None
    distinct = os.path.join(BUILD, "distinct-%s" % pid)
    if os.path.exists(distinct):
        os.unlink(distinct)
    for (variant, div), exe in zip(spec["parts"], exes):
        out = os.path.join(BUILD, "out-%s-%s.json" % (pid, variant))
        rep = os.path.join(EVID, "replays", "%s-%s" % (pid, variant))
        for f in (out, rep + ".json", rep + ".replay"):
            if os.path.exists(f):
                os.unlink(f)
        budget = {"quick": 150, "thorough": 900}[tier]
        cmd = [exe, "--prop", pid, "--tier", tier, "--seed", str(seed), "--jobs", str(JOBS), "--out", out,
               "--replay-out", rep, "--variant", variant, "--div", str(div), "--budget", str(budget),
               "--distinct-in", distinct, "--distinct-out", distinct]
        if variant != "plain":
            cmd += ["--hang", "60"]
        cmd = prefix_for(variant) + cmd
        if findings:
            cmd += ["--set", "known=" + ",".join(t for t, _ in findings)]
        if spec["binary"] == "demo":
            cmd += ["--set", "app=" + exe + ".app"]
        cmd += ["--set", "literals=" + " ".join(map(str, lits))]
        r = subprocess.run(cmd, env=env_for(variant), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode not in (0, 1) or not os.path.exists(out):
            error = "%s part of %s ended with status %d: %s" % (variant, pid, r.returncode, r.stderr[-2000:])
            break
        d = json.load(open(out))
        parts.append(d)
        if d["violation"]:
            violation = (rep + ".json", d["message"])
            break
    if os.path.exists(distinct):
        os.unlink(distinct)
    if error:
        print(error, file=sys.stderr)
        return 3
    samples, modes, seen_known = [], [], 0
    for d in parts:
        for m in d["modes"]:
            samples += m["samples"][:1] if d is not parts[0] else m["samples"][:2]
            modes.append(dict(variant=d["variant"], mode=m["name"], cases=m["cases"], nontrivial=m["nontrivial"],
                              comparisons=m["comparisons"], labels=m["labels"], slowest_case_s=m["slowest_case_s"],
                              **({"enumerated_space": m["space"]} if m["enumerated"] else {})))
            seen_known += sum(v for k, v in m["labels"].items() if k.startswith("KNOWN "))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"],
              coverage=dict(evaluations=sum(d["cases"] for d in parts),
                            distinct_nontrivial=parts[-1]["distinct_nontrivial"],
                            rule=spec["rule"], samples=samples[:14],
                            comparisons_against_oracle=sum(d["comparisons"] for d in parts),
                            modes=modes,
                            limits_taken_from_the_source=lits,
                            stopped_by_time_budget=any(d["budget_hit"] for d in parts)),
              assumptions=spec["assumptions"] + ["compiled with g++ from /repo's working tree; variants: " +
                                                 ", ".join(v + " (" + " ".join(VARIANTS[v]) + ")" for v, _ in spec["parts"])],
              wall_s=round(time.time() - t0, 2), build_s=round(build_s, 2), violations=1 if violation else 0)
    if seen_known:
        ev["coverage"]["known_finding_occurrences"] = seen_known
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    if violation:
        print("%s: %s" % (pid, violation[1]))
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    if seen_known:
        for tag, text in findings:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s" %
          (pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def replay(path):
    if path.endswith(".json"):
        path = path[:-5] + ".replay"
    pid, tier, seed, variant = open(path).readline().split()
    exe = build(variant, P[pid]["binary"])
    cmd = prefix_for(variant) + [exe, "--replay", path]
    if known(pid):
        cmd += ["--set", "known=" + ",".join(t for t, _ in known(pid))]
    if P[pid]["binary"] == "demo":
        cmd += ["--set", "app=" + exe + ".app"]
    cmd += ["--set", "literals=" + " ".join(map(str, literals()))]
    return subprocess.run(cmd, env=env_for(variant)).returncode


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        if args[:1] == ["--replay"]:
            return replay(args[1])
        if args[:1] == ["--selftest"]:  # setup: the tools the checks need are there and work
            for tool in ("g++", "protoc"):
                if sh([tool, "--version"]).returncode != 0:
                    print(tool + " is missing", file=sys.stderr)
                    return 2
            build("plain", "dist")
            return 0
        if args[:1] == ["--build"]:
            for v, b in sorted({(v, s["binary"]) for s in P.values() for v, _ in s["parts"]}):
                build(v, b)
            return 0
        if len(args) != 1 or args[0] not in P:
            print(__doc__)
            return 2
        return run_check(args[0], tier, seed)
    except BuildError as e:
        print("the harness does not build from this tree:\n%s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
