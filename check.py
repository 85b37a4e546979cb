#!/usr/bin/env python3
"""Driver: builds a property's harnesses from /repo's working tree, runs the generated search, replays and
reports.  usage: check.py <ID> [--tier quick|thorough] | check.py --replay <file> | check.py --selftest"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

INC = os.path.join(REPO, "sdk/include")
SRC = os.path.join(REPO, "sdk/src")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")
DEF = ["-DTC_SDK_VERIF=1"]
BASE = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-w", "-I", INC, "-I", os.path.join(VERIF, "lib")] + DEF
MODES = {
    # sequential code: memory errors and undefined behaviour become visible failures
    "asan": dict(cxx="g++", lib=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
                 har=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
                 link=["-fsanitize=address,undefined", "-pthread"], sim=False),
    "plain": dict(cxx="g++", lib=["-O1", "-D_GLIBCXX_ASSERTIONS"], har=["-O1", "-D_GLIBCXX_ASSERTIONS"], link=["-pthread"], sim=False),
    # concurrent code: TSan instrumentation, but our own runtime (lib/simrt.cpp) owns schedule and clock
    "sim": dict(cxx="g++", lib=["-O1", "-fsanitize=thread", "-fno-pie"], har=["-O1", "-fsanitize=thread", "-fno-pie"],
                link=["-no-pie", "-pthread", "-rdynamic"], sim=True),
    # coverage-guided search over the same choice sequences
    "fuzz": dict(cxx="clang++", lib=["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"],
                 har=["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-DPBT_FUZZ"],
                 link=["-fsanitize=fuzzer,address,undefined", "-pthread"], sim=False),
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", TZ="UTC", LC_ALL="C")


class BuildError(Exception):
    def __init__(self, what, log, harness_only):
        super().__init__(what)
        self.what, self.log, self.harness_only = what, log, harness_only


def tree_hash():
    h = hashlib.sha256()
    for top in (INC, SRC, os.path.join(VERIF, "lib"), os.path.join(VERIF, "harness")):
        for d, dn, fs in sorted(os.walk(top)):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    with open(os.path.join(VERIF, "check.py"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(stage):
    """returns the path of the harness binary for a stage, compiled from the current tree"""
    mode = MODES[stage["mode"]]
    th = tree_hash()
    bd = os.path.join(BUILD, th)
    os.makedirs(bd, exist_ok=True)
    defs = stage.get("defs", [])
    opt = stage.get("lib_opt", "")
    key = hashlib.sha256(json.dumps([stage["harness"], stage["mode"], defs, stage["srcs"], opt]).encode()).hexdigest()[:10]
    exe = os.path.join(bd, "%s-%s-%s" % (os.path.splitext(stage["harness"])[0], stage["mode"], key))
    if os.path.exists(exe):
        return exe
    jobs = []  # (obj, cmd, is_harness)
    for s in stage["srcs"]:
        o = os.path.join(bd, "%s%s-%s.o" % (stage["mode"], opt, s.replace("/", "_")))
        jobs.append((o, [mode["cxx"], *BASE, *mode["lib"], *([opt] if opt else []), "-c", os.path.join(SRC, s)], False))
    h = os.path.join(bd, "%s-%s.o" % (os.path.basename(exe), "h"))
    jobs.append((h, [mode["cxx"], *BASE, *mode["har"], *defs, "-c", os.path.join(VERIF, "harness", stage["harness"])], True))
    m = os.path.join(bd, "%s-%s.o" % (os.path.basename(exe), "main"))
    mf = [f for f in mode["har"] if "fsanitize=thread" not in f]
    extra = ["-DPBT_PIN", "-DPBT_BATCH=%d" % stage.get("batch", 32)] if mode["sim"] else ["-DPBT_BATCH=%d" % stage.get("batch", 512)]
    extra += ["-DPBT_CASE_TIMEOUT=%d" % stage.get("case_timeout", 30)]
    jobs.append((m, [mode["cxx"], *BASE, *mf, *extra, "-c", os.path.join(VERIF, "lib/pbt_main.cpp")], True))
    if mode["sim"]:
        r = os.path.join(bd, "simrt.o")
        jobs.append((r, [mode["cxx"], *BASE, "-O2", "-fno-pie", "-fno-threadsafe-statics", "-c", os.path.join(VERIF, "lib/simrt.cpp")], True))

    def one(j):
        o, cmd, har = j
        if os.path.exists(o):
            return o, None, har, cmd
        t = o + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
        r = sh(cmd + ["-o", t])
        if r.returncode == 0:
            os.rename(t, o)
            return o, None, har, cmd
        return o, r.stdout, har, cmd

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad = [r for r in res if r[1] is not None]
    if bad:
        lib_bad = [r for r in bad if not r[2]]
        raise BuildError("compilation failed", "\n".join(" ".join(r[3]) + "\n" + r[1] for r in bad), not lib_bad)
    t = exe + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
    r = sh([mode["cxx"], "-o", t, *[x[0] for x in res], *mode["link"]])
    if r.returncode != 0 and "undefined reference" in r.stdout:
        # the code was spread over other source files: link all of them
        have = set(stage["srcs"])
        rest = []
        for d, _, fs in os.walk(SRC):
            for f in fs:
                s = os.path.relpath(os.path.join(d, f), SRC)
                if f.endswith(".cpp") and s not in have:
                    rest.append((os.path.join(bd, "%s%s-%s.o" % (stage["mode"], opt, s.replace("/", "_"))),
                                 [mode["cxx"], *BASE, *mode["lib"], "-O0", "-DTC_SDK_VERIF_ALL", "-c", os.path.join(SRC, s)], False))
        with cf.ThreadPoolExecutor(8) as ex:
            more = [x for x in ex.map(one, rest) if x[1] is None]
        r = sh([mode["cxx"], "-o", t, *[x[0] for x in res], *[x[0] for x in more], *mode["link"]])
    if r.returncode != 0:
        raise BuildError("link failed", r.stdout, False)
    os.rename(t, exe)
    return exe


def prune():
    th = tree_hash()
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d != th and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)


def run_stage(exe, st, seed, cases, budget, rp):
    res = os.path.join(OUT, "%s.%d.json" % (os.path.basename(exe), os.getpid()))
    cmd = [exe, "run", "--seed", str(seed), "--cases", str(cases), "--jobs", "8", "--budget", str(budget),
           "--shrink-budget", os.environ.get("PBT_SHRINK_S", "45"), "--out", res, "--replay-out", rp]
    r = sh(cmd, env=ENV)
    try:
        with open(res) as f:
            d = json.load(f)
        os.unlink(res)
    except Exception as e:
        return dict(error="runner ended with %s and no result (%s): %s" % (r.returncode, e, r.stdout[-2000:]))
    return d


def fuzz_stage(exe, asan_exe, st, seed, runs, budget, rp):
    """coverage-guided campaign over choice sequences; a crash is turned into a replay file for the ordinary binary"""
    work = os.path.join(OUT, "fuzz.%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    tot = dict(evaluations=0, distinct_nontrivial=0, discarded=0, labels={}, samples=[], failed=False, inconclusive=False, timed_out=False,
               message="", outcome="ok", gen_wall=0.0)
    t0 = time.time()
    procs = []
    for k in range(8):
        d = os.path.join(work, str(k))
        os.makedirs(os.path.join(d, "corpus"))
        env = dict(ENV, PBT_FUZZ_REC=os.path.join(d, "rec"), PBT_FUZZ_STATS=os.path.join(d, "stats"))
        cmd = [exe, "-runs=%d" % runs, "-seed=%d" % (seed * 8 + k + 1), "-max_len=256", "-timeout=60", "-rss_limit_mb=3000",
               "-max_total_time=%d" % budget, "-use_value_profile=1", "-artifact_prefix=" + d + "/", os.path.join(d, "corpus")]
        lf = open(os.path.join(d, "log"), "w")
        procs.append((d, subprocess.Popen(cmd, env=env, stdout=lf, stderr=lf, cwd=d)))
    for d, p in procs:
        p.wait()
        try:
            s = json.load(open(os.path.join(d, "stats")))
            tot["evaluations"] += s["evaluations"]
            tot["distinct_nontrivial"] += s["distinct_nontrivial"]
        except Exception:
            pass
        if p.returncode != 0 and not tot["failed"]:
            raw = open(os.path.join(d, "rec"), "rb").read() if os.path.exists(os.path.join(d, "rec")) else b""
            n = int.from_bytes(raw[:8], "little") if raw else 0
            ch = [int.from_bytes(raw[8 + 8 * i:16 + 8 * i], "little") for i in range(n)]
            with open(rp, "w") as f:
                f.write("# found by coverage-guided search\nchoices " + " ".join(map(str, ch)) + "\n")
            fails = 0
            for _ in range(3):
                r = sh([asan_exe, "replay", rp], env=ENV)
                fails += r.returncode == 1
            if fails == 3:
                tot.update(failed=True, message=r.stdout[:4000], outcome="found by fuzzing")
                with open(rp, "a") as f:
                    f.write("".join("# " + x + "\n" for x in r.stdout[:6000].splitlines()))
            else:
                tot.update(inconclusive=True, message="fuzzer stopped, ordinary build does not reproduce: " + open(os.path.join(d, "log"), errors="replace").read()[-1500:])
    tot["gen_wall"] = round(time.time() - t0, 1)
    shutil.rmtree(work, ignore_errors=True)
    return tot


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def main():
    if sys.argv[1:2] == ["--replay"]:
        path = sys.argv[2]
        head = open(path).read().splitlines()
        pid = [l.split()[2] for l in head if l.startswith("# property ")][0]
        si = int([l.split()[4] for l in head if l.startswith("# property ")][0])
        st = dict(CHECKS[pid]["stages"][si])
        if st["mode"] == "fuzz":
            st["mode"] = "asan"
        exe = build(st)
        sys.exit(subprocess.run([exe, "replay", path], env=ENV).returncode)
    if sys.argv[1:2] == ["--setup"]:
        # nothing is kept between runs: each check builds what it needs from the current tree. This only proves the tools are there.
        for tool in ("g++", "clang++"):
            if shutil.which(tool) is None:
                sys.exit("missing " + tool)
        print("setup: tools present, %d checks" % len(CHECKS))
        return
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    prune()
    t0 = time.time()
    ck = CHECKS[pid]
    only = os.environ.get("PBT_STAGE")
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], stages=[])
    violations, err = 0, None
    rules = []
    def warm(st):  # compile every stage's binary at once; errors are reported when the stage runs
        try:
            build(st)
        except BuildError:
            pass

    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(warm, [st for si, st in enumerate(ck["stages"]) if (only is None or str(si) == only) and st.get(tier, 1)]))
    total_budget = 620.0 if tier == "quick" else float(os.environ.get("PBT_THOROUGH_S", "5400"))
    for si, st in enumerate(ck["stages"]):
        if only is not None and str(si) != only:
            continue
        n = st.get(tier, st.get("quick", 1000) * (20 if tier == "thorough" else 1))
        if os.environ.get("PBT_SCALE"):
            n = max(1, int(n * float(os.environ["PBT_SCALE"])))
        if not n:
            continue
        rp = os.path.join(OUT, "replay", "%s-%s-s%d-seed%d.replay" % (pid, tier, si, seed))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if os.path.exists(rp):
            os.unlink(rp)
        try:
            exe = build(st)
            left = max(30.0, total_budget - (time.time() - t0))
            budget = min(left, st.get("budget", 400 if tier == "quick" else 3000))
            if st["mode"] == "fuzz":
                d = fuzz_stage(exe, build(dict(st, mode="asan")), st, seed, n, int(budget), rp)
            else:
                d = run_stage(exe, st, seed, n, budget, rp)
        except BuildError as e:
            if not e.harness_only:
                print(e.log[-4000:])
                print("BUILD-ERROR property=%s: the library does not compile" % pid)
                err = "build: library does not compile"
                break
            # the library's own sources compile, but using the public API the way this property needs does not
            with open(rp, "w") as f:
                f.write("# property %s stage %d\n# compile failure of a client using the public API\n" % (pid, si) + "".join("# " + x + "\n" for x in e.log.splitlines()))
            print(e.log[-3000:])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            violations += 1
            cov["stages"].append(dict(harness=st["harness"], mode=st["mode"], compile_failure=True))
            break
        if "error" in d:
            err = d["error"]
            break
        cov["evaluations"] += d["evaluations"]
        cov["distinct_nontrivial"] += d["distinct_nontrivial"]
        if d.get("rule") and d["rule"] not in rules:
            rules.append(d["rule"])
        for s in d["samples"]:
            if len(cov["samples"]) < 8:
                cov["samples"].append(s)
        cov["stages"].append(dict(harness=st["harness"], mode=st["mode"], requested=n, evaluations=d["evaluations"], discarded=d.get("discarded", 0),
                                  distinct_nontrivial=d["distinct_nontrivial"], classes=d["labels"], wall_s=d["gen_wall"], cut_by_time_budget=d["timed_out"]))
        if d["inconclusive"]:
            print("note: a failure was seen once and never again, not reported: " + d["message"][:1500])
            cov["stages"][-1]["unreproduced"] = d["message"][:1500]
        if d["failed"]:
            txt = open(rp).read()
            with open(rp, "w") as f:
                f.write("# property %s stage %d harness %s\n" % (pid, si, st["harness"]) + txt)
            violations += 1
            print("%s: %s" % (d["outcome"], d["message"][:3500]))
            print("".join(l + "\n" for l in txt.splitlines() if "--- case" in l or l.startswith("choices")) if 0 else txt[-3000:])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            break
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    cov["rule"] = " | ".join(rules) or "see stages"
    if not cov["samples"]:
        cov["samples"] = ["(none recorded: the run ended on its first failure)"]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ck.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs, violations=%d" % (
        pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, violations))
    if err:
        print("ERROR: " + err)
        sys.exit(2)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
