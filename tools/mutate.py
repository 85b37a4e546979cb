#!/usr/bin/env python3
"""Development aid: generates small mutants of a source file and reports which the given checks miss.
usage: tools/mutate.py [--slots N] [--scale X] [--list] file[@FIRST-LAST]:ID,ID......   (file relative to /repo/sdk; works on copies under /tmp;
       PBT_REPO=DIR: another tree than /repo)"""
import concurrent.futures as cf, os, queue, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/mutants"
SDK = os.path.join(os.environ.get("PBT_REPO", "/repo"), "sdk")
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "), (r"\+\+", "--"), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"notify_one", "notify_all"), (r"notify_all", "notify_one"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bfloor\b", "ceil"),
         (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"(?<![\w.])-(?=\w)", ""), (r"\(!", "("), (r"\bstd::move\((\w+)\)", r"\1"),
         (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"find\(", "rfind("), (r"\.x\b", ".y"), (r"\b_x\b", "_y"), (r"\b_y\b", "_x"), (r"\b_min\b", "_max"), (r"\b_max\b", "_min"),
         (r"front\(\)", "back()"), (r"memory_order_\w+", "memory_order_relaxed")]
KEEP = re.compile(r"^\s*(//|\*|/\*|#|template|using|namespace|public|private|protected|static_assert|friend|class|struct|return;|break;|\}|\{)")


def mutants(path):
    raw = open(path, newline="").read()
    lines = raw.split("\n")
    out, comment = [], False
    for i, l in enumerate(lines):
        if "/*" in l and "*/" not in l:
            comment = True
            continue
        if comment:
            if "*/" in l:
                comment = False
            continue
        if KEEP.match(l) or not l.strip():
            continue
        code = l.split("//")[0]
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():]
                out.append((i, n))
        s = l.strip()
        if s.endswith(";") and not s.startswith(("return", "const ", "auto ", "explicit", "virtual", "~")) and "(" in s and "=" not in s.split("(")[0] and not re.match(r"[\w:<>&\*]+ [\w:]+\(.*\).*;", s):
            out.append((i, re.match(r"\s*", l).group(0) + ";"))
        elif re.match(r"[\w\.\->\[\]]+ [+\-*/]?= .*;$", s):
            out.append((i, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"(\s*)(?:else )?if \((.*)\)\s*$", code.rstrip())
        if m:
            for c in ("true", "false"):
                out.append((i, code.replace("(" + m.group(2) + ")", "(" + c + " || (" + m.group(2) + "))" if c == "true" else "(false && (" + m.group(2) + "))", 1)))
    seen, res = set(), []
    for i, n in out:
        if n == lines[i] or (i, n) in seen:
            continue
        seen.add((i, n))
        res.append((i, lines[i].strip(), n.strip(), "\n".join(lines[:i] + [n] + lines[i + 1:])))
    return res


def main():
    a = sys.argv[1:]
    slots, scale, lst = 3, "0.25", False
    files = []
    while a:
        x = a.pop(0)
        if x == "--slots":
            slots = int(a.pop(0))
        elif x == "--scale":
            scale = a.pop(0)
        elif x == "--list":
            lst = True
        else:
            files.append(x)
    jobs = []
    for f in files:
        f, ids = f.split(":")
        f, _, span = f.partition("@")
        first, last = map(int, span.split("-")) if span else (1, 1 << 30)
        for m in mutants(os.path.join(SDK, f)):
            if first <= m[0] + 1 <= last:
                jobs.append((f, ids.split(","), m))
    print(len(jobs), "mutants", flush=True)
    if lst:
        for j in jobs:
            print(j[0], j[2][0] + 1, "|", j[2][1], "|", j[2][2])
        return
    free = queue.Queue()
    for k in range(slots):
        d = os.path.join(WORK, str(os.getpid()), str(k))
        os.makedirs(d)
        subprocess.run(["cp", "-r", SDK, d + "/"], check=True)
        os.makedirs(d + "/verif")
        for x in ("check.py", "checks.py", "lib", "harness", "known_findings.txt"):
            subprocess.run(["cp", "-r", os.path.join(V, x), d + "/verif/"], check=True)
        free.put(d)

    def one(j):
        f, ids, (i, old, new, text) = j
        d = free.get()
        try:
            p = os.path.join(d, "sdk", f)
            orig = open(os.path.join(SDK, f), newline="").read()
            open(p, "w", newline="").write(text)
            res = "MISSED"
            for pid in ids:
                try:
                    r = subprocess.run(["python3", d + "/verif/check.py", pid], env=dict(os.environ, PBT_REPO=d, PBT_SCALE=scale, PBT_SHRINK_S="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + pid
                    break
                if r.returncode == 1:
                    res = "caught " + pid
                    break
                if r.returncode != 0:
                    res = "invalid"
                    break
            open(p, "w", newline="").write(orig)
            shutil.rmtree(d + "/verif/.build", ignore_errors=True)
        finally:
            free.put(d)
        print("%-12s %s:%d | %s | %s" % (res, f, i + 1, old, new), flush=True)
        return res

    with cf.ThreadPoolExecutor(slots) as ex:
        rs = list(ex.map(one, jobs))
    print({k: rs.count(k) for k in sorted(set(rs))})
    shutil.rmtree(os.path.join(WORK, str(os.getpid())))


main()
