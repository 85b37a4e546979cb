#!/usr/bin/env python3
"""Development aid: makes a planted bug from an edit and confirms it.
usage: tools/plant.py SPEC.py [ID...]     SPEC.py defines BUGS = {id: dict(prop, edits=[(file, old, new[, nth])], demo, srcs, needs, breaks[, flags])}
       tools/plant.py --confirm [ID...]   confirms what lies in seeded/ again (demo clean, build, tests, demo patched, check)"""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = """#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -g %s -w -I "$PWD/sdk/include" "$here/demo.cpp" %s -o "$tmp/demo" -pthread || exit 2
cd "$tmp" && timeout -k 5 %d "$tmp/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def git(*a):
    return sh(["git", "-C", R, *a])


def clean():
    git("checkout", "--", ".")
    s = git("status", "--short").stdout
    assert not s.strip(), s


def make(i, b):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    clean()
    for e in b["edits"]:
        p = os.path.join(R, e[0])
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        old, new = e[1], e[2]
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        k = e[3] if len(e) > 3 else 0
        parts = s.split(old)
        assert len(parts) > k + 1, (i, "pattern not found", e[0], old, len(parts))
        assert len(e) > 3 or len(parts) == 2, (i, "pattern not unique", old)
        open(p, "w", newline="").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    clean()
    # lines taken away must be the original repository's
    for f in {e[0] for e in b["edits"]}:
        base = git("rev-list", "--max-parents=0", "HEAD").stdout.strip()
        gone, n = [], 0
        cur = None
        for l in diff.decode(errors="replace").splitlines():
            if l.startswith("--- a/"):
                cur = l[6:].strip()
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1))
            elif l.startswith("-") and not l.startswith("---"):
                if cur == f:
                    gone.append(n)
                n += 1
            elif l.startswith(" "):
                n += 1
        mine = [g for g in gone if not git("blame", "-s", "-l", "-L", "%d,%d" % (g, g), f).stdout.lstrip("^").startswith(base[:30])]
        if mine or not gone:
            print("  NOTE %s: %s: lines of mine removed %s, original lines removed %d" % (i, f, mine, len(gone) - len(mine)))
    with open(os.path.join(d, "demo.cpp"), "w") as f:
        f.write(b["demo"].lstrip("\n"))
    srcs = " ".join('"$PWD/sdk/src/%s"' % s for s in b.get("srcs", []))
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO % (b["title"] if "title" in b else b["breaks"].split("\n")[0], b.get("flags", ""), srcs, b.get("limit", 120)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    clean()
    out = []
    for k in range(2):
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=R)
        if r.returncode != 0:
            print("%s: DEMO FAILS ON CLEAN TREE rc=%d %s" % (i, r.returncode, r.stdout[-800:]), flush=True)
            return
    r = git("apply", os.path.join(d, "patch.diff"))
    assert r.returncode == 0, r.stdout
    try:
        t = sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
        tests = t.stdout.strip().splitlines()[-1]
        demos = []
        for k in range(3):
            t0 = time.time()
            r = sh(["bash", os.path.join(d, "demo.sh")], cwd=R)
            demos.append("%d(%.0fs)" % (r.returncode, time.time() - t0))
        c = sh(["python3", os.path.join(V, "check.py"), meta["property"]])
        caught = c.returncode == 1 and "VIOLATION property=%s " % meta["property"] in c.stdout
        why = [l for l in c.stdout.splitlines() if re.match(r"(check failed|crash|hang|found|race|deadlock)", l)][:1]
        print("%-28s %s tests: %s | demo patched: %s | %s %s" % (i, meta["property"], tests, " ".join(demos), "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, (why or [""])[0][:150]), flush=True)
    finally:
        git("apply", "-R", os.path.join(d, "patch.diff"))
        clean()


def main():
    a = sys.argv[1:]
    if a[0] == "--confirm":
        ids = a[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        ids = a[1:] or list(ns["BUGS"])
        for i in ids:
            make(i, ns["BUGS"][i])
    for i in ids:
        confirm(i)
    sh(["bash", "/opt/vp/build.sh"])


main()
