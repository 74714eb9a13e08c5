#!/usr/bin/env python3
"""Developer tool for /verif/seeded (read by no check).

  seedtool.py make SPEC.py [ID...]   write seeded/<id> from the list BUGS (edits against a scratch copy of /repo)
  seedtool.py val [ID...]            scratch copy: patch applies, demo passes/fails, stable tests pass with the patch
  seedtool.py catch [ID...] [-c C01,C02]  run the quick checks (default: the one of the bug's property) on patched copies
"""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
W = "/tmp/w/seed"
PY = "/opt/venv/bin/python"

def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)

def copy():
    os.makedirs(W, exist_ok=True)
    d = tempfile.mkdtemp(dir=W)
    c = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", c], check=True)
    return d, c

def make(b):
    d, c = copy()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(c, f)
            t = open(p).read()
            n = t.count(old)
            assert n == b.get("count", 1), (b["id"], f, n, old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], c).stdout
        assert diff
        t = os.path.join(S, b["id"]); os.makedirs(t, exist_ok=True)
        open(os.path.join(t, "patch.diff"), "w").write(diff)
        open(os.path.join(t, "demo.py"), "w").write(b["demo"])
        open(os.path.join(t, "demo.sh"), "w").write(
            '#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
            'OPENBLAS_NUM_THREADS=1\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\n'
            'exec $PY -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(t, "demo.sh"), 0o755)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(t, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)

def tests(c):
    s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + c)
    p = os.path.join(os.path.dirname(c), "t.sh"); open(p, "w").write(s)
    out = os.path.join(os.path.dirname(c), "out.json")
    sh(["bash", p, out], c, {"PYTHONPATH": c})
    r = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("passed") or base
    got = r.get("passed", r)
    return sorted(set(names) - set(got))

def original(i, c):
    """Does the patch (not yet applied) remove at least one line of the original repository?"""
    root = sh(["git", "rev-list", "--max-parents=0", "HEAD"], c).stdout.split()[0]
    base = sh(["git", "log", "--reverse", "--format=%H", "--grep=^fix:"], c).stdout.split()
    own = set(base) | set(sh(["git", "log", "--format=%H", (base[0] + "^..HEAD")], c).stdout.split()) if base else set()
    n = bad = 0
    f = ln = None
    for l in open(os.path.join(S, i, "patch.diff")):
        if l.startswith("--- "): f = l[6:].strip()
        elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-"):
            h = sh(["git", "blame", "-l", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], c).stdout.split()[0].lstrip("^")
            n += 1; bad += any(o.startswith(h) or h.startswith(o) for o in own); ln += 1
        elif l.startswith(" "): ln += 1
    return n, bad

def val(i, skip_tests=False):
    d, c = copy()
    try:
        demo = ["bash", os.path.join(S, i, "demo.sh")]
        n, bad = original(i, c)
        if n and bad == n: return i, "ONLY OWN LINES"
        a = sh(demo, c, timeout=300)
        if a.returncode: return i, "DEMO FAILS UNPATCHED " + a.stdout[-600:]
        p = sh(["git", "apply", os.path.join(S, i, "patch.diff")], c)
        if p.returncode: return i, "NO APPLY " + p.stdout
        a = sh(demo, c, timeout=300)
        if not a.returncode: return i, "DEMO PASSES PATCHED " + a.stdout[-300:]
        if not skip_tests:
            m = tests(c)
            if m: return i, "TESTS FAIL %d %s" % (len(m), m[:3])
        return i, "ok%s   " % (" (own lines %d/%d)" % (bad, n) if bad else "") + a.stdout.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d)

def catch(i, checks, prepare=None):
    d, c = copy()
    try:
        if prepare: prepare(c)
        if i != "none": sh(["git", "apply", os.path.join(S, i, "patch.diff")], c)
        v = os.path.join(d, "verif"); os.makedirs(v)
        for x in ("mc", "known_findings.txt", "properties.jsonl"): os.symlink(os.path.join(V, x), os.path.join(v, x))
        os.unlink(os.path.join(v, "mc")); shutil.copytree(os.path.join(V, "mc"), os.path.join(v, "mc"))
        rp = os.path.join(v, "mc", "run.py"); rt = open(rp).read()
        open(rp, "w").write("\n".join(l for l in rt.splitlines() if not l.startswith("assert")) + "\n")
        env = {"PYTHONPATH": v + ":" + c, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
               "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "MPLCONFIGDIR": "/tmp/w/mpl"}
        res = []
        for k in checks:
            r = sh([PY, "-W", "ignore", "-m", "mc.run", k], v, env)
            line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            first = [l for l in r.stdout.splitlines() if "key" in l.lower()][:1]
            res.append((k, r.returncode, (line[:1] + first + r.stdout.splitlines()[-1:])[0][:60] if r.returncode else "", first[0][:140] if first and r.returncode else ""))
        return i, res
    finally:
        shutil.rmtree(d)

def main():
    a = sys.argv[1:]; cmd = a.pop(0)
    if cmd == "make":
        bugs = runpy.run_path(a.pop(0))["BUGS"]
        for b in bugs:
            if not a or b["id"] in a: make(b); print("made", b["id"])
        return
    checks = None
    if "-c" in a: k = a.index("-c"); checks = a[k + 1].split(","); del a[k:k + 2]
    skip = "-n" in a
    if skip: a.remove("-n")
    ids = a or sorted(os.listdir(S))
    if cmd == "val":
        with cf.ThreadPoolExecutor(8 if skip else 3) as ex:
            def one(i):
                try: return val(i, skip)
                except Exception as e: return i, "EXC %r" % e
            for i, r in ex.map(one, ids): print(i, r, flush=True)
    elif cmd == "catch":
        for i in ids:
            prop = checks or [json.load(open(os.path.join(S, i, "meta.json")))["property"]]
            i, res = catch(i, prop)
            for k, rc, l, f in res:
                print(i, k, {0: "MISSED", 1: "caught"}.get(rc, "rc%d" % rc), l, f, flush=True)
if __name__ == "__main__":
    main()
