"""Developer tool: mutants that act only under a rare condition (size, shape, direction, number of calls, kind of value ...), run against the checks.

  guarded.py OUT.jsonl [-n PER_FILE] [-j JOBS] [-b BUDGET_S] [FILE_SUBSTRING ...]
A mutant of mutate.py is put into a copy of its function; the original calls the copy when the condition holds. Survivors (with the number of times
the condition was met) show which conditions the checks do not reach or do not judge. -k JSONL: only mutants listed there as killed.
"""
import ast, copy, json, os, random, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M
WORK = "/tmp/w/guard"
GUARD = '''
import numpy as np, numbers
N = {}
KEEP = []
HITS = [0]


def _arr(loc):
    return [v for k, v in loc.items() if isinstance(v, np.ndarray) and k not in LIM]


LIM = ("volt_limits_g1", "volt_limits_g2", "sweep_range_g1", "sweep_range_g2", "sweep_range_sensor_g1", "sweep_range_sensor_g2", "volt_limits_sensor_g1",
       "volt_limits_sensor_g2", "resolution", "tct_params")


def _lim(loc, g):
    for k, v in loc.items():
        if k in LIM and k.endswith(g) and isinstance(v, (list, tuple, np.ndarray)) and np.size(v) == 2:
            return float(v[0]), float(v[1])


def _size(loc):
    m = max([a.size for a in _arr(loc)] or [0])
    r = loc.get("resolution")
    return max(m, int(np.prod(r)) if r is not None else 0)


def _shape(loc):
    for a in _arr(loc):
        if a.ndim >= 2 and a.shape[0] > 2 or a.ndim == 3:
            return a.shape[:2]
    r = loc.get("resolution")
    if r is not None and np.size(r) == 2:
        return int(r[1]), int(r[0])


def _cond(kind, loc, me):
    if kind.startswith("size"):
        return _size(loc) >= int(kind[4:])
    if kind.startswith("call"):
        if me is None:
            return False
        e = N.setdefault(id(me), [0, me])
        e[0] += 1
        return e[0] == int(kind[4:]) or (e[0] > int(kind[4:]))
    if kind == "single":
        return 1 == _size(loc)
    s = _shape(loc)
    if kind == "tall":
        return s is not None and s[0] > s[1]
    if kind == "wide":
        return s is not None and s[1] > s[0]
    if kind == "odd":
        return s is not None and s[0] % 2 == 1 and s[1] % 2 == 1
    a, b = _lim(loc, "g1"), _lim(loc, "g2")
    if kind == "desc1":
        return a is not None and a[0] > a[1]
    if kind == "desc2":
        return b is not None and b[0] > b[1]
    if kind == "descboth":
        return a is not None and b is not None and a[0] > a[1] and b[0] > b[1]
    if kind == "fix1":
        return a is not None and a[0] == a[1]
    if kind == "fix2":
        return b is not None and b[0] == b[1]
    if kind == "fixdesc":
        return a is not None and b is not None and (a[0] == a[1] and b[0] > b[1] or b[0] == b[1] and a[0] > a[1])
    if kind == "positive":
        return a is not None and b is not None and min(a + b) >= 0
    if kind == "cross0":
        return a is not None and min(a) < 0 < max(a)
    if kind == "zeroend":
        return a is not None and 0 in a or b is not None and 0 in b
    if kind == "int":
        return any(isinstance(v, (int, np.integer)) and not isinstance(v, bool) or isinstance(v, np.ndarray) and v.dtype.kind == "i" for k, v in loc.items() if k != "resolution")
    if kind == "npscalar":
        return any(isinstance(v, np.generic) for v in loc.values())
    if kind == "zero":
        return any(isinstance(v, numbers.Number) and v == 0 and not isinstance(v, bool) for v in loc.values())
    if kind == "negative":
        return any(isinstance(v, numbers.Number) and v < 0 for v in loc.values())
    if kind == "long":
        return any(isinstance(v, (list, tuple)) and len(v) >= 4 for v in loc.values())
    if kind == "one":
        return any(isinstance(v, (list, tuple)) and len(v) == 1 for v in loc.values())
    if kind == "none":
        return any(v is None for v in loc.values())
    if kind == "constant":
        return any(x.size > 1 and np.all(x == x.flat[0]) for x in _arr(loc))
    if kind == "view":
        return any(not x.flags.c_contiguous for x in _arr(loc))
    raise KeyError(kind)


def g(kind, loc):
    loc = dict(loc)
    me = loc.pop("self", None)
    try:
        r = bool(_cond(kind, loc, me))
    except KeyError:
        raise
    except Exception:
        r = False
    HITS[0] += r
    return r
'''
KINDS = ("size200 size1000 size10000 size70000 call4 call8 single tall wide odd desc1 desc2 descboth fix1 fix2 fixdesc positive cross0 zeroend int npscalar zero negative long one "
         "none constant view").split()


def functions(tree):
    out = {}

    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + ".")
            elif isinstance(n, ast.FunctionDef):
                out[pre + n.name + "@" + "".join(ast.unparse(d) for d in n.decorator_list)] = (n, body)
    walk(tree.body, "")
    return out


def guarded(src, mut, kind):
    """text of the module in which the mutant acts under the condition, or None"""
    t, u = ast.parse(src), ast.parse(mut)
    f, g = functions(t), functions(u)
    if list(f) != list(g):
        return None
    diff = [k for k in f if ast.dump(f[k][0]) != ast.dump(g[k][0])]
    if len(diff) != 1:
        return None
    fn, body = f[diff[0]]
    new = copy.deepcopy(g[diff[0]][0])
    if any("setter" in ast.unparse(d) or ast.unparse(d) == "property" for d in fn.decorator_list) or fn.name == "__init__":
        return None
    a = fn.args
    if a.vararg or a.kwarg or a.posonlyargs:
        return None
    new.name = fn.name.strip("_") + "_mut"
    names = [x.arg for x in a.args + a.kwonlyargs]
    static = any(ast.unparse(d) == "staticmethod" for d in fn.decorator_list)
    cls = "." in diff[0].split("@")[0]
    if cls and not static:
        names = names[1:]
        call = f"self.{new.name}"
    elif cls:
        call = diff[0].split("@")[0].split(".")[0] + "." + new.name
    else:
        call = new.name
    st = ast.parse(f"if __import__('mcguard').g({kind!r}, locals()):\n    return {call}({', '.join(n + '=' + n for n in names)})").body[0]
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(i, st)
    body.insert(body.index(fn) + 1, new)
    return ast.unparse(ast.fix_missing_locations(t)), diff[0]


def judge(root, checks, budget):
    v = M.judge(root, checks, budget)
    g = sys.modules.get("mcguard")
    return v[0], v[1] + f" hits={g.HITS[0] if g else 0}"


def main():
    a = sys.argv[1:]
    opt = lambda k, d: int(a[a.index(k) + 1]) if k in a else d
    per, jobs, budget = opt("-n", 20), opt("-j", 4), opt("-b", 120)
    pos = [x for i, x in enumerate(a) if not x.startswith("-") and not (i and a[i - 1] in ("-n", "-j", "-b", "-k"))]
    out, subs = pos[0], pos[1:]
    killed = None
    if "-k" in a:
        killed = {(d["file"], d["mutant"]) for d in map(json.loads, open(a[a.index("-k") + 1])) if d["verdict"].startswith("killed")}
    os.environ.update(MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLCONFIGDIR="/tmp/w/mpl", PYTHONDONTWRITEBYTECODE="1")
    sys.dont_write_bytecode = True
    done = {(d["file"], d["mutant"], d["kind"]) for d in map(json.loads, open(out))} if os.path.exists(out) else set()
    import numpy, scipy.signal, scipy.ndimage, scipy.stats, sympy, bezier, diplib, matplotlib.pyplot  # noqa  (preloaded for the children)
    work = []
    for d, _, fs in os.walk(M.REPO + "/simcats"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), M.REPO)
            if not f.endswith(".py") or f == "__init__.py" or (subs and not any(s in p for s in subs)):
                continue
            cs = next((c.split() for k, c in M.CHECKS if k in f), [])
            src = open(os.path.join(M.REPO, p)).read()
            rnd = random.Random(p)
            ms = [(t, m) for t, m in M.mutants(src) if killed is None or (p, m) in killed]
            byfn = {}
            for t, m in ms:
                r = guarded(src, t.decode() if isinstance(t, bytes) else t, "zero")
                if r:
                    byfn.setdefault(r[1], []).append((t, m))
            n = 0
            jobs_ = []
            for fn, l in byfn.items():      # every kind once per function, with random mutants of that function
                for k in KINDS:
                    for t, m in rnd.sample(l, min(1, len(l))):
                        jobs_.append((p, guarded(src, t.decode() if isinstance(t, bytes) else t, k)[0], m, k, cs, fn))
            rnd.shuffle(jobs_)
            work += [j for j in jobs_[:per] if (p, j[2], j[3]) not in done]
            print(p, len(byfn), len(jobs_), flush=True)
    random.Random(3).shuffle(work)
    print(len(work), "mutants", flush=True)
    running, slots, res = {}, list(range(jobs)), open(out, "a")

    def reap():
        pid, _ = os.wait()
        slot, p, m, k, fn, r, t = running.pop(pid)
        txt = os.read(r, 65536).decode() or "killed|died"
        os.close(r)
        v, _, detail = txt.partition("|")
        res.write(json.dumps({"file": p, "function": fn, "mutant": m, "kind": k, "verdict": v, "detail": detail, "s": round(time.time() - t)}) + "\n")
        res.flush()
        shutil.rmtree(f"{WORK}/{slot}")
        slots.append(slot)

    for p, text, m, k, cs, fn in work:
        while not slots:
            reap()
        slot = slots.pop()
        root = f"{WORK}/{slot}"
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree(M.REPO + "/simcats", root + "/simcats", ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(root, p), "w") as f:
            f.write(text)
        with open(os.path.join(root, "mcguard.py"), "w") as f:
            f.write(GUARD)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import signal
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1), os.dup2(devnull, 2)
            try:
                v = judge(root, cs, budget)
            except BaseException as e:
                v = ("killed", f"{type(e).__name__} {e}")
            os.write(w, "|".join(v)[:4000].encode())
            os._exit(0)
        os.close(w)
        running[pid] = (slot, p, m, k, fn, r, time.time())
    while running:
        reap()


if __name__ == "__main__":
    main()
