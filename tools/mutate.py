"""Developer tool: systematic single-point mutants of the package, run against the checks (fail fast, sequentially, time limited).

  mutate.py OUT.jsonl [-n PER_FILE] [-j JOBS] [-b BUDGET_S] [FILE_SUBSTRING ...]
Survivors are candidates for gaps (or equivalent mutants); they are judged by hand.
"""
import ast, json, os, random, shutil, sys, time
REPO, VERIF, WORK = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/tmp/w/mut"
CHECKS = [("_simulation.py", "C07 C08 C09 C11 C10 C21 C20 C12 C02 C01 C19"), ("_tct_bezier", "C05 C04 C06 C03"), ("_calculate_all_bezier", "C05 C06 C04"),
          ("_initialize_tct", "C05 C04"), ("_generate_lead_transition", "C03 C04 C02 C01"), ("_get_electron_occupation", "C06 C04 C03 C02"),
          ("_ideal_csd_geometric", "C04 C03 C06 C01 C09 C02"), ("_dot_jumps", "C13 C14 C12 C19"), ("_random_telegraph", "C16 C14 C12"),
          ("_white_noise", "C17 C19"), ("_pink_noise", "C17 C19"), ("_transition_blurring", "C15 C14"), ("_sensor_scan_sensor_generic", "C21 C22 C24 C08 C09 C10"),
          ("_sensor_generic", "C20 C09"), ("_sensor_peak_gauss", "C20"), ("_sensor_peak_lor", "C20"), ("_sensor_rise", "C21 C23"), ("_deformation_", "C24 C22"),
          ("_barrier_function_", "C23 C21"), ("_parameter_sampling", "C18 C25"), ("_config_sampler", "C25"), ("_linear_algebra", "C26"), ("_plotting", "C27"),
          ("_pixel_volt", "C26"), ("_rotate_points", "C26"), ("_reset_offset", "C28"), ("_generalized_logistic", "C23"), ("_cumulative", "C06"),
          ("_fermi_filter", "C15"), ("_default_configs", "C09 C25"), ("_sensor_interface", "C09 C20 C21"), ("_distortion_interfaces", "C09 C11")]
SWAP = {"g1": "g2", "g2": "g1", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "deepcopy": None, "copy": None}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    span = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def put(node, text, kind):
        a, b = span(node)
        old = raw[a:b].decode()
        if old != text:
            out.append((a, b, text, f"{node.lineno}: {kind}: {' '.join(old.split())[:90]} -> {' '.join(text.split())[:90]}"))

    def visit(n, infn=None):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name == "__repr__" or any(isinstance(d, ast.Name) and d.id == "abstractmethod" for d in n.decorator_list):
                return
            for ch in n.body:
                visit(ch, n)
            return
        if isinstance(n, ast.Raise):
            put(n, "pass", "no raise")
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call) and "warn" in ast.unparse(n.value.func):
                return
            if infn is not None:
                put(n, "pass", "delete")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and infn is not None:
            put(n, "pass", "delete")
        if isinstance(n, ast.AnnAssign):
            if n.value:
                visit(n.value, infn)
            return
        if isinstance(n, ast.AugAssign):
            o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
            if o:
                put(n, f"{ast.unparse(n.target)} {o} {ast.unparse(n.value)}", "op")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, f"(not ({ast.unparse(n.test)}))", "negate")
            if isinstance(n, ast.If):
                put(n.test, "True", "true")
                put(n.test, "False", "false")
        if isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "delete")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            for o in {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}.get(type(n.ops[0]), []):
                put(n, f"({l} {o} {r})", "compare")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join("(" + ast.unparse(v) + ")" for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + ast.unparse(v) + ")" for v in rest) + ")", "drop operand")
        if isinstance(n, ast.BinOp):
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}.get(type(n.op))
                if o:
                    put(n, f"({ast.unparse(n.left)} {o} {ast.unparse(n.right)})", "op")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            if not isinstance(n.operand, ast.Constant):
                put(n, f"({ast.unparse(n.operand)})", "unary")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, bool)) and n.value is not None and n.value is not Ellipsis:
            put(n, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.1 + .001), "const")
            if n.value == 1:
                put(n, "0", "const")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, repr(not n.value), "const")
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            name = n.id if isinstance(n, ast.Name) else n.attr
            for a, b in (("g1", "g2"), ("g2", "g1"), ("_x", "_y"), ("bar1", "bar2"), ("barrier1", "barrier2"), ("scale", "lam")):
                if a in name:
                    t = name.replace(a, b)
                    put(n, t if isinstance(n, ast.Name) else ast.unparse(n.value) + "." + t, "name")
            if isinstance(n, ast.Attribute) and SWAP.get(name):
                put(n, ast.unparse(n.value) + "." + SWAP[name], "name")
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.split(".")[-1] in ("deepcopy", "copy", "abs", "sort", "float", "array", "round") and len(n.args) == 1:
                put(n, f"({ast.unparse(n.args[0])})", "no call")
            if n.keywords and f.split(".")[0] not in ("warnings",):
                for k in range(len(n.keywords)):
                    kw = [x for i, x in enumerate(n.keywords) if i != k]
                    put(n, f + "(" + ", ".join([ast.unparse(a) for a in n.args] + [(f"{x.arg}=" if x.arg else "**") + ast.unparse(x.value) for x in kw]) + ")", "drop keyword")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.step is not None:
            put(n, f"({ast.unparse(n.value)})", "no slice")
        if isinstance(n, ast.arguments):
            for d in n.defaults + n.kw_defaults:
                if d is not None:
                    visit(d, infn)
            return
        for ch in ast.iter_child_nodes(n):
            if isinstance(n, ast.Call) and "warn" in ast.unparse(n.func):
                continue
            visit(ch, infn)

    for node in tree.body:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            visit(node)
        elif isinstance(node, ast.Assign):
            visit(node)
    seen, res = set(), []
    for a, b, text, d in out:
        if (a, b, text) not in seen:
            seen.add((a, b, text))
            res.append((raw[:a] + text.encode() + raw[b:], d))
    return res


def judge(root, checks, budget):
    """runs in a forked child: -> (verdict, detail)"""
    sys.path[:0] = [VERIF, root]
    import importlib, warnings
    warnings.simplefilter("ignore")
    from mc import engine as E
    E.FAIL_LIMIT, E.EXEC_LIMIT = 0, {"quick": 40, "thorough": 40}
    t0 = time.time()
    done = []
    for c in checks:
        try:
            mod = importlib.import_module(f"mc.checks.{c.lower()}")
            known = E.load_known(c)
            scs = E._scenarios(mod, "quick")
        except Exception as e:
            return "killed", f"{c}: import {type(e).__name__} {e}"
        random.Random(1).shuffle(scs)
        t1 = time.time()
        n = 0
        for sc in scs:
            acc = E._new_acc()
            acc["known"] = known
            E._explore(mod, sc, "quick", time.time() + 60, acc)
            n += 1
            bad = [k for k in acc["nfail"] if k not in known]
            if bad:
                return "killed", f"{c}: {bad[0]} ({time.time() - t0:.0f} s)"
            if time.time() - t1 > budget / 2 or time.time() - t0 > budget:
                break
        done.append(f"{c} {n}/{len(scs)}")
        if time.time() - t0 > budget:
            break
    return "SURVIVED", ", ".join(done)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: int(a[a.index(k) + 1]) if k in a else d
    per, jobs, budget = opt("-n", 30), opt("-j", 6), opt("-b", 150)
    pos = [x for i, x in enumerate(a) if not x.startswith("-") and not (i and a[i - 1] in ("-n", "-j", "-b"))]
    out, subs = pos[0], pos[1:]
    os.environ.update(MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLCONFIGDIR="/tmp/w/mpl", PYTHONDONTWRITEBYTECODE="1")
    sys.dont_write_bytecode = True
    done = {(d["file"], d["mutant"]) for d in map(json.loads, open(out))} if os.path.exists(out) else set()
    import numpy, scipy.signal, scipy.ndimage, scipy.stats, sympy, bezier, diplib, matplotlib.pyplot  # noqa  (preloaded for the children)
    work = []
    for d, _, fs in os.walk(REPO + "/simcats"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if not f.endswith(".py") or f == "__init__.py" or (subs and not any(s in p for s in subs)):
                continue
            cs = next((c.split() for k, c in CHECKS if k in f), [])
            if not cs:
                print("no checks for", p)
                continue
            ms = mutants(open(os.path.join(REPO, p)).read())
            random.Random(p).shuffle(ms)
            work += [(p, t, m, cs) for t, m in ms[:per] if (p, m) not in done]
            print(p, len(ms), flush=True)
    random.Random(3).shuffle(work)
    print(len(work), "mutants", flush=True)
    running = {}
    slots = list(range(jobs))
    res = open(out, "a")

    def reap():
        pid, _ = os.wait()
        slot, p, m, r, t = running.pop(pid)
        txt = os.read(r, 65536).decode() or "killed|died"
        os.close(r)
        v, _, detail = txt.partition("|")
        res.write(json.dumps({"file": p, "mutant": m, "verdict": v, "detail": detail, "s": round(time.time() - t)}) + "\n")
        res.flush()
        shutil.rmtree(f"{WORK}/{slot}")
        slots.append(slot)

    for p, text, m, cs in work:
        while not slots:
            reap()
        slot = slots.pop()
        root = f"{WORK}/{slot}"
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree(REPO + "/simcats", root + "/simcats", ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(root, p), "wb") as f:
            f.write(text)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import signal
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1), os.dup2(devnull, 2)
            try:
                v = judge(root, cs, budget)
            except BaseException as e:
                v = ("killed", f"{type(e).__name__} {e}")
            os.write(w, "|".join(v)[:4000].encode())
            os._exit(0)
        os.close(w)
        running[pid] = (slot, p, m, r, time.time())
    while running:
        reap()


if __name__ == "__main__":
    main()
