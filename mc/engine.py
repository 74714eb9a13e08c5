"""Bounded exhaustive explorer.

A check module provides

    PROPERTY   id
    BOUNDS     text: what is enumerated, within which bounds
    scenarios(tier) -> iterable of JSON-able scenarios (outer cross product: alphabet of inputs/configurations)
    run(sc, ctx)    -> executes ONE behaviour of the real code and compares it with the reference model

Inside `run` every source of nondeterminism is closed by `ctx.choose(label, options)`.  The engine explores the complete
tree of choices of every scenario depth first (stateless: each leaf is a fresh execution of the real code), optionally
bounded by the number of deviations from option 0 (`ctx.bound`).  Nothing is sampled.
"""
import hashlib, importlib, json, multiprocessing as mp, os, signal, sys, time, traceback, warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL = 25
FAIL_LIMIT = 400      # violations after which a scenario (and a chunk of scenarios) is given up


class Fail(Exception):
    """The behaviour explored breaks the property (stops this execution)."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Prune(Exception):
    """This branch is not a behaviour of the system (does not count as execution)."""


def canon(o):
    """Canonical bytes of an observation."""
    if isinstance(o, np.ndarray):
        return b"a" + str(o.shape).encode() + np.ascontiguousarray(np.round(o.astype(float), 12) + 0.0).tobytes()
    if isinstance(o, (list, tuple)):
        return b"(" + b",".join(canon(x) for x in o) + b")"
    if isinstance(o, dict):
        return b"{" + b",".join(canon(k) + b":" + canon(v) for k, v in sorted(o.items(), key=str)) + b"}"
    return repr(o).encode()


class Ctx:
    def __init__(self, prefix=(), tier="quick"):
        self.prefix = list(prefix)
        self.points = []          # (label, n options, taken)
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.known = []           # non-fatal failures recorded with note_fail
        self.bound = None         # bound on the number of deviations (choices other than option 0)
        self.sample = None

    def choose(self, label, options):
        options = list(options)
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(options):
                raise RuntimeError(f"replay diverged at choice {i} ({label}): option {c} of {len(options)}")
        else:
            c = 0
        dev = sum(1 for p in self.points if p[2])
        n = len(options) if self.bound is None or dev < self.bound else 1
        self.points.append((label, max(n, c + 1), c))
        return options[c]

    def state(self, *obs):
        self.states.add(hashlib.blake2b(canon(obs), digest_size=8).digest())

    def op(self, n=1):
        self.transitions += n

    def fail(self, key, msg):
        raise Fail(key, msg)

    def check(self, cond, key, msg=""):
        if not cond:
            raise Fail(key, msg() if callable(msg) else msg)

    def note_fail(self, key, msg):
        """Record a failure but continue with the execution (used where a known finding must not hide others)."""
        self.known.append((key, msg))


EXEC_LIMIT = {"quick": 120, "thorough": 240}
STOP = mp.get_context("fork").Event()      # set by the first execution that does not terminate: all workers stop


def _alarm(*_):
    STOP.set()
    raise Fail("no-termination", "one execution did not finish within the time limit (typical: milliseconds; limits in s: " + str(EXEC_LIMIT) + ")")


def _exec(mod, sc, prefix, tier):
    ctx = Ctx(prefix, tier)
    fails = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_LIMIT[tier])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(sc, ctx)
    except Fail as f:
        fails.append((f.key, f.msg))
    except Prune:
        return ctx, None
    except Exception as e:  # valid input: an unexpected exception is a violation
        tb = traceback.extract_tb(e.__traceback__)
        loc = [t for t in tb if "/simcats/" in t.filename]
        where = os.path.basename((loc or tb)[-1].filename) + ":" + (loc or tb)[-1].name
        fails.append((f"exception:{type(e).__name__}:{where}", f"unexpected {type(e).__name__}: {e} in {where}\n" +
                      "".join(traceback.format_tb(e.__traceback__)[-4:])))
    finally:
        signal.alarm(0)
    return ctx, ctx.known + fails


def _explore(mod, sc, tier, deadline, acc):
    """Depth-first exploration of the complete choice tree of one scenario."""
    stack = [[]]
    while stack:
        if time.time() > deadline or STOP.is_set():
            acc["capped"] = True
            return
        prefix = stack.pop()
        ctx, fails = _exec(mod, sc, prefix, tier)
        taken = [p[2] for p in ctx.points]
        for i in range(len(ctx.points) - 1, len(prefix) - 1, -1):
            for alt in range(ctx.points[i][1] - 1, 0, -1):
                stack.append(taken[:i] + [alt])
        if fails is None:
            acc["pruned"] += 1
            continue
        acc["traces"] += 1
        acc["transitions"] += ctx.transitions
        acc["choices"] += len(ctx.points)
        acc["maxdepth"] = max(acc["maxdepth"], len(ctx.points))
        acc["states"] |= ctx.states
        for key, msg in fails:
            acc["nfail"][key] = acc["nfail"].get(key, 0) + 1
            if acc["nfail"][key] > 40:
                continue
            acc["fails"].append({"scenario": sc, "choices": taken,
                                 "labels": [f"{p[0]}={p[2]}/{p[1]}" for p in ctx.points], "key": key, "msg": str(msg)[:4000]})
        if ctx.sample is not None and len(acc["samples"]) < 2:
            acc["samples"].append(ctx.sample)
        if sum(n for k, n in acc["nfail"].items() if k not in acc["known"]) > FAIL_LIMIT:
            return


def _scenarios(mod, tier):
    return json.loads(json.dumps(list(mod.scenarios(tier))))


def _new_acc():
    return {"traces": 0, "transitions": 0, "choices": 0, "states": set(), "fails": [], "capped": False, "samples": [],
            "pruned": 0, "maxdepth": 0, "scen": 0, "nfail": {}, "known": {}}


def _worker(modname, tier, deadline, q_in, q_out):
    mod = importlib.import_module(modname)
    scs = _scenarios(mod, tier)
    known = load_known(mod.PROPERTY)
    while True:
        lo = q_in.get()
        if lo is None:
            return
        acc = _new_acc()
        acc["known"] = known
        for sc in scs[lo[0]:lo[1]]:
            if time.time() > deadline or STOP.is_set():
                acc["capped"] = True
                break
            _explore(mod, sc, tier, deadline, acc)
            acc["scen"] += 1
            if sum(n for k, n in acc["nfail"].items() if k not in acc["known"]) > FAIL_LIMIT:
                break
        q_out.put(acc)


def load_known(prop):
    """lines:  finding: property=<id> key=<key> <text>   |   fixed: property=<id> <commit> <text> (suppresses nothing)"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) >= 3 and w[0] == "finding:" and w[1] == f"property={prop}":
                out[w[2].removeprefix("key=")] = (w[3].strip() if len(w) > 3 else "")
    return out


def run_check(modname, tier, seed, nproc=8):
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    cap = float(os.environ.get("VERIF_CAP", getattr(mod, "CAP", {}).get(tier, 600 if tier == "quick" else 5400)))
    deadline = t0 + cap
    scs = _scenarios(mod, tier)
    tot = _new_acc()
    chunk = max(1, min(getattr(mod, "CHUNK", 10 ** 9), len(scs) // (nproc * 6)))
    ctxm = mp.get_context("fork")
    q_in, q_out = ctxm.Queue(), ctxm.Queue()
    jobs = [(i, min(i + chunk, len(scs))) for i in range(0, len(scs), chunk)]
    for j in jobs:
        q_in.put(j)
    nproc = min(nproc, len(jobs))
    for _ in range(nproc):
        q_in.put(None)
    procs = [ctxm.Process(target=_worker, args=(modname, tier, deadline, q_in, q_out)) for _ in range(nproc)]
    for p in procs:
        p.start()
    got = 0
    while got < len(jobs):
        try:
            acc = q_out.get(timeout=5)
        except Exception:
            if any(p.exitcode not in (None, 0) for p in procs):
                raise SystemExit("engine error: a worker died")
            continue
        got += 1
        for k in ("traces", "transitions", "choices", "pruned", "scen"):
            tot[k] += acc[k]
        tot["maxdepth"] = max(tot["maxdepth"], acc["maxdepth"])
        tot["states"] |= acc["states"]
        tot["fails"] += acc["fails"]
        tot["capped"] |= acc["capped"]
        if len(tot["samples"]) < 6:
            tot["samples"] += acc["samples"]
    for p in procs:
        p.join()
    known = load_known(prop)
    seen_known, viol = {}, {}
    for f in sorted(tot["fails"], key=lambda f: (len(f["choices"]), sum(f["choices"]), len(json.dumps(f["scenario"])))):
        if f["key"] in known:
            seen_known.setdefault(f["key"], f)
        elif f["key"] not in viol and len(viol) < MAX_VIOL:
            # re-run the recorded execution in this (fresh) process; a violation that does not come back depends on what
            # the process executed before and is reported as such
            try:
                _, again = (None, [(f["key"], "")]) if f["key"] == "no-termination" else _exec(mod, f["scenario"], f["choices"], tier)
            except RuntimeError:
                again = None
            f["reproduced_in_isolation"] = bool(again and any(k == f["key"] for k, _ in again))
            viol[f["key"]] = f
    for k, f in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {known[k]} [{k}]")
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, (k, f) in enumerate(viol.items()):
        path = os.path.join(rdir, f"{prop}-{n}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "tier": tier, "replay_cmd": f"./check {prop} --replay {path}", **f}, fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  key={k}\n  scenario={json.dumps(f['scenario'])[:600]} choices={f['labels'][:12]}\n  " +
              f["msg"].replace("\n", "\n  ")[:1500])
    samples = tot["samples"][:5] or [{"scenario": s} for s in scs[:3]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(tot["states"]), "transitions": tot["transitions"],
                       "traces_validated_against_impl": tot["traces"], "exhaustive": not tot["capped"],
                       "scenarios": tot["scen"], "scenarios_total": len(scs), "choice_points": tot["choices"],
                       "max_choices_per_execution": tot["maxdepth"], "pruned": tot["pruned"],
                       "bounds": mod.BOUNDS, "known_findings_hit": sorted(seen_known), "samples": samples},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop} {tier}: {tot['scen']}/{len(scs)} scenarios, {tot['traces']} executions, {len(tot['states'])} distinct "
          f"states, {tot['transitions']} transitions, {'complete' if not tot['capped'] else 'CAPPED'}, "
          f"{len(viol)} violations, {time.time() - t0:.1f}s")
    return 1 if viol else 0


def replay(path):
    r = json.load(open(path))
    mod = importlib.import_module(f"mc.checks.{r['property'].lower()}")
    _, fails = _exec(mod, r["scenario"], r["choices"], r.get("tier", "quick"))
    for k, m in fails or []:
        print(f"VIOLATION property={r['property']} replay={path}\n  key={k}\n  {m}")
    return 1 if fails else 0
