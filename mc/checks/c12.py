"""C12: activation of distortions; decisions are choices of the explorer."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.distortions import OccupationDotJumps, SensorPotentialRTN, SensorResponseRTN
from mc import configs as C, sensors as S
from mc.scripted import ScriptedRNG
from mc.stubs import Lattice
from mc.checks.c04 import sweep1d
from mc.support import words
PROPERTY = "C12"
BOUNDS = ("all activation outcomes over histories of up to 4 (quick: 3) calls (new / frozen) and long histories containing every sequence of four decisions of every distortion with a ratio x ratios 0, 0.3, 1 x shapes x "
          "generator answers; all outcomes of lists of up to two dot jumps, two potential and two response telegraph noises over two measurements (CSD, sensor "
          "scan; generic and scan sensor), compared with a simulation that has only the active distortions")
ASSUMPTIONS = ["the decision is drawn as binomial(1, ratio) or by comparing a uniform number with the ratio"]
W = ([-.3127, .1873], [-.2181, .4219])
SW = ([-.9537, .1531], [-.8519, .2071])


def scenarios(tier):
    th = tier == "thorough"
    for kind in ("dot0", "dot1", "pot", "resp"):
        for ratio in (0, .3, 1, 0.0, 1.0, .999, 1e-3):
            for sh in ("2d", "diag", "anti", "g1", "g2"):
                for d in (0, 3):
                    yield dict(k="seq", kind=kind, ratio=ratio, sh=sh, d=d, n=4 if th else 3)
            for s in range(4):
                yield dict(k="seq", kind=kind, ratio=ratio, sh=("2d", "diag")[s % 2], d=0, n=23, word=s)
    for occ in ([], ["dot0"], ["dot1"], ["dot1", "dot0"], ["dot0", "dot1"]):
        for pot in range(3 if th else 2):
            for resp in range(3 if th else 2):
                if not occ and not pot and not resp:
                    continue
                for sens in ("generic", "scan"):
                    for sh in ("2d", "diag", "g1", "g2") if th else ("2d", "anti"):
                        yield dict(k="sim", occ=occ, pot=pot, resp=resp, sens=sens, sh=sh)
    for pot in range(3):
        for resp in range(3):
            if pot or resp:
                for sh in ("2d", "diag", "g1", "g2"):
                    yield dict(k="scan", occ=[], pot=pot, resp=resp, sens="scan", sh=sh)


def run(sc, ctx):
    (_seq if sc["k"] == "seq" else _sim)(sc, ctx)
    ctx.sample = {"scenario": sc}


def rngfor(i, acts, more=True):
    return ScriptedRNG(act=acts, geometric=[2, 1, 1, 2, 1], poisson=[1 + i % 2], normal=[.5 + .1 * i, 1., -1., .25])


def mk(kind, ratio, rng):
    if kind in ("dot0", "dot1"):
        return OccupationDotJumps(scale=.2, lam=.1, axis=int(kind[3]), ratio=ratio, rng=rng)
    return (SensorPotentialRTN if kind == "pot" else SensorResponseRTN)(scale=.2, std=.01, height=.03, ratio=ratio, rng=rng)


def decision_ok(ctx, log, ratio, activated):
    """the log of one call: exactly one decision, with probability `ratio`"""
    dec = [e for e in log if e[0] in ("binomial", "random") or e[0] == "uniform"]
    ctx.check(len(dec) <= 1 and (len(dec) == 1 or ratio in (0, 1)), "decision-draws", lambda: f"decisions drawn in one measurement: {dec}")
    if dec and dec[0][0] == "binomial":
        ctx.check(dec[0][1] == 1 and dec[0][2] == ratio, "probability", lambda: f"decided with {dec[0]}, ratio {ratio}")
    ctx.check(activated or ratio != 1, "ratio-one", "inactive with ratio 1")
    ctx.check(not activated or ratio != 0, "ratio-zero", "active with ratio 0")
    if not activated:
        ctx.check(len(log) == len(dec), "inactive-draws", lambda: f"an inactive distortion drew {log}")


def _seq(sc, ctx):
    ratio = sc["ratio"]
    two = sc["sh"] == "2d"
    r1, r2 = W if two else sweep1d(*W, sc["sh"])
    r1, r2 = C.directions(r1, r2, sc["d"])
    res = [5, 4] if two else 5
    dot = sc["kind"].startswith("dot")
    if "word" in sc:        # one long history: every sequence of four decisions, every third call frozen
        w = (words(2, 4) * 3)[5 * sc["word"]:][:sc["n"]]
        ops = ["frozen" if dot and i % 3 == 2 else "new" for i in range(sc["n"])]
        acts = [1 - a if o == "new" else 0 for o, a in zip(ops, w)]
    else:
        ops = [ctx.choose(f"call{i}", ["new", "frozen"] if dot and i else ["new"]) for i in range(sc["n"])]
        acts = [ctx.choose(f"act{i}", [1, 0]) if o == "new" and 0 < ratio < 1 else 0 for i, o in enumerate(ops)]
    if 0 < ratio < 1:
        script = [a for a, o in zip(acts, ops) if o == "new"]
    else:
        script = [0 if ratio else 1]          # any draw that could contradict the ratio
    rng = rngfor(0, script)
    if not 0 < ratio < 1:
        rng.streams["random"] = [0.0 if ratio == 0 else 1 - 2 ** -53]
    d = mk(sc["kind"], ratio, rng)
    ctx.check(d.activated is None, "initial", f"activated {d.activated} before the first call")
    st = [abs(r1[1] - r1[0]) / 4 or 1, abs(r2[1] - r2[0]) / (3 if two else 4) or 1]
    lat = Lattice(r1, r2, *st)
    last = None                               # (active, result of the last new application)
    a1, a2 = np.array(r1), np.array(r2)
    for i, o in enumerate(ops):
        ctx.op()
        n0 = len(rng.log)
        if dot:
            occ, lab = lat.get_csd_data(r1, r2, res)
            keep = occ.copy(), lab.copy()
            out = d.noise_function(occ, lab, a1, a2, lat.get_csd_data, freeze=o == "frozen") if o == "frozen" else \
                d.noise_function(occ, lab, a1, a2, lat.get_csd_data)
            ctx.check(np.array_equal(out[0], occ) and np.array_equal(out[1], lab), "in-place", "returned data differ from the data changed in place")
            out = occ, lab
        else:
            x = np.arange(float(np.prod(lat.get_csd_data(r1, r2, res)[1].shape))).reshape(lat.get_csd_data(r1, r2, res)[1].shape) ** 2
            keep = (x.copy(),)
            out = (d.noise_function(x, a1, a2),)
            ctx.check(np.array_equal(x, keep[0]), "input-modified", "the input signal was modified")
        log = rng.log[n0:]
        same = all(np.array_equal(a, b) for a, b in zip(out, keep))
        if o == "frozen":
            ctx.check(not log, "frozen-draws", lambda: f"frozen application drew {log}")
            ctx.check(bool(d.activated) == last[0], "frozen-decision", "frozen application changed the reported decision")
            ctx.check(all(np.array_equal(a, b) for a, b in zip(out, last[1])), "frozen-result", "frozen application on the same data gives other data than the original one")
        else:
            want = bool(ratio) if ratio in (0, 1) else bool(acts[i])
            decision_ok(ctx, log, ratio, bool(d.activated))
            ctx.check(d.activated is not None and bool(d.activated) == want, "report", lambda: f"decision {want}, reported {d.activated}")
            swept = True
            if dot:
                r = r1 if sc["kind"] == "dot1" else r2
                swept = r[0] != r[1]
            if not want:
                ctx.check(same, "inactive-changes", "an inactive distortion changed the data")
            elif swept:
                ctx.check(not same, "active-nothing", "an active distortion changed nothing")
            last = (want, [a.copy() for a in out])
        ctx.state(sc["kind"], o, bool(d.activated), *out)


def _sim(sc, ctx):
    kinds = list(sc["occ"]) + ["pot"] * sc["pot"] + ["resp"] * sc["resp"]
    npot = 3 if sc["sens"] == "scan" else 1
    nmeas = 2
    two = sc["sh"] == "2d"
    w = SW if sc["k"] == "scan" else W
    r1, r2 = w if two else sweep1d(*w, sc["sh"])
    res = np.array([5, 4]) if two else 5
    ctx.bound = 3 if ctx.tier == "quick" else 6
    per = [npot if k == "pot" else 1 for k in kinds]
    # decisions[m][i][q]
    dec = [[[ctx.choose(f"m{m}d{i}q{q}", [0, 1]) for q in range(per[i])] for i in range(len(kinds))] for m in range(nmeas)]
    st = [abs(r1[1] - r1[0]) / 4 or 1, abs(r2[1] - r2[0]) / (3 if two else 4) or 1]
    lat = Lattice(*W, *st)
    c = S.cfg("toy_rise")
    sens = S.build(c) if sc["sens"] == "scan" else S.build_generic(S.GENERIC["gauss"])
    vs = (-.45, -.35) if sc["sens"] == "scan" and sc["k"] == "sim" else (None, None)

    def build(idx, ratio, script):
        ds = {i: mk(kinds[i], ratio, rngfor(i, script(i))) for i in idx}
        g = lambda s: [ds[i] for i in idx if kinds[i].startswith(s)] or None
        return Simulation(ideal_csd_config=lat, sensor=sens, occupation_distortions=g("dot"), sensor_potential_distortions=g("pot"),
                          sensor_response_distortions=g("resp"))

    def go(sim):
        ctx.op()
        if sc["k"] == "scan":
            return sim.measure_sensor_scan(np.array(r1), np.array(r2), -.1, .1, res)[:3]
        return sim.measure(np.array(r1), np.array(r2), *vs, res)[:3]

    full = build(range(len(kinds)), .3, lambda i: [dec[m][i][q] for m in range(nmeas) for q in range(per[i])])
    outs = []
    for m in range(nmeas):
        outs.append(go(full))
        objs = list(full.occupation_distortions or []) + list(full.sensor_potential_distortions or []) + list(full.sensor_response_distortions or [])
        for i, o in enumerate(objs):
            ctx.check(bool(o.activated) == bool(dec[m][i][-1]), "report", lambda: f"{kinds[i]}: decision {dec[m][i]}, reported {o.activated}")
            log = [e for e in o.rng.log if e[0] in ("binomial", "random", "uniform")]
            ctx.check(len(log) == per[i] * (m + 1), "decision-draws", lambda: f"{kinds[i]}: {len(log)} decisions after {m + 1} measurements of {per[i]} applications")
    ctx.state(sc["k"], dec, *outs[0])
    # a distortion that never acts in this history can be left out; one that acts only in the first measurement / second likewise per measurement
    for m in range(nmeas):
        if m and any(any(x) for x in dec[0]):
            # random answers consumed by the first measurement: only compare if nothing was active there
            continue
        act = [i for i in range(len(kinds)) if any(dec[m][i])]
        alone = build(act, .3, lambda i: [dec[m][i][q] for q in range(per[i])])
        want = go(alone)
        for name, a, b in zip(("signal", "occupations/conduction", "labels"), outs[m], want):
            ctx.check(a.shape == b.shape and np.array_equal(a, b), "inactive-influence", lambda: f"measurement {m}: {name} differ from those without the inactive distortions, decisions {dec[m]}")
