"""C02: measurements of any shape agree wherever they hit the same gate voltages; pixel <-> voltage assignment."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise,
                                 SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise)
from simcats.sensor import SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian
from mc import configs as C, refs, sensors as S
from mc.checks.c01 import make, SWIN
PROPERTY = "C02"
BOUNDS = ("2D scans (non-square grids, all directions) against 1D row / column / diagonal sweeps, sub-range scans with every second "
          "pixel, halves and parts of long sweeps and single-pixel measurements at the reference voltages; CSDs and sensor scans; every pixel; requests and sensors in integers of every size, as views and as "
          "read-only arrays, with and without distortions")
ASSUMPTIONS = ["signals and occupations are compared to 1e-8 (rounding of the voltages)"]
WIN = {"gaas": [((2, 0), (1, 1)), ((3, 1), (2, .3)), ((2, 0, "left"), (1, .05)), ((5, 0, "mid"), (.4, 2))],
       "toy": [((3, 1), (.5, .6)), ((4, 2, "line"), (.3, .3))], "toy_nc": [((3, 1), (.5, .5))], "toy_zero": [((3, 0, "mid"), (.4, .4))]}


def scenarios(tier):
    th = tier == "thorough"
    res = [[7, 5], [3, 9], [2, 2]] + ([[13, 6], [21, 3], [5, 25]] if th else [])
    for s, ws in WIN.items():
        for w, r, d in itertools.product(ws, res, range(4)):
            for sn, vs in ((("g", "gauss"), None), (("s", "toy_rise", None), [-.45, -.35])):
                yield dict(k="csd", s=s, w=w, sn=sn, vs=vs, res=r, d=d)
    for n, df in [("toy", None), ("toy_rise", None), ("toy_onebar", None), ("toy_axis", None), ("toy", "mixed"), ("toy_unsorted", "circ")]:
        for w, r, d in itertools.product(SWIN, res, range(4)):
            for vp in ([-.14, -.05], [-.1, -.1], [-.15, -.15]) if df is None and n == "toy" or r[0] == 7 else ([-.14, -.05],):
                yield dict(k="scan", sn=["s", n, df], w=w, res=r, d=d, vp=vp)


    for r in ([270, 2], [2, 270], [131, 3]):
        for d in (0, 1, 2, 3):
            yield dict(k="csd", s="gaas", w=WIN["gaas"][1], sn=("g", "gauss"), vs=None, res=r, d=d)
            yield dict(k="scan", sn=["s", "toy_rise", None], w=SWIN[0], res=r, d=d, vp=[-.14, -.05])


    for s, w in (("gaas", ((3, 1), (.3, .3))), ("toy", ((3, 1), (.2, .2)))):
        for r in ([5, 270], [270, 5], [3, 600]):
            for d in range(4):
                yield dict(k="csd", s=s, w=w, sn=("g", "gauss"), vs=None, res=r, d=d)


    for kind, sens, dist, d in itertools.product(("csd", "scan"), ("g", "s"), (False, True), range(4)):
        if kind == "csd" or sens == "s":
            yield dict(k="forms", kind=kind, sens=sens, dist=dist, d=d)


def forms(sc, ctx):
    """the same voltages in another representation (integers, views, read-only arrays; integer sensor parameters)"""
    def make(t):
        if sc["sens"] == "g":
            s = SensorGeneric(sensor_peak_function=[SensorPeakGaussian(mu0=t(0), sigma=t(2), height=t(1), offset=t(0)), SensorPeakLorentzian(t(5), t(3), t(-1), t(1))],
                              alpha_dot=np.array([-1, 2], t), alpha_gate=np.array([1, 3], t), offset_mu_sens=t(1))
        else:
            s = make_scan()
            s.alpha_dot, s.alpha_gate = np.array([[-1, 2], [0, 1], [1, 0]], t), np.array([[1, 0], [0, 0], [1, 1]], t)
            s.alpha_sensor_gate, s.offset_mu_sens = np.array([[1, 1], [9, 2], [1, 11]], t), np.array([0, 0, 1], t)
        r = lambda: np.random.default_rng(3)
        kw = {} if not sc["dist"] else dict(
            occupation_distortions=[OccupationTransitionBlurringFermiDirac(.03), OccupationDotJumps(1., .5, axis=1, ratio=1, rng=r()),
                                    OccupationDotJumps(1., .5, axis=0, ratio=1, rng=r()), OccupationTransitionBlurringGaussian(.03)],
            sensor_potential_distortions=[SensorPotentialPinkNoise(.1, rng=r()), SensorPotentialRTN(.4, .1, .1, ratio=1, rng=r())],
            sensor_response_distortions=[SensorResponseRTN(.4, .1, .1, ratio=1, rng=r()), SensorResponseWhiteNoise(.1, rng=r())])
        return Simulation(ideal_csd_config=C.structure("toy_zero"), sensor=s, **kw)
    scan = sc["kind"] == "scan"
    R = [([-1, 2], [-2, 1]), ([0, 3], [0, 0]), ([1, 1], [-1, 1]), ([-1, 1], [-1, 1])] if scan else [([-2, 0], [-3, 0]), ([-1, 0], [0, 0]), ([-1, -1], [-2, 0]), ([-1, 0], [-2, -1])]
    w = ctx.choose("window", range(4))
    r1, r2 = C.directions(*R[w], sc["d"])
    res = ctx.choose("res", [[5, 4], [2, 7]] if w in (0, 3) else [6, [6]]) if w < 3 else 7
    vf, vi = ((0., -0.), (0, 0)) if scan else ((0., -1.), (0, -1)) if sc["sens"] == "s" else ((None,) * 2,) * 2

    def measure(sim, a, b, v, res):
        ctx.op()
        return (sim.measure_sensor_scan if scan else sim.measure)(a, b, *v, res)[:3]
    rr = np.array(res) if np.ndim(res) else res
    want = measure(make(float), np.array(r1, float), np.array(r2, float), vf, rr)
    ctx.state(*want)
    form = ctx.choose("form", ["int64", "int16", "int8", "view", "read-only", "negative-stride", "fortran", "int-sensor", "int32-res"])
    t = int if form == "int-sensor" else float
    A, B = np.array(r1, float), np.array(r2, float)
    if form.startswith("int") and form[3:].isdigit():
        A, B = A.astype(form), B.astype(form)
    elif form == "view":
        A, B = np.array([r1, r2], float).T.copy().T
    elif form == "read-only":
        A.flags.writeable = B.flags.writeable = False
    elif form == "negative-stride":
        A, B = A[::-1].copy()[::-1], B[::-1].copy()[::-1]
    elif form == "fortran":
        q = np.asfortranarray([[*r1], [*r2]], dtype=float)
        A, B = q[0], q[1]
    elif form == "int32-res" and np.ndim(res):
        rr = rr.astype(np.int32)
    got = measure(make(t), A, B, vi, rr)
    for n, x, y in zip(("signal", "second", "third"), want, got):
        ctx.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9), f"form-{n}", lambda: f"{form} {r1} {r2} {res}: {n} differs from the request with floats")
    ctx.check(np.array_equal(A, r1) and np.array_equal(B, r2), "ranges-modified", "ranges modified")


def make_scan():
    return S.build(S.cfg("toy_rise"))


def run(sc, ctx):
    if sc["k"] == "forms":
        return forms(sc, ctx)
    scan = sc["k"] == "scan"
    if scan:
        sim = Simulation(ideal_csd_config=C.structure("gaas"), sensor=make(sc["sn"]))
        r1, r2 = sc["w"]
        vp = sc["vp"]
    else:
        sim = Simulation(ideal_csd_config=C.structure(sc["s"]), sensor=make(sc["sn"]))
        r1, r2 = C.window(sc["s"], *sc["w"])
        vs = sc["vs"] or (None, None)
    r1, r2 = C.directions(r1, r2, sc["d"])

    def meas(a, b, res):
        ctx.op()
        a, b = np.array([float(x) for x in a]), np.array([float(x) for x in b])
        res = np.array(res) if np.ndim(res) else int(res)
        if scan:
            sig, cond, peaks, _ = sim.measure_sensor_scan(a, b, *vp, res)
            shape = (res[1], res[0]) if np.ndim(res) else (res,)
            ctx.check(sig.shape == cond.shape == peaks.shape == shape, "shape", lambda: f"{sig.shape} {cond.shape} {peaks.shape} != {shape}")
            return sig, cond[..., None], np.zeros(shape)
        sig, occ, lab, _ = sim.measure(a, b, *vs, res)
        shape = (res[1], res[0]) if np.ndim(res) else (res,)
        ctx.check(sig.shape == lab.shape == shape and occ.shape == shape + (2,), "shape", lambda: f"{sig.shape} {lab.shape} {occ.shape} != {shape}")
        return sig, occ, lab

    n1, n2 = sc["res"]
    full = meas(r1, r2, sc["res"])
    a, b = refs.lin(r1, n1), refs.lin(r2, n2)
    ctx.state(sc["k"], *full)

    def agree(name, other, sel, other_is_2d=False):
        sig, occ = full[0][sel], full[1][sel]
        ok = np.array(full[2][sel] == 0)
        if other_is_2d:
            ok &= other[2] == 0
        for what, x, y in (("signal", sig, other[0]), ("occupations" if not scan else "conduction", occ, other[1])):
            ctx.check(x.shape == y.shape, f"{name}-shape", lambda: f"{x.shape} {y.shape}")
            diff = ~np.isclose(x, y, rtol=1e-8, atol=1e-8)
            if diff.ndim > ok.ndim:
                diff = diff.any(-1)
            bad = diff & ok
            ctx.check(not bad.any(), f"{name}-{what}", lambda: f"{name}: {what} of {int(bad.sum())} pixels differ from the 2D scan, first at "
                      f"{np.argwhere(bad)[0]}: {x[bad][0]} vs {y[bad][0]}")

    for j in {0, n2 // 2, n2 - 1}:
        agree("row", meas(r1, [b[j], b[j]], n1), (j, slice(None)))
        agree("partial-row", meas([a[1], r1[1]], [b[j], b[j]], n1 - 1), (j, slice(1, None)))
    for i in {0, n1 // 2, n1 - 1}:
        agree("column", meas([a[i], a[i]], r2, n2), (slice(None), i))
    n = min(n1, n2)
    agree("diagonal", meas([a[0], a[n - 1]], [b[0], b[n - 1]], n), (np.arange(n), np.arange(n)))
    agree("antidiagonal", meas([a[0], a[n - 1]], [b[n - 1], b[0]], n), (np.arange(n)[::-1], np.arange(n)))
    for j, i in itertools.product({0, n2 // 2, n2 - 1}, {0, n1 // 2, n1 - 1}):
        agree("single", meas([a[i], a[i]], [b[j], b[j]], 1), (slice(j, j + 1), i))
    if n1 % 2 and n2 % 2 and n1 > 2 and n2 > 2:
        agree("every-second", meas(r1, r2, [(n1 + 1) // 2, (n2 + 1) // 2]), (slice(None, None, 2), slice(None, None, 2)), True)
    if n1 > 2 and n2 > 2:
        agree("sub-window", meas([a[1], r1[1]], [r2[0], b[-2]], [n1 - 1, n2 - 1]), (slice(0, n2 - 1), slice(1, None)), True)
    for k, n in ((0, n1), (1, n2)):       # parts of long sweeps
        if n < 100:
            continue
        for lo, hi in ((0, n // 2), (n // 3, n - 1), (n // 2, n // 2 + 9)):
            x = ([a[lo], a[hi]], r2) if k == 0 else (r1, [b[lo], b[hi]])
            sl = slice(lo, hi + 1)
            agree("part", meas(*x, [hi - lo + 1, n2] if k == 0 else [n1, hi - lo + 1]), (slice(None), sl) if k == 0 else (sl, slice(None)), True)
            agree("part-line", meas([a[0]] * 2, x[1], hi - lo + 1) if k else meas(x[0], [b[0]] * 2, hi - lo + 1), (sl, 0) if k else (0, sl))
    ctx.sample = {"scenario": sc}
