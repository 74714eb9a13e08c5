"""C05: the transition curve function."""
import itertools
import math
import numpy as np
from simcats.ideal_csd.geometric import tct_bezier, calculate_all_bezier_anchors, initialize_tct_functions
from mc import configs as C, refs
PROPERTY = "C05"
BOUNDS = ("curve parameter sets (GaAs curves, rescaled, degenerate, asymmetric, integer valued) x number of maxima {1,2,4,None,7,13} x "
          "all ordered selections (up to length 3) of 13 abscissae covering every segment kind and joint x scalar/array/int input, inputs of up to 70000 abscissae x "
          "exact evaluation and lookup tables of 2 to 200001 entries")
ASSUMPTIONS = ["a lookup table delivers the entry nearest to the x-value (error up to half of the table spacing)", "exact evaluation agrees with the closed form up to 1e-9 of the curve's length scale"]

PARS = {
    "gaas1": C.gaas_params()[0], "gaas4": C.gaas_params()[3], "gaas9": C.gaas_params()[8],
    "toy2": C.toy_params()[1],
    "nc": C.toy_params(coupling=0.0)[2],
    "asym": np.array([3.0, 2.0, 0.8, -0.1, -1.0, 5.0, 0.2, 5.4]),      # centre strictly inside, long left side
    "int": np.array([4, 3, 1, -1, 0, 0, 1, 0]),                        # integer valued, arcs of width 1
    "tight": np.array([1., 1., 1., -1., 0., 0., 1., 0.]),             # arcs as long as allowed: no straight parts at all
    "tight2": np.array([1., 3., 2., -1., -2., 1., 0., .5]),
    "pos": np.array([2.0, 2.5, 0.5, -0.9, 3.0, 1.0, 4.0, 0.6]),
}


def key_points(t, peaks):
    """abscissae covering every kind of segment and every joint"""
    n = 3 if peaks is None else peaks
    xs = []
    k = n - 1
    for kk in sorted({0, k}):
        p, v = t.peak(kk), t.valley(kk)
        xs += [p[0][0], (p[0][0] + p[1][0]) / 2, 0.3 * p[1][0] + 0.7 * p[2][0], p[2][0], (p[2][0] + v[0][0]) / 2]
        xs += [v[0][0] + 0.2 * (v[2][0] - v[0][0]), v[1][0] + 0.37 * (v[2][0] - v[1][0]), v[2][0] + 0.4 * (t.peak(kk + 1)[0][0] - v[2][0])]
    xs += [t.L[0] - 0.31 * t.period[0], t.L[0] - 2.6 * t.period[0], t.peak(k)[2][0] + 0.37 * t.period[0], t.peak(k)[2][0] + 1.9 * t.period[0]]
    return [float(x) for x in xs]


def scenarios(tier):
    th = tier == "thorough"
    for name in PARS:
        for peaks in (1, 2, 4, None):
            for lut in (None, 50, 400):
                n = 12 if peaks == 1 else 20
                if lut is None:
                    for i in range(n):
                        if th or i % 3 == (peaks or 0) % 3:
                            yield dict(par=name, peaks=peaks, lut=None, idx=[i])
                    yield dict(par=name, peaks=peaks, lut=None, idx=list(range(n - 1, -1, -1)))
                else:
                    for i in range(n):
                        for j in range(n):
                            yield dict(par=name, peaks=peaks, lut=lut, idx=[i, j])
                    if th:
                        for c in itertools.permutations(range(0, n, 2), 3):
                            yield dict(par=name, peaks=peaks, lut=lut, idx=list(c))
            yield dict(par=name, peaks=peaks, scalar=True)
            if peaks:
                yield dict(par=name, peaks=peaks, anchors=True)
    for name in PARS:      # coarse and very fine lookup tables
        for lut in (2, 3, 10, 2501, 20001, 200001):
            for peaks in (1, 3):
                yield dict(par=name, peaks=peaks, lut=lut, idx=list(range(12)))
                yield dict(par=name, peaks=peaks, lut=lut, idx=[3, 7, 1, 1])
    for name in PARS:      # many maxima
        for peaks in (7, 13):
            for i in range(20):
                yield dict(par=name, peaks=peaks, lut=400, idx=[i, (7 * i + 3) % 20])
            yield dict(par=name, peaks=peaks, lut=None, idx=list(range(19, -1, -1)))
            yield dict(par=name, peaks=peaks, scalar=True)
            yield dict(par=name, peaks=peaks, anchors=True)
        for peaks in (60, None):
            yield dict(par=name, peaks=peaks, starts=60)
        for n in (257, 70000):   # long inputs
            yield dict(par=name, peaks=3, long=n)
    for forms in ("array", "list", "listlist", "2d", "listarr"):
        for mp in (1, 2, 3):
            yield dict(init=forms, mp=mp)


def run(sc, ctx):
    if "init" in sc:
        return run_init(sc, ctx)
    par = PARS[sc["par"]]
    orig = par.copy()
    t = refs.Tct(par, sc["peaks"])
    scale = t.period[0]
    if "anchors" in sc:
        for rotation in (-math.pi / 4, 0.0, 0.3):
            a = calculate_all_bezier_anchors(par, max_peaks=sc["peaks"], rotation=rotation)
            ctx.op()
            ctx.check(list(a) == [sc["peaks"]], "anchor-key", lambda: str(list(a)))
            want = refs.rot(t.anchors(), rotation)
            ctx.check(a[sc["peaks"]].shape == want.shape and np.allclose(a[sc["peaks"]], want, atol=1e-9 * scale, rtol=0),
                      "anchors", lambda: f"anchors {a[sc['peaks']]} want {want}")
            ctx.state(sc["par"], want)
        ctx.check((par == orig).all(), "par-modified", "parameters modified")
        return
    if "scalar" in sc:
        xs = key_points(t, sc["peaks"])
        for lut in (300,):
            arr = tct_bezier(par, np.array(xs), lut_entries=lut, max_peaks=sc["peaks"])
            for i, x in enumerate(xs):
                for form in (float(x), np.float64(x)):
                    v = tct_bezier(par, form, lut_entries=lut, max_peaks=sc["peaks"])
                    ctx.op()
                    ctx.check(np.ndim(v) == 0 and abs(v - arr[i]) <= 1e-12 * scale, "scalar", f"scalar {v} array {arr[i]} at {x}")
            for x in (-3, 0, 2):
                v, w = tct_bezier(par, x, lut_entries=lut, max_peaks=sc["peaks"]), tct_bezier(par, float(x), lut_entries=lut, max_peaks=sc["peaks"])
                ctx.check(v == w, "int-scalar", f"{v} != {w} at {x}")
                u = tct_bezier(par, np.array([x, x + 1]), lut_entries=lut, max_peaks=sc["peaks"])
                ctx.check(u[0] == w, "int-array", f"{u[0]} != {w}")
                ctx.op(3)
                ctx.state(sc["par"], x, w)
        # continuity across every joint
        eps = 1e-7 * scale
        n = 3 if sc["peaks"] is None else sc["peaks"]
        joints = [a for k in range(n) for a in (t.peak(k)[0][0], t.peak(k)[2][0], t.valley(k)[0][0], t.valley(k)[2][0])]
        slope = max(abs(t.gl), abs(t.gr))
        arc = t.dL + t.dR
        for x in joints:
            y = tct_bezier(par, np.array([x - eps, x, x + eps]), lut_entries=2000, max_peaks=sc["peaks"])
            ctx.op()
            ctx.check(np.abs(np.diff(y)).max() <= slope * (eps + 2 * arc / 1999) + 1e-9 * scale, "joint",
                      f"jump at joint {x}: {y}")
        ctx.check((par == orig).all(), "par-modified", "parameters modified")
        return
    if "starts" in sc:      # beginning of every period and of every segment, and the neighbouring floats
        x = np.array([a for k in range(sc["starts"]) for a in (t.peak(k)[0][0], t.peak(k)[2][0], t.valley(k)[0][0], t.valley(k)[2][0], t.L[0] + k * (par[0] + par[1]))])
        x = np.concatenate([x, np.nextafter(x, np.inf), np.nextafter(x, -np.inf)])
        y = tct_bezier(par, x, lut_entries=1000, max_peaks=sc["peaks"])
        ctx.op(len(x))
        tol = 1e-9 * scale + 1.001 * max(t.dL, t.dR) / 999 * max(abs(t.gl), abs(t.gr))
        err = np.abs(y - t(x))
        ctx.check(err.max() <= tol, "curve", lambda: f"at a joint: x={x[err.argmax()]!r} got {y[err.argmax()]} want {t(x[err.argmax()])}")
        ctx.state(sc["par"], sc["peaks"], y)
        return
    if "long" in sc:
        lo, hi = t.L[0] - 2 * t.period[0], t.peak(2)[2][0] + 2 * t.period[0]
        x = np.linspace(lo, hi, sc["long"])
        for x in (x, x[::-1], np.concatenate([x[::2], x[1::2]]), np.full(sc["long"], t.peak(1)[1][0])):
            y = tct_bezier(par, x, lut_entries=1000, max_peaks=3)
            ctx.op()
            tol = 1e-9 * scale + 1.001 * max(t.dL, t.dR) / 999 * max(abs(t.gl), abs(t.gr))
            err = np.abs(y - t(x))
            ctx.check(err.max() <= tol, "curve", lambda: f"long input: x={x[err.argmax()]} got {y[err.argmax()]}")
            ctx.state(sc["par"], sc["long"], y)
        return
    xs = key_points(t, sc["peaks"])
    x = np.array([xs[i] for i in sc["idx"]])
    x_in = x.copy()
    y = tct_bezier(par, x, lut_entries=sc["lut"], max_peaks=sc["peaks"])
    ctx.op()
    ctx.check((x == x_in).all(), "x-modified", "x-values modified")
    ctx.check((par == orig).all(), "par-modified", "parameters modified")
    want = t(x)
    tol = 1e-9 * scale
    if sc["lut"]:
        tol += 1.001 * max(t.dL, t.dR) / (sc["lut"] - 1) * max(abs(t.gl), abs(t.gr))
    y = np.array(y, dtype=float)
    err = np.abs(y - want)
    ctx.check(y.shape == x.shape and err.max() <= tol, "curve", lambda: f"x={x[err.argmax()]} got {y[err.argmax()]} want {want[err.argmax()]} (tolerance {tol:.2g})")
    ctx.state(sc["par"], sc["peaks"], y)
    ctx.sample = {"scenario": sc, "x": x.tolist(), "y": y.tolist()}


def run_init(sc, ctx):
    pars = C.toy_params(n=3)
    mp = sc["mp"]
    arg = {"array": pars[0], "list": list(pars[0]), "listlist": [list(p) for p in pars], "2d": np.array(pars), "listarr": pars}[sc["init"]]
    single = sc["init"] in ("array", "list")
    f = initialize_tct_functions(arg, max_peaks=mp)
    a = calculate_all_bezier_anchors(arg, max_peaks=mp)
    ctx.op(2)
    keys = [mp] if single else [mp, mp + 1, mp + 2]
    ctx.check(sorted(f) == keys and sorted(a) == keys, "init-keys", lambda: f"{sorted(f)} {sorted(a)} want {keys}")
    for i, k in enumerate(keys):
        t = refs.Tct(pars[i], k)
        xs = np.array(key_points(t, k))
        y = f[k](x_eval=xs, lut_entries=800)
        tol = 1.001 * max(t.dL, t.dR) / 799 * max(abs(t.gl), abs(t.gr)) + 1e-9 * t.period[0]
        ctx.check(np.abs(y - t(xs)).max() <= tol, "init-curve", f"curve {k} of form {sc['init']} wrong")
        ctx.check(np.allclose(a[k], refs.rot(t.anchors(), -math.pi / 4), atol=1e-9 * t.period[0], rtol=0), "init-anchors", f"anchors {k} wrong")
        ctx.state(k, y)
