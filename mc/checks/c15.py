"""C15: transition blurring."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.distortions import OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian
from simcats.support_functions import UniformSamplingRange, fermi_filter1d
from mc import configs as C, refs, sensors as S
from mc.scripted import ScriptedRNG
from mc.stubs import Lattice
from mc.checks.c04 import sweep1d
PROPERTY = "C15"
BOUNDS = ("the public filter on impulses at all positions x axes x continuation modes x radii; all 0/1 patterns of up to 7 (thorough: 11) pixels per line as occupations of dot 1 (dot 2: another value per pixel), arranged as one line, as lines of "
          "an image with all pairs of neighbouring lines from a set, and as constant lines x widths from 0 to several windows, fixed or sampled x both kinds x "
          "2D / 1D shapes x directions; voltages in other units, lines of up to 3000 and images of up to 81000 pixels, other memory layouts; histories of up to 3 new / frozen applications with other data; a simulation with two blurrings")
ASSUMPTIONS = ["lines are mirrored at their ends; kernels are cut off after four widths", "1D sweeps with both gates swept over different ranges: width of the denser gate"]
CLS = {"gauss": OccupationTransitionBlurringGaussian, "fermi": OccupationTransitionBlurringFermiDirac}
SIG = [0, .3, .1, .6, 1., 2.5, 7., 1e-3]


def scenarios(tier):
    th = tier == "thorough"
    for kind in CLS:
        for n in range(1, 12 if th else 8):
            for d in (0, 3):
                yield dict(k="line", kind=kind, n=n, d=d)
        for shape in ([4, 3], [3, 4], [5, 2], [2, 5], [2, 12], [12, 2], [9, 1], [1, 9], [40, 3], [200, 4]):
            for d in range(4):
                yield dict(k="image", kind=kind, shape=shape, d=d)
        for sh in ("2d", "diag", "g1", "g2", "point"):
            yield dict(k="history", kind=kind, sh=sh)
        for sh in ("2d", "diag", "g1", "g2", "point"):
            yield dict(k="sim", kind=kind, sh=sh)
        for s in range(len(UNITS)):
            for shape in ([8, 3], [3, 8], [1500, 2], [300, 270], 9, 3000):
                for form in ("plain", "Fortran", "view", "reversed"):
                    yield dict(k="units", kind=kind, s=s, shape=shape, form=form)

    yield dict(k="filter", kind="fermi")


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def verify(ctx, kind, before, after, sigma, r1, r2, what):
    """sigma in volts"""
    two = before[0].ndim == 3
    n = before[0].shape[1] if two else before[0].shape[0]
    w = [abs(r[1] - r[0]) for r in (r1, r2)]
    dens = [n / w[0]] if two else [max(n / x for x in w if x)] if any(w) else []
    ctx.check(after[0].shape == before[0].shape, "shape", f"{what}: shape changed")
    ctx.check(after[1].shape == before[1].shape and np.array_equal(after[1], before[1]), "labels", f"{what}: labels changed")
    if sigma == 0 or not dens:
        ctx.check(np.array_equal(after[0], before[0]), "zero-width", f"{what}: a width of zero changed the occupations")
        return
    x = np.moveaxis(before[0], -1, 0)
    c = [np.moveaxis(refs.blur(x, sigma * d, kind), 0, -1) for d in dens]
    ok = [np.allclose(after[0], y, atol=1e-9) for y in c]
    ctx.check(any(ok), "convolution", lambda: f"{what}: width {sigma} V ({[sigma * d for d in dens]} px): occupations are not the convolution along the sweep, deviation {[float(np.abs(after[0] - y).max()) for y in c]}")
    lo, hi = before[0].min(axis=-2, keepdims=True), before[0].max(axis=-2, keepdims=True)
    ctx.check(((after[0] >= lo - 1e-9) & (after[0] <= hi + 1e-9)).all(), "range", f"{what}: values outside of the range of their line")


def data(bits, n):
    o = np.array([(bits >> i) & 1 for i in range(n)], float)
    return np.stack([o, 3. - o * 2 + np.arange(n) % 2], axis=-1), (np.arange(n) % 2).astype(int)


def apply(d, before, r1, r2, freeze=None):
    occ, lab = before[0].copy(), before[1].copy()
    kw = {} if freeze is None else {"freeze": freeze}
    out = d.noise_function(occ, lab, np.array(r1), np.array(r2), None, **kw)
    return occ, lab, out


def _line(sc, ctx):
    n = sc["n"]
    sig = ctx.choose("sigma", SIG)
    sh = ctx.choose("shape", ["g1", "g2", "diag", "2d"])
    r1, r2 = C.directions(*(sweep1d([-.5, .25], [1., 1.9], sh) if sh != "2d" else ([-.5, .25], [1., 1.9])), sc["d"])
    for bits in range(2 ** n):
        before = data(bits, n)
        if sh == "2d":
            if n < 2:
                return
            before = np.stack([before[0], np.zeros_like(before[0]), before[0][::-1]]), np.stack([before[1], before[1], 1 - before[1]])
        d = CLS[sc["kind"]](sig)
        ctx.check(d.latest_sigma is None, "initial", f"latest_sigma {d.latest_sigma} before the first call")
        ctx.op()
        occ, lab, out = apply(d, before, r1, r2)
        ctx.check(np.array_equal(out[0], occ) and np.array_equal(out[1], lab), "in-place", "returned data differ from the data changed in place")
        ctx.check(d.latest_sigma == sig, "reported", lambda: f"reported {d.latest_sigma}, used {sig}")
        verify(ctx, sc["kind"], before, (occ, lab), sig, r1, r2, f"pattern {bits:b} of {n}")
        ctx.state(occ)


def _image(sc, ctx):
    """all pairs of neighbouring lines from an alphabet"""
    n1, n2 = sc["shape"]
    sig = ctx.choose("sigma", SIG)
    pats = [0, 1, 2 ** n1 - 1, 2 ** (n1 - 1), 0b0110 % 2 ** n1]
    lines = [ctx.choose(f"line{i}", pats) for i in range(2)] + ([5 % 2 ** n1, 0, 1] * 4)[:n2 - 2]
    o = [data(b, n1) for b in lines[:n2]]
    before = np.stack([x[0] for x in o]), np.stack([x[1] for x in o])
    r1, r2 = C.directions([-.5, .25], [1., 1.3], sc["d"])
    d = CLS[sc["kind"]](sig)
    ctx.op()
    occ, lab, _ = apply(d, before, r1, r2)
    verify(ctx, sc["kind"], before, (occ, lab), sig, r1, r2, f"lines {lines}")
    ctx.state(occ)


UNITS = [1., 2. ** -22, 2. ** 12]


def _units(sc, ctx):
    """other units of the voltages, large data, other memory layouts"""
    u, two = UNITS[sc["s"]], np.ndim(sc["shape"]) == 1
    n1, n2 = sc["shape"] if two else (sc["shape"], 1)
    i = np.arange(n1 * n2)
    occ = np.stack([(i * 7919 % 13) / 3., 4 + (i * i * 31 % 17) / 5.], axis=-1).reshape((n2, n1, 2) if two else (n1, 2))
    lab = (i % 5).reshape(occ.shape[:-1])
    if sc["form"] == "Fortran":
        occ = np.asfortranarray(occ)
    elif sc["form"] == "view":
        full = np.zeros(occ.shape[:-1] + (5,))
        full[..., 1::2] = occ
        occ = full[..., 1::2]
    elif sc["form"] == "reversed":
        occ = occ[::-1].copy()[::-1]
    for sh in ("2d",) if two else ("diag", "g1", "g2"):
        for sig, d in itertools.product((.01, .2, 1.) if n1 < 100 else (.01, 3 / n1), (0, 3)):
            r1, r2 = C.directions(*(([-.5 * u, .25 * u], [1. * u, 1.9 * u]) if two else sweep1d([-.5 * u, .25 * u], [1. * u, 1.9 * u], sh)), d)
            a, l = occ.copy(order="K"), lab.copy()
            if sc["form"] in ("view", "reversed"):
                a = full.copy()[..., 1::2] if sc["form"] == "view" else occ[::-1].copy()[::-1]
            ctx.op()
            out = CLS[sc["kind"]](sig * u).noise_function(a, l, np.array(r1), np.array(r2), None)
            ctx.check(np.array_equal(out[0], a) and np.array_equal(out[1], l), "in-place", "returned data differ from the data changed in place")
            verify(ctx, sc["kind"], (occ, lab), (a, l), sig * u, r1, r2, f"units of {u}, {sc['form']}")
            ctx.state(a)


def shaped(sh, k):
    """k-th data set"""
    if sh == "2d":
        n1, n2 = [(5, 3), (4, 6), (7, 2)][k]
        i = np.arange(n1 * n2).reshape(n2, n1)
        return np.stack([i * (k + 3) % 4, i * 5 % 7], axis=-1).astype(float), i % 2
    n = [6, 9, 4][k]
    i = np.arange(n)
    return np.stack([i * (k + 3) % 4, i * 5 % 7], axis=-1).astype(float), i % 2


def ranges(sh, k=0):
    r1, r2 = ([-.5 - k, .25 + k], [1., 1.6 + 3 * k])
    return ([r1[0]] * 2, [r2[0]] * 2) if sh == "point" else (r1, r2) if sh == "2d" else sweep1d(r1, r2, sh)


def _history(sc, ctx):
    """new / frozen applications, fixed and sampled widths, setter"""
    draws = [ctx.choose(f"draw{i}", [.25, 0., .999]) for i in range(3)]
    rng = ScriptedRNG(uniform=draws)
    mode = ctx.choose("mode", ["sampled", "fixed", "zero", "sampled-from-zero"])
    low = .1 if mode == "sampled" else 0.
    d = CLS[sc["kind"]](UniformSamplingRange((low, low + .4), rng=rng) if mode.startswith("sampled") else .2 if mode == "fixed" else 0)
    last = None
    k = 0
    for i in range(4):
        frozen = i > 0 and ctx.choose(f"frozen{i}", [False, True])
        if not frozen:
            if i == 2 and mode == "fixed" and ctx.choose("set", [False, True]):
                d.sigma = .7
            if k >= 3:
                break
            last = low + .4 * draws[k] if mode.startswith("sampled") else d.sigma
            k += 1
        n0 = len(rng.log)
        before = shaped(sc["sh"], i % 3)
        r = ranges(sc["sh"], i % 2)
        ctx.op()
        occ, lab, _ = apply(d, before, *r, freeze=True if frozen else None)
        ctx.check(not (frozen and len(rng.log) > n0), "frozen-draws", "a frozen application drew a new width")
        ctx.check(abs(d.latest_sigma - last) < 1e-12, "reported", lambda: f"step {i}: reported {d.latest_sigma}, used {last}")
        verify(ctx, sc["kind"], before, (occ, lab), last, *r, f"step {i} ({'frozen' if frozen else 'new'})")
        ctx.state(occ)


def _sim(sc, ctx):
    """through a simulation: two blurrings of different kind in the list, repeated measurements"""
    kinds = [sc["kind"], ctx.choose("second", ["gauss", "fermi", None])]
    ws = [ctx.choose(f"w{i}", [.1, 0, .4]) for i in range(2)]
    csd = C.structure("toy")
    w = C.window("toy", (3, 1), (.5, .6))
    u = w[0][1] - w[0][0]
    r1, r2 = ([w[0][0]] * 2, [w[1][0]] * 2) if sc["sh"] == "point" else w if sc["sh"] == "2d" else sweep1d(*w, sc["sh"])
    ds = ctx.choose("direction", range(4))
    r1, r2 = C.directions(r1, r2, ds)
    sim = Simulation(ideal_csd_config=csd, sensor=S.build_generic(S.GENERIC["gauss"]), occupation_distortions=[CLS[k](x * u) for k, x in zip(kinds, ws) if k])
    res = np.array([8, 5]) if sc["sh"] == "2d" else 9
    clean = csd.get_csd_data(np.array(r1), np.array(r2), res)
    for rep in range(2):
        ctx.op()
        sig, occ, lab, _ = sim.measure(np.array(r1), np.array(r2), resolution=res)
        cands = [np.moveaxis(clean[0], -1, 0)]
        for k, x in zip(kinds, ws):
            if not k or not x:
                continue
            n = 8 if sc["sh"] == "2d" else 9
            wd = [abs(r1[1] - r1[0])] if sc["sh"] == "2d" else [min(abs(r[1] - r[0]) for r in (r1, r2) if r[0] != r[1])] if sc["sh"] != "point" else []
            if wd:
                cands = [refs.blur(c, x * u * n / q, k) for c in cands for q in wd]
        ctx.check(any(np.allclose(np.moveaxis(occ, -1, 0), c, atol=1e-9) for c in cands), "simulated", lambda: f"{sc} {kinds} {ws}: occupations are not the blurred ones")
        ctx.check(np.array_equal(lab, clean[1]), "labels", "labels changed by blurring")
        for d, x in zip(sim.occupation_distortions, ws):
            ctx.check(d.latest_sigma == x * u, "reported", f"{d.latest_sigma}")
        ctx.state(occ)


def _filter(sc, ctx):
    """the public filter: impulses at every position, all axes"""
    s = ctx.choose("sigma", [.2, .5, 1., 3., 0.13])
    mode, cval = ctx.choose("mode", [(None, 0), ("constant", 0.), ("constant", 2.5), ("nearest", 0), ("mirror", 0), ("wrap", 0)])
    radius = ctx.choose("radius", [None, 1, 4])
    n = ctx.choose("n", [1, 2, 5, 9])
    ax = ctx.choose("axis", [-1, 0, 1])
    for i in range(n):
        x = np.zeros((n, 3) if ax == 0 else (3, n))
        x[(i, 1) if ax == 0 else (1, i)] = 1.
        keep = x.copy()
        ctx.op()
        kw = {} if mode is None else {"mode": mode, "cval": cval}
        y = fermi_filter1d(x, s, axis=ax, **kw, **({} if radius is None else {"radius": radius}))
        ctx.check(np.array_equal(x, keep), "filter-input", "input modified")
        want = direct(x if ax != 0 else x.T, s, mode or "reflect", cval, round(4. * s) if radius is None else radius)
        want = want if ax != 0 else want.T
        ctx.check(np.allclose(y, want, atol=1e-9), "filter", lambda: f"fermi_filter1d of an impulse at {i} along axis {ax}: {y}")
        ctx.state(y)


def direct(x, s, mode, cval, radius):
    """the documented continuation of every line, pixel by pixel"""
    k = np.array([1 / np.cosh(i / s) ** 2 for i in range(-radius, radius + 1)])
    k /= k.sum()
    n = x.shape[1]

    def at(line, i):
        if 0 <= i < n:
            return line[i]
        if mode == "constant":
            return cval
        if mode == "nearest":
            return line[0 if i < 0 else n - 1]
        if mode == "wrap":
            return line[i % n]
        if mode == "reflect":
            i %= 2 * n
            return line[i if i < n else 2 * n - 1 - i]
        if n == 1:
            return line[0]
        i %= 2 * n - 2
        return line[i if i < n else 2 * n - 2 - i]
    return np.array([[sum(k[r + radius] * at(line, i + r) for r in range(-radius, radius + 1)) for i in range(n)] for line in x])
