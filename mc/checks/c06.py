"""C06: occupations inside a region follow the interdot geometry."""
import math
import numpy as np
from simcats import Simulation
from simcats.support_functions import sigmoid_cdf, cauchy_cdf, multi_sigmoid_cdf, multi_cauchy_cdf
from mc import configs as C, refs
from mc.checks.c04 import sweep1d
from mc.support import elementwise
PROPERTY = "C06"
BOUNDS = ("structures (both CDFs, several width factors up to 200000, rotations, asymmetric, with/without coupling) x windows at every interdot transition "
          "of the regions N=1..5, 9, 12 x half widths x grids x directions, 2D and 1D; every pixel compared with the closed form; "
          "CDF helpers on all parameter/grid combinations of a small alphabet, the data in every size (to 70001), memory layout and number type")
ASSUMPTIONS = ["the region (total charge) of a pixel is taken from the measurement; it is decided by C03/C04"]
NS = ("gaas", "gaas_cauchy", "gaas_gf", "toy", "toy_nc")


def scenarios(tier):
    th = tier == "thorough"
    for s in NS:
        nmax = (5 if not th else 12) if s.startswith("gaas") else 5
        for n in range(1, nmax + 1):
            for i in range(0, 2 * n - 1, 1 if th else 2):
                for h in [(0.15, 0.15), (0.8, 0.8), (0.3, 0.1)] + ([(2, 2), (.02, .02)] if th else []):
                    for r in [[8, 7], 9]:
                        for d in ((0, 1, 2, 3) if th else (0, 2)):
                            yield dict(s=s, p=[n, i], h=h, res=r, d=d)
            for sh in ("anti", "g1", "g2"):
                yield dict(s=s, p=[n, 0, "mid"], h=[1, 1], res=15, d=0, shape=sh)
    if not th:
        for s in ("gaas", "gaas_cauchy"):
            for n in (9, 12):
                for i in (0, n - 1, 2 * n - 2):
                    yield dict(s=s, p=[n, i], h=(.3, .3), res=[6, 5], d=0)
                yield dict(s=s, p=[n, 0, "mid"], h=[1, 1], res=15, d=0, shape="anti")
    for s in ("skew", "toy_rot"):
        for n in range(1, 5):
            for i in range(0, 2 * n - 1):
                for h in ((.15, .15), (.8, .8), (.3, .1)):
                    for r in ([8, 7], 9):
                        yield dict(s=s, p=[n, i], h=h, res=r, d=(n + i) % 4)
                for sh in ("anti", "g1", "g2"):
                    yield dict(s=s, p=[n, 0, "mid"], h=[1, 1], res=15, d=0, shape=sh)
    for s in ("gaas_sharp", "gaas_sharper"):   # windows on the scale of the narrow transitions
        for n in (2, 3, 5):
            for i in range(2 * n - 1):
                for h in ((.15, .15), (.004, .004), (.01, .0), (3e-4, 3e-4)):
                    for res in ([9, 8], 21):
                        if h[1] or not isinstance(res, list):
                            yield dict(s=s, p=[n, i], h=h, res=res, d=(n + i) % 4)
    for s in ("gaas", "toy"):   # large grids
        for res in ([280, 3], [3, 280], [60, 70], 400):
            yield dict(s=s, p=[2, 1], h=(1., 1.), res=res, d=0)
    yield dict(s="toy_exact", p=[2, 0], h=[.5, .5], res=5, d=2)
    # every anchor of low curves and monotonicity
    for f in ("sigmoid", "cauchy"):
        for x0 in (-1.5, 0.0, 2.0):
            for g in (-0.5, 0.0, 5e-8, 2e-6, 3e-5, 1e-3, 0.5, 2.0):
                yield dict(cdf=f, x0=x0, g=g)


def cdf_ref(f, x, x0, g):
    if g == 0:
        return np.where(x > x0, 1.0, 0.0)
    z = (x - x0) / g
    return 0.5 * (1 + np.tanh(z)) if f == "sigmoid" else np.arctan(z) / math.pi + 0.5


def run(sc, ctx):
    if "cdf" in sc:
        one, multi = (sigmoid_cdf, multi_sigmoid_cdf) if sc["cdf"] == "sigmoid" else (cauchy_cdf, multi_cauchy_cdf)
        x = np.linspace(-4, 4, 33)
        x0c = x.copy()
        got = one(x, sc["x0"], sc["g"])
        ctx.op()
        want = cdf_ref(sc["cdf"], x, sc["x0"], sc["g"])
        edge = (x == sc["x0"]) & (sc["g"] == 0)
        ctx.check(np.allclose(got[~edge], want[~edge], atol=1e-12), "cdf", "unit step differs from its definition")
        ctx.check((x == x0c).all(), "cdf-arg", "argument modified")
        elementwise(ctx, lambda a: one(a, sc["x0"], sc["g"]), x, "cdf-form", want=got)
        elementwise(ctx, lambda a: multi(a, [sc["x0"], sc["g"], -.75, .4]), x, "multi-cdf-form")
        if sc["g"]:      # on the scale of the step itself
            x2 = sc["x0"] + sc["g"] * np.linspace(-6, 6, 25)
            ctx.check(np.allclose(one(x2.copy(), sc["x0"], sc["g"]), cdf_ref(sc["cdf"], x2, sc["x0"], sc["g"]), atol=1e-7), "cdf-narrow", "narrow unit step differs from its definition")
            three = [sc["x0"], sc["g"], -.75, .4, sc["x0"] + 2 * sc["g"], 2 * sc["g"]]
            w3 = sum(cdf_ref(sc["cdf"], x2, *three[i:i + 2]) for i in (0, 2, 4))
            ctx.check(np.allclose(multi(x2.copy(), three), w3, atol=1e-7), "multi-cdf", "sum of three unit steps wrong")
        for y0 in (-1.0, 1.0):
            for g2 in (0.3, 1.0):
                got = multi(x, [sc["x0"], sc["g"], y0, g2])
                ctx.op()
                w = want + cdf_ref(sc["cdf"], x, y0, g2)
                ctx.check(np.allclose(got[~edge], w[~edge], atol=1e-12), "multi-cdf", "sum of unit steps wrong")
                ctx.state(sc, got)
        return
    name = sc["s"]
    st, ref = C.structure(name), C.ref(name)
    r1, r2 = C.window(name, sc["p"], sc["h"])
    if "shape" in sc:
        r1, r2 = sweep1d(r1, r2, sc["shape"])
    r1, r2 = C.directions(r1, r2, sc["d"])
    res = sc["res"]
    g = refs.grid(r1, r2, res)
    hp = 0.0
    if np.ndim(res):
        hp = max(abs(r1[1] - r1[0]) / max(res[0] - 1, 1), abs(r2[1] - r2[0]) / max(res[1] - 1, 1)) / 2
    if ref.total_interval(g + hp)[1].max() >= len(ref.tct):
        return  # window reaches beyond the defined structure: C04
    ctx.op()
    _, occ, _, _ = Simulation(ideal_csd_config=st).measure(np.array(r1), np.array(r2), resolution=np.array(res) if np.ndim(res) else res)
    tot = np.round(occ.sum(-1)).astype(int)
    want = np.zeros(occ.shape)
    for n in np.unique(tot):
        m = tot == n
        want[m] = ref.occ(g[m], int(n))
    err = np.abs(occ - want)
    if name == "toy_nc":   # vertical steps: ignore pixels within rounding of the step
        e = np.array([1e-9, -1e-9])
        for n in np.unique(tot):
            err[(tot == n) & (np.abs(ref.occ(g + e, int(n))[..., 0] - ref.occ(g - e, int(n))[..., 0]) > .5)] = 0
    ctx.check(err.max() < 1e-7, "occupation", lambda: f"occupation differs by {err.max():.3g} at {np.unravel_index(err.argmax(), err.shape)}"
              f": got {occ[np.unravel_index(err.argmax(), err.shape)[:-1]]} want {want[np.unravel_index(err.argmax(), err.shape)[:-1]]}")
    ctx.check((occ >= -1e-12).all() and (occ <= tot[..., None] + 1e-12).all(), "bounds", "occupation outside 0..N")
    # dot 1 never loses charge when gate 1 rises against gate 2 inside one region
    if not np.ndim(res) and sc.get("shape") == "anti" or (not np.ndim(res) and sc["d"] == 2):
        o = occ[:, 0] if r1[1] > r1[0] else occ[::-1, 0]
        t = tot if r1[1] > r1[0] else tot[::-1]
        same = t[1:] == t[:-1]
        ctx.check((np.diff(o)[same] >= -1e-9).all(), "monotone", "dot 1 loses charge towards higher g1")
    ctx.state(name, occ)
    ctx.sample = {"scenario": sc, "occ_first": occ.reshape(-1, 2)[0].tolist()}
