"""C04: total charge = number of transition curves at or below the pixel's voltages."""
import itertools
import numpy as np
from mc import configs as C, refs
PROPERTY = "C04"
BOUNDS = ("structures x window centres (peak, valley, straight part, outer lines, region interior, beyond the last curve) x "
          "half widths incl. aspect ratios up to 1:300 x pixel grids x sweep directions, 2D and 1D; a lattice of 225 (thorough: 841) positions x 9 (16) extents over a structure with nearly rectangular corners; every pixel compared")
ASSUMPTIONS = ["structures whose transition curves fall in both gate voltages (the documented geometry of lead transitions)",
               "pixels whose centre lies within the lookup-table tolerance of a curve may belong to either side"]

PLACES = {"gaas": [(2, 0), (3, 1), (3, 1, "line"), (2, 0, "left"), (2, 0, "right"), (5, 0, "mid"), (13, 3), (14, 4)],
          "toy": [(2, 0), (3, 1), (4, 2, "line"), (2, 0, "left"), (3, 0, "right"), (4, 0, "mid"), (6, 3)],
          "toy_nc": [(2, 0), (3, 1), (4, 2, "line"), (3, 0, "mid")],
          "skew": [(2, 0), (3, 1), (4, 2, "line"), (3, 0, "mid"), (2, 0, "left"), (2, 0, "right")],
          "toy_rot": [(3, 1), (3, 0, "mid"), (4, 2, "line")],
          "toy_exact": [(2, 0), (3, 1)]}
HALF = [(1, 1), (0.2, 0.3), (3, 2), (2, 0.02), (0.02, 2), (3, 0.01)]
RES2 = [(9, 7), (4, 12), (2, 2)]


def scenarios(tier):
    th = tier == "thorough"
    for s in PLACES:
        exact = s == "toy_exact"
        if exact and not th:
            places, half, res = PLACES[s], [(0.6, 0.8)], [(3, 2)]
        else:
            places, half = PLACES[s], HALF + ([(6, 6), (0.01, 3), (1, 0.1), (0.05, 0.05)] if th else [])
            res = RES2 + ([(25, 21), (40, 3), (3, 40)] if th else [])
        if exact and th:
            res, half = [(5, 4), (2, 2)], [(0.6, 0.8), (1, 0.05)]
        for p in places:
            for h in half:
                for r in res:
                    for d in (range(4) if th else (0, 3)):
                        yield dict(s=s, p=p, h=h, res=list(r), d=d)
                for n in ((11, 1) if not th else (11, 1, 40)) if not exact else (4,):
                    for shape in ("diag", "anti", "g1", "g2"):
                        yield dict(s=s, p=p, h=h, res=n, d=0, shape=shape)


    for s, p, h in (("gaas", (3, 1), (1, 1)), ("toy", (3, 1), (.5, .6)), ("toy_zero", (3, 0, "mid"), (.4, .4)), ("gaas", (6, 3), (3, 3))):
        for r in ([280, 3], [3, 280], [130, 2], [70, 60]):
            for d in range(4):
                yield dict(s=s, p=p, h=h, res=r, d=d)
        for shape in ("diag", "anti", "g1", "g2"):
            for d in (0, 3):
                yield dict(s=s, p=p, h=h, res=300, d=d, shape=shape)


    for r in ([600, 590], [300, 1300]):       # large images: every 13th line and column compared
        yield dict(s="gaas", p=(5, 1), h=(2, 2), res=r, d=r[0] % 7 % 4, stride=13)
    n = 29 if th else 15
    for x, y in itertools.product(range(n), range(n)):       # a lattice of windows of a structure with nearly rectangular corners
        for h in itertools.product((.05, .16, .3) + ((.47,) if th else ()), repeat=2):
            yield dict(s="corner", at=[-.31 + .42 * x / (n - 1), -.33 + .43 * y / (n - 1)], h=list(h), res=[24, 24], d=0)


def sweep1d(r1, r2, shape):
    m1, m2 = (r1[0] + r1[1]) / 2, (r2[0] + r2[1]) / 2
    return {"diag": (r1, r2), "anti": (r1, r2[::-1]), "g1": (r1, [m2, m2]), "g2": ([m1, m1], r2)}[shape]


def run(sc, ctx):
    name = sc["s"]
    st, ref = C.structure(name), C.ref(name)
    r1, r2 = C.window(name, sc["p"], sc["h"]) if "p" in sc else ([sc["at"][0], sc["at"][0] + sc["h"][0]], [sc["at"][1], sc["at"][1] + sc["h"][1]])
    if "shape" in sc:
        r1, r2 = sweep1d(r1, r2, sc["shape"])
    r1, r2 = C.directions(r1, r2, sc["d"])
    res = sc["res"]
    g = refs.grid(r1, r2, res)
    k = sc.get("stride", 1)
    g = g[::k, ::k] if k > 1 else g
    lo, hi = ref.total_interval(g)
    n_tct = len(ref.tct)
    if np.ndim(res):
        half = np.array([abs(r1[1] - r1[0]) / (res[0] - 1), abs(r2[1] - r2[0]) / (res[1] - 1)]) / 2
        top = ref.total_interval(g + half * (1 + 1e-9))[1]
    else:
        top = hi
    ctx.op()
    try:
        occ, lab = st.get_csd_data(np.array(r1), np.array(r2), np.array(res) if np.ndim(res) else res)
    except IndexError:
        ctx.check(top.max() >= n_tct, "rejected-inside", "window inside the defined structure rejected with IndexError")
        ctx.state("IndexError")
        return
    if k > 1:
        ctx.check(lab.shape == (res[1], res[0]), "shape", lambda: str(lab.shape))
        occ, lab = occ[::k, ::k], lab[::k, ::k]
    ctx.check(lo.max() < n_tct, "undefined-region-reported",
              lambda: f"pixels above the last curve reported as {np.unique(occ.sum(-1)[lo >= n_tct])} electrons")
    tot = occ.sum(-1)
    ctx.check(tot.shape == lo.shape, "shape", lambda: f"{tot.shape} != {lo.shape}")
    bad = (tot < lo) | (tot > np.where(lab > 0, top, hi))
    ctx.check(not bad.any(), "wrong-total", lambda: f"{int(bad.sum())} of {bad.size} pixels have the wrong total charge; first "
              f"{np.argwhere(bad)[0]}: got {tot[bad][0]}, curves below centre {lo[bad][0]}..{hi[bad][0]}, upper corner {top[bad][0]}")
    ctx.state(name, tot, lab)
    ctx.sample = {"scenario": sc, "totals": sorted(set(tot.ravel().tolist()))}
