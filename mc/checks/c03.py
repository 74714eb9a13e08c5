"""C03: labels and occupations describe the same regions."""
import itertools
import numpy as np
from simcats import Simulation
from mc import configs as C, refs
from mc.checks.c04 import PLACES, HALF, RES2, sweep1d
PROPERTY = "C03"
BOUNDS = ("structures x window centres x half widths (aspect ratio up to 1:300) x pixel grids x sweep directions up to 600x590 and 70000 pixels, 2D and 1D "
          "(diagonal, opposite, single gate); the neighbour rule is checked for every pair of adjacent pixels")
ASSUMPTIONS = ["a label is accepted if the transition curve comes within half a pixel (plus lookup tolerance) of the pixel"]


def scenarios(tier):
    th = tier == "thorough"
    for s in PLACES:
        exact = s == "toy_exact"
        places = [p for p in PLACES[s] if p[0] < 13]
        half = HALF if not exact else [(0.6, 0.8)]
        res = RES2 + [(12, 12)] if not exact else [(3, 2)]
        if th:
            half, res = (half + [(6, 6), (1, 0.1), (0.05, 0.05)], res + [(25, 21), (40, 3), (3, 40)]) if not exact else (half, [(5, 4)])
        for p in places:
            for h in half:
                for r in res:
                    for d in (range(4) if (r[0] == 9 or th) else (0,)):
                        yield dict(s=s, p=p, h=h, res=list(r), d=d)
                for n in ((2, 13) if not th else (1, 2, 13, 30)) if not exact else (4,):
                    for shape in ("diag", "anti", "g1", "g2"):
                        for d in ((0, 3) if not exact else (0,)):
                            yield dict(s=s, p=p, h=h, res=n, d=d, shape=shape)


    for s, p, h in (("gaas", (3, 1), (1, 1)), ("toy", (3, 1), (.5, .6)), ("toy_zero", (3, 0, "mid"), (.4, .4)), ("gaas", (6, 3), (3, 3))):
        for r in ([280, 3], [3, 280], [130, 2], [70, 60]):
            for d in range(4):
                yield dict(s=s, p=p, h=h, res=r, d=d)
        for shape in ("diag", "anti", "g1", "g2"):
            for d in (0, 3):
                yield dict(s=s, p=p, h=h, res=300, d=d, shape=shape)


    for x, y in itertools.product(range(8), range(8)):
        for h in ([.16, .16], [.05, .3]):
            yield dict(s="corner", at=[-.31 + .06 * x, -.33 + .0614 * y], h=h, res=[13, 12], d=(x + y) % 4)
    for r in ([600, 590], [300, 1300]):      # large images: transitions compared with the curves on every 13th line and column only
        yield dict(s="gaas", p=(5, 1), h=(2, 2), res=r, d=r[0] % 7 % 4, stride=13)
    for n in (1500, 30000):
        yield dict(s="gaas", p=(5, 1), h=(2, 2), res=n, d=0, shape="diag")


def cut(x, k):
    return x[::k, ::k] if k > 1 else x


def run(sc, ctx):
    name = sc["s"]
    st, ref = C.structure(name), C.ref(name)
    r1, r2 = C.window(name, sc["p"], sc["h"]) if "p" in sc else ([sc["at"][0], sc["at"][0] + sc["h"][0]], [sc["at"][1], sc["at"][1] + sc["h"][1]])
    if "shape" in sc:
        r1, r2 = sweep1d(r1, r2, sc["shape"])
    r1, r2 = C.directions(r1, r2, sc["d"])
    res = sc["res"]
    st_ = sc.get("stride", 1)
    top = ref.total_interval(cut(refs.grid(r1, r2, res), st_) +
                             (np.array([abs(r1[1] - r1[0]) / (res[0] - 1), abs(r2[1] - r2[0]) / (res[1] - 1)]) / 2 if np.ndim(res) else 0))[1]
    if top.max() >= len(ref.tct):
        return  # window beyond the structure: C04
    ctx.op()
    sim = Simulation(ideal_csd_config=st)
    _, occ, lab, _ = sim.measure(np.array(r1), np.array(r2), resolution=np.array(res) if np.ndim(res) else res)
    tot = occ[..., 0] + occ[..., 1]
    ctx.state(name, np.round(tot), lab)
    ctx.check(occ.shape == lab.shape + (2,), "shape", lambda: f"{occ.shape} {lab.shape}")
    ctx.check(np.isfinite(occ).all() and (occ >= -1e-12).all(), "negative", lambda: f"min occupation {occ.min()}")
    ctx.check(np.abs(tot - np.round(tot)).max() < 1e-9, "not-integer", "occupations do not add up to whole electrons")
    tot = np.round(tot).astype(int)
    lab_i = lab.astype(float)
    ctx.check((lab_i == np.round(lab_i)).all() and lab_i.min() >= 0, "label-value", "labels are not non-negative integers")
    m = lab_i > 0
    ctx.check((lab_i[m] == tot[m]).all(), "label-not-total", lambda: f"labels {lab_i[m][lab_i[m] != tot[m]][:3]} on pixels with "
              f"{tot[m][lab_i[m] != tot[m]][:3]} electrons")
    for ax in range(tot.ndim):
        a = [slice(None)] * tot.ndim
        b = [slice(None)] * tot.ndim
        a[ax], b[ax] = slice(None, -1), slice(1, None)
        ta, tb, la, lb = tot[tuple(a)], tot[tuple(b)], lab_i[tuple(a)], lab_i[tuple(b)]
        up, dn = tb > ta, ta > tb
        bad = (up & (lb != tb)) | (dn & (la != ta))
        ctx.check(not bad.any(), "neighbour-rule", lambda: f"axis {ax}, {int(bad.sum())} neighbour pairs; first {np.argwhere(bad)[0]}: "
                  f"totals {ta[bad][0]},{tb[bad][0]} labels {la[bad][0]},{lb[bad][0]}")
    # a labelled pixel n lies at the transition n-1 -> n
    g = refs.grid(r1, r2, res)
    if np.ndim(res):
        g, tot, m, lab_i = (cut(x, st_) for x in (g, tot, m, lab_i))
        half = np.array([abs(r1[1] - r1[0]) / (res[0] - 1), abs(r2[1] - r2[0]) / (res[1] - 1)]) / 2
        low, high = ref.total_interval(g - half * (1 + 1e-9))[0], ref.total_interval(g + half * (1 + 1e-9))[1]
        bad = m & ((low > tot - 1) | (high < tot))
    else:
        # 1D: an adjacent pixel must have fewer electrons
        nb = np.zeros(tot.shape, bool)
        nb[1:] |= tot[:-1] < tot[1:]
        nb[:-1] |= tot[1:] < tot[:-1]
        bad = m & ~nb
    ctx.check(not bad.any(), "label-off-transition", lambda: f"{int(bad.sum())} labelled pixels away from the transition; first "
              f"{np.argwhere(bad)[0]} label {lab_i[bad][0]}")
    ctx.sample = {"scenario": sc, "labels": sorted(set(lab_i.ravel().tolist()))}
