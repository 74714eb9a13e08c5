"""C13: dot jumps are rigid block shifts towards lower voltages; generator answers enumerated."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.distortions import OccupationDistortionInterface, OccupationDotJumps
from mc import configs as C, refs
from mc.scripted import ScriptedRNG, blocks, per_pixel
from mc.stubs import Lattice
from mc.checks.c04 import sweep1d
PROPERTY = "C13"
BOUNDS = ("every answer of the generator (block lengths 1, 2, 3 and longer than the window; jump heights 0, 1, 2, 7, 300 pixels) for windows of up to 6 "
          "pixels (and lengths around the limits of 8 and 16 bit integers) along the affected gate x axis x 4 sweep directions x 2D / diagonal / single-gate 1D x direct (also of an object used for another window before) and through a simulation, with another "
          "occupation distortion or dot jumps along the other gate (all answers for both) earlier in the list; in windows that are very narrow, very wide or have one narrow side; on a structure whose pixels identify "
          "their voltages, and on default structures")
ASSUMPTIONS = ["jump heights are drawn per block in order (either for all blocks or for the shifted blocks only)",
               "two dot jumps along the same gate are not covered"]
W = ([-.3127, .1873], [-.2181, .4219])
WINS = [W, ([-.2, -.1999985], [.1, .1000005]), ([-3e4, 5e4], [2e4, 9e4]), ([0., 2.], [-3., 0.])]


class Affine(OccupationDistortionInterface):
    """position independent, so its effect on data generated elsewhere is known"""

    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        occupations *= 2
        occupations += .5
        lead_transitions *= 3
        return occupations, lead_transitions


def scenarios(tier):
    th = tier == "thorough"
    for axis in (0, 1):
        for res in ([4, 3], [3, 4], 4):
            for d in (0, 1, 3):
                yield dict(k="one", axis=axis, via="reused", res=res, d=d, **({"sh": "diag"} if res == 4 else {}))
        for via in ("direct", "sim", "affine"):
            for res in ([6, 3], [3, 6], [2, 5], [5, 2]):
                for d in range(4):
                    yield dict(k="one", axis=axis, via=via, res=res, d=d)
            for sh in ("diag", "anti", "g1", "g2"):
                for d in range(4) if sh in ("diag", "anti") else (0, 3):
                    for n in (6, 5, 1, 2):
                        yield dict(k="one", axis=axis, via=via, res=n, d=d, sh=sh)
        yield dict(k="big", axis=axis)
        for w in (1, 2, 3):
            for res in ([5, 3], [3, 5], 4):
                for d in (0, 1, 3):
                    yield dict(k="one", axis=axis, via="sim", res=res, d=d, w=w, **({"sh": "diag"} if res == 4 else {}))
        for via in ("direct", "sim"):
            for d in (0, 3):
                yield dict(k="one", axis=axis, via=via, res=[5, 3] if axis else [3, 5], d=d, ls=[257, 65537, 40000, 200, 2], hs=[1, 2])
                yield dict(k="one", axis=axis, via=via, res=5, d=d, sh="diag", ls=[257, 65537, 40000, 200, 2], hs=[1, 2])
        for res in ([3, 4], [4, 3], [4, 4]):
            for d in range(4):
                yield dict(k="both", axis=axis, res=res, d=d)
        for sh in ("diag", "anti"):
            for d in (0, 3):
                yield dict(k="both", axis=axis, res=4, d=d, sh=sh)
        for s in ("gaas", "toy", "toy_nc"):
            for d in range(4):
                yield dict(k="real", s=s, axis=axis, d=d)
            for sh in ("diag", "anti"):
                yield dict(k="real", s=s, axis=axis, d=0, sh=sh)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def window(sc, w=W):
    r1, r2 = WINS[sc["w"]] if "w" in sc else w
    if "sh" in sc:
        r1, r2 = sweep1d(r1, r2, sc["sh"])
    return C.directions(r1, r2, sc["d"])


def steps(r1, r2, res):
    n = list(res) if np.ndim(res) else [res, res]
    return [abs(r[1] - r[0]) / max(k - 1, 1) for r, k in zip((r1, r2), n)]


def affected(axis, r1, r2, res):
    """(gate index, number of pixels, swept)"""
    g = 0 if axis == 1 else 1
    r = (r1, r2)[g]
    return g, (int(res[g]) if np.ndim(res) else int(res)), r[0] != r[1]


def shifts(g, grid, n, seq, two, r):
    """shift in pixels of every pixel of the grid: seq is ordered by increasing voltage of gate g"""
    s = np.array(seq if r[1] > r[0] else seq[::-1])
    if not two:
        return s
    return np.broadcast_to(s[None, :] if g == 0 else s[:, None], grid.shape[:2])


def streams(ls, hs):
    """poisson answers: equal entries for an unshifted block and the following shifted one"""
    ph = [h for h in hs for _ in (0, 1)] + [99]
    return dict(geometric=ls + [1], poisson=ph, act=[1]), ph


def accepted(ls, hs, n):
    """offsets per pixel; heights drawn for every block, or for shifted blocks only"""
    _, ph = streams(ls, hs)
    return [per_pixel(ls, hs, n), per_pixel(ls, ph + [99] * len(ls), n)]


def jumps(axis, ls, hs, scale=.2, lam=.1):
    rng = ScriptedRNG(**streams(ls, hs)[0])
    return OccupationDotJumps(scale=scale, lam=lam, axis=axis, ratio=1, rng=rng), rng


def _one(sc, ctx):
    two = "sh" not in sc
    r1, r2 = window(sc)
    res = sc["res"]
    g, n, swept = affected(sc["axis"], r1, r2, res)
    big = ctx.tier == "thorough"
    if "ls" in sc:
        ls, hs = blocks(ctx, n, sc["ls"], sc["hs"])
    else:
        ls, hs = blocks(ctx, n, [1, 2, 3, 9] if n > 1 else [1, 9], ([1, 0, 2, 7] + ([12] if big else [])) if swept else [1]) if swept else ([n], [])
    st = steps(r1, r2, res)
    lat = Lattice(r1, r2, st[0] or 1, st[1] or 1)
    dj, rng = jumps(sc["axis"], ls, hs)
    grid = refs.grid(r1, r2, res)
    ctx.op()
    a1, a2, rr = np.array(r1), np.array(r2), (np.array(res) if two else res)
    aff = lambda o, l: (o * 2 + .5, l * 3) if sc["via"] == "affine" else (o, l)
    if sc["via"] == "reused":       # applied to another window, with another resolution and other jumps, before
        dj = jumps(sc["axis"], [1, 2, 1, 9], [2, 1, 4])[0]
        q1, q2 = a1 * 3 - .2, a2 * .5 + .1
        o, l = lat.get_csd_data(q1, q2, [5, 7] if two else 6)
        dj.noise_function(o, l, q1, q2, lat.get_csd_data)
        dj.rng = rng
    if sc["via"] in ("direct", "reused"):
        occ, lab = lat.get_csd_data(r1, r2, res)
        ret = dj.noise_function(occ, lab, a1, a2, lat.get_csd_data)
        ctx.check(np.array_equal(ret[0], occ) and np.array_equal(ret[1], lab), "in-place", "returned data differ from the data changed in place")
    else:
        sim = Simulation(ideal_csd_config=lat, sensor=None, occupation_distortions=([Affine()] if sc["via"] == "affine" else []) + [dj])
        _, occ, lab, _ = sim.measure(a1, a2, resolution=rr)
        dj = sim.occupation_distortions[-1]
    ctx.check(np.array_equal(a1, r1) and np.array_equal(a2, r2), "ranges-modified", "ranges modified")
    ctx.check(dj.activated is True or dj.activated == 1, "activated", f"activated {dj.activated}")
    ctx.state(occ, lab)
    for seq in (accepted(ls, hs, n) if swept else [np.zeros(n, int)]):
        sh = shifts(g, grid, n, seq, two, (r1, r2)[g]) if swept else np.zeros(grid.shape[:-1], int)
        v = grid.copy()
        v[..., g] -= sh * st[g]
        wo, wl = aff(*lat.at(v))
        if occ.shape == wo.shape and np.allclose(occ, wo, atol=1e-9) and np.array_equal(lab, wl):
            return
    v = grid.copy()
    seq = accepted(ls, hs, n)[0]
    wo, wl = aff(*lat.at(v))
    lo = np.all(np.abs(occ - wo) < 1e-9)
    ctx.fail("shift", f"axis {sc['axis']}, ranges {r1} {r2}, blocks {ls} heights {hs}: data are not those of the structure shifted by {seq} pixels along gate "
             f"{g + 1} ({'occupations unshifted' if lo else ''}); labels {lab.tolist()}")


def _big(sc, ctx):
    """heights beyond 8 bits, in 1D and 2D"""
    two = ctx.choose("two", [True, False])
    h = ctx.choose("height", [255, 256, 300, 513])
    d = ctx.choose("direction", range(4))
    r1, r2 = C.directions(*W, d)
    res = [3, 4] if two else 4
    g, n, _ = affected(sc["axis"], r1, r2, res)
    dj, rng = jumps(sc["axis"], [1, 9], [h])
    st = steps(r1, r2, res)
    lat = Lattice(r1, r2, *st)
    sim = Simulation(ideal_csd_config=lat, sensor=None, occupation_distortions=[dj])
    ctx.op()
    _, occ, lab, _ = sim.measure(np.array(r1), np.array(r2), resolution=np.array(res) if two else res)
    grid = refs.grid(r1, r2, res)
    v = grid.copy()
    v[..., g] -= shifts(g, grid, n, per_pixel([1, 9], [h], n), two, (r1, r2)[g]) * st[g]
    wo, wl = lat.at(v)
    ctx.state(occ, lab)
    ctx.check(np.allclose(occ, wo, atol=1e-6) and np.array_equal(lab, wl), "shift-large", f"height {h}: wrong data")


def _both(sc, ctx):
    """jumps along both gates; sc['axis'] is the one earlier in the list"""
    two = "sh" not in sc
    r1, r2 = window(sc)
    res = sc["res"]
    st = steps(r1, r2, res)
    lat = Lattice(r1, r2, *st)
    ax = [sc["axis"], 1 - sc["axis"]]
    djs, sh = [], []
    grid = refs.grid(r1, r2, res)
    for k, a in enumerate(ax):
        g, n, _ = affected(a, r1, r2, res)
        if k == 1 and ctx.tier == "quick":
            ls, hs = blocks(ctx, n, [1, 2, 9], [1, 3])
        else:
            ls, hs = blocks(ctx, n, [1, 2, 9], [1, 0, 3])
        djs.append(jumps(a, ls, hs)[0])
        sh.append((g, accepted(ls, hs, n)))
    sim = Simulation(ideal_csd_config=lat, sensor=None, occupation_distortions=djs)
    ctx.op()
    _, occ, lab, _ = sim.measure(np.array(r1), np.array(r2), resolution=np.array(res) if two else res)
    ctx.state(occ, lab)
    for c in itertools.product(*(x[1] for x in sh)):
        # the data of the second jumps were distorted by the first ones, which depend on the position along their own gate only
        if two:
            v = grid.copy()
            for (g, _), seq in zip(sh, c):
                v[..., g] -= shifts(g, grid, len(seq), seq, two, (r1, r2)[g]) * st[g]
        else:
            # 1D: pixel i of a frozen line has the shift of pixel i of the requested line (same resolution), then the second shift
            v = grid.copy()
            for (g, _), seq in zip(sh, c):
                v[..., g] -= shifts(g, grid, len(seq), seq, False, (r1, r2)[g]) * st[g]
        wo, wl = lat.at(v)
        if occ.shape == wo.shape and np.allclose(occ, wo, atol=1e-9) and np.array_equal(lab, wl):
            return
    ctx.fail("shift-both", f"{sc}: jumps along both gates: wrong data, labels {lab.tolist()}")


PLACE = {"gaas": ((2, 0), (1, 1)), "toy": ((3, 1), (.5, .6)), "toy_nc": ((3, 1), (.5, .5))}


def _real(sc, ctx):
    """default structures: occupations against the reference model"""
    two = "sh" not in sc
    r1, r2 = window(sc, C.window(sc["s"], *PLACE[sc["s"]]))
    res = [5, 6] if two else 6
    g, n, _ = affected(sc["axis"], r1, r2, res)
    ls, hs = blocks(ctx, n, [1, 3, 9], [1, 2])
    csd, m = C.structure(sc["s"]), C.ref(sc["s"])
    sim = Simulation(ideal_csd_config=csd, sensor=None, occupation_distortions=[jumps(sc["axis"], ls, hs, lam=.1 * abs(r1[1] - r1[0]),
                                                                                     scale=abs(r1[1] - r1[0]))[0]])
    ctx.op()
    _, occ, lab, _ = sim.measure(np.array(r1), np.array(r2), resolution=np.array(res) if two else res)
    grid = refs.grid(r1, r2, res)
    st = steps(r1, r2, res)
    ctx.state(occ)
    for seq in accepted(ls, hs, n):
        v = grid.copy()
        v[..., g] -= shifts(g, grid, n, seq, two, (r1, r2)[g]) * st[g]
        lo, hi = m.total_interval(v, 1e-9)
        if two:   # the transition pixels themselves may belong to either side (C04)
            hi = np.where(lab > 0, m.total_interval(v + np.array(st) / 2 * (1 + 1e-9))[1], hi)
        ok = True
        for i in np.ndindex(lo.shape):
            ok &= any(np.allclose(occ[i], m.occ(v[i], t), atol=1e-6) for t in range(lo[i], hi[i] + 1))
        if ok:
            return
    ctx.fail("shift-real", f"{sc}: blocks {ls} {hs}: occupations are not those of the shifted structure")
