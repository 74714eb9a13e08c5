"""C14: conversion of volts into pixels."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.ideal_csd import IdealCSDInterface
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialRTN,
                                 SensorResponseRTN)
from simcats.support_functions import UniformSamplingRange
from mc import configs as C, refs, sensors as S
from mc.scripted import ScriptedRNG
from mc.stubs import Lattice
from mc.checks.c04 import sweep1d
PROPERTY = "C14"
BOUNDS = ("dot jumps (both axes), telegraph noise (both stages), blurring (both kinds) x all resolutions from a set of square and non-square ones, 1D with both / "
          "one / no swept gate, 2D images with a fixed gate (direct use of telegraph noise) x ranges of very different width and position x 4 directions x strengths incl. below one pixel, fixed or sampled x direct use (also of an object that was used for another window and resolution before), CSD and "
          "sensor scan; the requests made to the generator and the blurred data are compared with the pixel densities")
ASSUMPTIONS = ["1D sweeps of both gates over different ranges: blurring refers to the denser gate, telegraph noise to the gate with the larger range; 2D telegraph noise "
               "refers to the denser of both axes",
               "block and burst lengths are requested as geometric(1 / mean length), jump heights as poisson(mean height)"]
RANGES = [([-.1, .1], [-.1, .1]), ([0, .4], [-.2, -.1]), ([-.3, -.2], [0, 1.5]), ([1.25, 11.25], [-8., -3.]), ([-.2, -.1999985], [.1, .1000005]), ([-3e4, 5e4], [2e4, 9e4])]
RES = [[2, 2], [3, 7], [7, 3], [20, 4], [4, 20], [10, 10], [60, 2]]
RES1 = [1, 2, 5, 17]


def scenarios(tier):
    th = tier == "thorough"
    for r in range(len(RANGES)):
        for d in range(4):
            for kind in ("dot0", "dot1", "pot", "resp", "gauss", "fermi"):
                for res in RES + ([[50, 8], [8, 50], [30, 31]] if th else []):
                    yield dict(kind=kind, r=r, d=d, res=res, sh="2d")
                for sh in ("2dfix1", "2dfix2") if kind in ("pot", "resp") else ():
                    for res in RES:
                        yield dict(kind=kind, r=r, d=d, res=res, sh=sh)
                for sh in ("diag", "anti", "g1", "g2", "point"):
                    for n in RES1 + ([40] if th else []):
                        yield dict(kind=kind, r=r, d=d, res=n, sh=sh)


def run(sc, ctx):
    r1, r2 = RANGES[sc["r"]]
    two = sc["sh"].startswith("2d")
    if sc["sh"] == "2dfix1":
        r1 = [r1[0]] * 2
    elif sc["sh"] == "2dfix2":
        r2 = [r2[0]] * 2
    if sc["sh"] == "point":
        r1, r2 = [r1[0]] * 2, [r2[0]] * 2
    elif not two:
        r1, r2 = sweep1d(r1, r2, sc["sh"])
    r1, r2 = C.directions(r1, r2, sc["d"])
    res = sc["res"]
    n1, n2 = res if two else (res, res)
    w1, w2 = abs(r1[1] - r1[0]), abs(r2[1] - r2[0])
    d1, d2 = (n1 / w1 if w1 else None), (n2 / w2 if w2 else None)
    kind = sc["kind"]
    via = ctx.choose("via", ["direct"] + ([] if "fix" in sc["sh"] else ["sim"]) + (["scan"] if kind in ("pot", "resp") and "fix" not in sc["sh"] else []))
    # strengths relative to the width of the window, so that every size in pixels occurs
    unit = max(w1, w2) or 1.0
    strength = ctx.choose("strength", [.3, .05, 2.0, .001]) * unit
    sampled = ctx.choose("sampled", [False, True])
    reused = ctx.choose("reused", [False] if sampled or via != "direct" else [False, True])
    rng = ScriptedRNG(act=[1], geometric=[1, 2, 2000], poisson=[0, 1, 0], normal=[1.], uniform=[.25, .75])

    def par(x):
        return UniformSamplingRange((x * .75, x * 1.75), rng=rng) if sampled else x
    occ_d, pot_d, resp_d = [], [], []
    if kind.startswith("dot"):
        dist = OccupationDotJumps(scale=par(strength), lam=par(strength), axis=int(kind[3]), ratio=1, rng=rng)
        occ_d = [dist]
    elif kind in ("pot", "resp"):
        dist = (SensorPotentialRTN if kind == "pot" else SensorResponseRTN)(scale=par(strength), std=.01, height=.1, ratio=1, rng=rng)
        (pot_d if kind == "pot" else resp_d).append(dist)
    else:
        dist = (OccupationTransitionBlurringGaussian if kind == "gauss" else OccupationTransitionBlurringFermiDirac)(par(strength))
        occ_d = [dist]
    used = [strength * .75 + strength * u for u in (.25, .75)] if sampled else [strength, strength]
    step = [max(n1 - 1, 1) and w1 / max(n1 - 1, 1) or 1, w2 / max(n2 - 1, 1) or 1]
    csd = Lattice(r1, r2, *step) if kind not in ("gauss", "fermi") else Pattern()
    a1, a2, ra = np.array(r1), np.array(r2), (np.array(res) if two else res)
    ctx.op()
    if reused:      # the same object was used for a window of another size and resolution before
        q1, q2 = (np.array([r1[0], r1[0] + 3.3 * w1]), np.array([r2[0], r2[0] + .4 * w2]))
        qr = [res[0] + 3, res[1] + 1] if two else res + 2
        o, l = csd.get_csd_data(q1, q2, qr)
        if occ_d:
            dist.noise_function(o, l, q1, q2, csd.get_csd_data)
        else:
            dist.noise_function(np.zeros(l.shape), q1, q2)
        rng.log.clear()
    occ = lab = None
    if via == "direct":
        occ, lab = csd.get_csd_data(r1, r2, res)
        if occ_d:
            dist.noise_function(occ, lab, a1, a2, csd.get_csd_data)
        else:
            dist.noise_function(np.zeros(lab.shape), a1, a2)
    else:
        sim = Simulation(ideal_csd_config=csd, sensor=S.build(S.cfg("toy")), occupation_distortions=occ_d or None, sensor_potential_distortions=pot_d or None,
                         sensor_response_distortions=resp_d or None)
        if via == "sim":
            _, occ, lab, _ = sim.measure(a1, a2, resolution=ra)
        else:
            sim.measure_sensor_scan(a1, a2, 0., 0., ra)
    geo = [e for e in rng.log if e[0] == "geometric"]
    poi = [e for e in rng.log if e[0] == "poisson"]
    ctx.state(kind, via, geo, poi, occ if kind in ("gauss", "fermi") else 0)
    near = lambda a, b: abs(a - b) <= 1e-9 * abs(b)
    if kind.startswith("dot"):
        d = d1 if kind == "dot1" else d2
        if d is None:
            base = csd.get_csd_data(r1, r2, res)
            ctx.check(np.array_equal(occ, base[0]) and np.array_equal(lab, base[1]), "unswept", "dot jumps along a gate that is not swept changed the data")
            return
        want = 1 / max(used[0] * d, 1)
        ctx.check(geo and all(near(e[1], want) for e in geo), "block-length", lambda: f"block lengths requested as {geo[:2]}, expected p={want} ({used[0]} V, {d} px/V)")
        wl = used[1] * d
        ctx.check(poi and all(near(e[1], wl) for e in poi), "jump-height", lambda: f"jump heights requested as {poi[:2]}, expected {wl}")
    elif kind in ("pot", "resp"):
        if d1 is None and d2 is None:
            return
        ds = [min(d for d in (d1, d2) if d)] if not two else [max(d for d in (d1, d2) if d)]
        # with a sampled length every application draws a new one (three potentials)
        us = used if sampled else used[:1]
        ok = geo and all(any(near(e[1], 1 / max(u * d, 1)) for d in ds for u in us) for e in geo)
        ctx.check(ok and near(geo[0][1], min([1 / max(used[0] * d, 1) for d in ds], key=lambda p: abs(p - geo[0][1]))), "burst-length",
                  lambda: f"burst lengths requested as {geo[:3]}, expected p in {[1 / max(used[0] * d, 1) for d in ds]}")
    else:
        base, bl = csd.get_csd_data(r1, r2, res)
        ctx.check(np.array_equal(lab, bl), "labels", "labels changed by blurring")
        if d1 is None and d2 is None:
            ctx.check(np.array_equal(occ, base), "unswept", "blurring of a single point changed the data")
            return
        ds = [d1] if two else [max(d for d in (d1, d2) if d)]
        x = np.moveaxis(base, -1, 0)
        cands = [np.moveaxis(refs.blur(x, used[0] * d, kind), 0, -1) for d in ds]
        ctx.check(any(np.allclose(occ, c, atol=1e-9) for c in cands), "blur-width", lambda: f"blurred occupations do not have the width {used[0]} V with {ds} px/V; deviation {[np.abs(occ - c).max() for c in cands]}")
    ctx.sample = {"scenario": sc, "requests": [geo[:1], poi[:1]]}




class Pattern(IdealCSDInterface):
    """occupations without any symmetry, depending on the pixel only"""

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        shape = (resolution[1], resolution[0]) if np.ndim(resolution) else (int(resolution),)
        n = int(np.prod(shape))
        i = np.arange(n)
        o = np.stack([(i * 7919 % 13) / 3., (i * i * 31 % 17) / 5.], axis=-1).reshape(shape + (2,))
        return o, (i % 3).reshape(shape)
