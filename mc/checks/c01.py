"""C01: exchanging start and stop of a sweep reverses the arrays along the axis of that gate, nothing else."""
import itertools
import numpy as np
from simcats import Simulation, default_configs
from mc import configs as C, refs, sensors as S
from mc.checks.c04 import sweep1d
PROPERTY = "C01"
BOUNDS = ("measurement kinds (CSD with generic sensor / with scan sensor with and without sensor voltages / sensor scan) x sensors x "
          "peak deformations x structures x windows x square and non-square pixel grids x all direction combinations of 2D scans "
          "and 1D sweeps (diagonal, opposite, single gate), every pixel of signal, occupations and both label masks")
ASSUMPTIONS = ["floating point voltages of a reversed sweep may differ in the last bits: signals are compared to 1e-9"]
WIN = {"gaas": [((2, 0), (1, 1)), ((3, 1), (2, .3)), ((2, 0, "left"), (1, .05))], "toy": [((3, 1), (.5, .6)), ((4, 2, "line"), (.3, .3))],
       "toy_nc": [((3, 1), (.5, .5))], "toy_zero": [((3, 0, "mid"), (.4, .4))]}
SWIN = [([-.9537, .1531], [-.8519, .2071]), ([-.5093, .1137], [-.6171, .0531]), ([-.7213, -.5987], [-.4517, -.3011]), ([-.3111, .2017], [-.3047, .1823])]


def scenarios(tier):
    th = tier == "thorough"
    res2 = [[9, 7], [4, 12], [6, 6]] + ([[25, 2], [2, 25], [31, 17]] if th else [])
    res1 = [2, 9] + ([30] if th else [])
    for s, ws in WIN.items():
        sens = [("g", k) for k in S.GENERIC] + [("s", "toy", None), ("s", "toy_rise", "mixed"), ("s", "default", None)]
        for w, sn in itertools.product(ws, sens):
            for vs in ([None] if sn[0] == "g" else [None, [-.45, -.35], [-.1, -.05]]):
                for r in res2:
                    yield dict(k="csd", s=s, w=w, sn=sn, vs=vs, res=r)
                for r in res1:
                    for sh in ("diag", "anti", "g1", "g2"):
                        yield dict(k="csd", s=s, w=w, sn=sn, vs=vs, res=r, sh=sh)
    for n in S.SCAN:
        for df in (None, *S.DEFORM) if n not in ("toy_nopeak", "toy_vert") else (None,):    # (toy_vert: potential constant along g1, equally close pixels)
            for w in SWIN:
                for vp in ([-.1, -.1], None):
                    for r in res2:
                        yield dict(k="scan", sn=["s", n, df], w=w, vp=vp, res=r)
                    for r in res1:
                        for sh in ("diag", "anti", "g1", "g2"):
                            yield dict(k="scan", sn=["s", n, df], w=w, vp=vp, res=r, sh=sh)
    for r in ([270, 3], [3, 270], [130, 2]):
        for sn in (("g", "gauss"), ("s", "toy_rise", "mixed")):
            yield dict(k="csd", s="gaas", w=WIN["gaas"][1], sn=sn, vs=None, res=r)
            yield dict(k="csd", s="toy_zero", w=((3, 0, "mid"), (.4, .4)), sn=sn, vs=None, res=r)
        for n in ("toy_rise", "toy_unsorted", "default"):
            yield dict(k="scan", sn=["s", n, None], w=SWIN[0], vp=None, res=r)
    for n, sh in itertools.product((270, 2), ("diag", "anti", "g1", "g2")):
        yield dict(k="csd", s="toy_zero", w=((3, 0, "mid"), (.4, .4)), sn=("g", "gauss"), vs=None, res=n, sh=sh)
        yield dict(k="scan", sn=["s", "toy_rise", "mixed"], w=SWIN[0], vp=[-.1, -.1], res=n, sh=sh)
    for r in res2:
        yield dict(k="default", name="GaAs_v1", res=r)
        yield dict(k="default", name="GaAs_v2_extended_sensor", res=r)


def make(sn):
    return S.build_generic(S.GENERIC[sn[1]]) if sn[0] == "g" else S.build(S.cfg(sn[1], sn[2]))


def flip(a, d, two):
    if not two:
        return a[::-1] if d else a
    if d & 1:
        a = a[:, ::-1]
    if d & 2:
        a = a[::-1]
    return a


def run(sc, ctx):
    if sc["k"] == "csd":
        r1, r2 = C.window(sc["s"], *sc["w"])
        sim = Simulation(ideal_csd_config=C.structure(sc["s"]), sensor=make(sc["sn"]))
    elif sc["k"] == "scan":
        r1, r2 = sc["w"]
        sim = Simulation(ideal_csd_config=C.structure("gaas"), sensor=make(sc["sn"]))
    else:
        cfg = default_configs[sc["name"]]
        sim = Simulation(**{k: v for k, v in cfg.items() if "distortions" not in k})
        r1, r2 = [-.2, -.13], [-.19, -.11]
    two = np.ndim(sc["res"]) > 0
    if "sh" in sc:
        r1, r2 = sweep1d(r1, r2, sc["sh"])
    res = np.array(sc["res"]) if two else sc["res"]

    def meas(d):
        a, b = C.directions(r1, r2, d)
        ctx.op()
        if sc["k"] == "scan":
            vp = sc["vp"] or (None, None)
            return sim.measure_sensor_scan(np.array(a), np.array(b), vp[0], vp[1], res)[:3]
        vs = sc.get("vs") or (None, None)
        return sim.measure(np.array(a), np.array(b), vs[0], vs[1], res)[:3]
    base = meas(0)
    ctx.state(sc["k"], *base)
    names = ("signal", "conduction", "peaks") if sc["k"] == "scan" else ("signal", "occupations", "labels")
    if sc["k"] == "csd" and sc["sn"][0] == "g":
        # index 0 belongs to the first voltage of the range: the gate voltages enter the signal
        mu, want = S.generic_ref(S.GENERIC[sc["sn"][1]], refs.grid(r1, r2, sc["res"]), base[1])
        ctx.check(base[0].shape == want.shape and np.allclose(base[0], want, rtol=1e-9, atol=1e-9), "index0",
                  lambda: "signal does not follow the voltages of the supplied range")
    for d in ((1, 2, 3) if two else (3,)):
        got = meas(d)
        for n, x, y in zip(names, base, got):
            y = flip(np.asarray(y), d, two)
            ok = x.shape == y.shape and (np.allclose(x, y, rtol=1e-9, atol=1e-11) if n in ("signal", "occupations") else np.array_equal(x, y))
            ctx.check(ok, f"reversed-{n}", lambda: f"direction {d}: {n} of the reversed sweep is not the reversed {n} "
                      f"({int((~np.isclose(x, y, rtol=1e-9, atol=1e-11)).sum()) if x.shape == y.shape else (x.shape, y.shape)} entries differ)")
    ctx.sample = {"scenario": sc}
