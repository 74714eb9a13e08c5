"""C16: random telegraph noise; generator answers enumerated."""
import numpy as np
from simcats import Simulation
from simcats.distortions import (SensorPotentialDistortionInterface, SensorPotentialRTN, SensorResponseDistortionInterface, SensorResponseRTN)
from simcats.support_functions import UniformSamplingRange
from mc import configs as C, sensors as S
from mc.scripted import ScriptedRNG
from mc.stubs import Lattice
from mc.checks.c04 import sweep1d
PROPERTY = "C16"
BOUNDS = ("every answer of the generator (stretch lengths 1, 2, 3, 5 and longer than the image) for images of up to 8 (thorough: 11) pixels x shapes incl. single "
          "lines, columns and pixels x both stages x direct use, CSD and sensor scan (one independent sequence per potential), sequences of measurements, several "
          "signals; objects used for another window before; larger images with stretches around the limits of 8 and 16 bit integers; burst heights: distinct normal answers, sampled and fixed mean / spread incl. 0 and negative")
ASSUMPTIONS = ["burst heights are drawn in order, either for every stretch or for bursts only"]
W = ([-.3127, .1873], [-.2181, .4219])


def scenarios(tier):
    th = tier == "thorough"
    shapes = [[8], [1], [2], [5], [4, 2], [2, 4], [3, 2], [2, 3]] + ([[11], [5, 2], [2, 5], [3, 3]] if th else [])
    for stage in ("pot", "resp"):
        for sh in shapes:
            for par in ([.5, .1], [0., .1], [.5, 0.], [-.2, .3], "sampled"):
                yield dict(k="direct", stage=stage, shape=sh, par=par)
        for sh in ([5], [3, 2]):
            yield dict(k="direct", stage=stage, shape=sh, par=[.5, .1], alphabet=[1, 200, 257, 40000, 65537])
        yield dict(k="direct", stage=stage, shape=[300], par=[.5, .1], alphabet=[100, 130, 257, 1000])
        yield dict(k="direct", stage=stage, shape=[20, 30], par=[.5, .1], alphabet=[120, 200, 257, 1000])
        for via in ("csd", "scan"):
            for sens in ("generic", "scan"):
                if via == "scan" and sens == "generic":
                    continue
                for sh in ("2d", "diag", "g1", "g2"):
                    for d in (0, 3):
                        yield dict(k="sim", stage=stage, via=via, sens=sens, sh=sh, d=d)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def lengths(ctx, n, alphabet=(1, 2, 3, 5, 99), tag=""):
    ls, c = [], 0
    while c < n:
        ls.append(ctx.choose(f"{tag}len{len(ls)}", alphabet))
        c += ls[-1]
    return ls


# geometric draws of one application: one per pixel (drawn at once) or as many as needed: the script has one entry per pixel
def pad(ls, n):
    return ls + [1] * (n - len(ls))


Z = [.3, -1.1, .7, 2.05, -.45, 1.6, .05, -2.3, .9, -.8, 1.2, .55]


def offsets(ls, n, heights):
    """accepted offsets: heights per stretch or per burst"""
    out = []
    for per in (lambda i: heights[i], lambda i: heights[i // 2]):
        o = []
        for i, l in enumerate(ls):
            o += [per(i) if i % 2 else 0.] * min(l, n)
        out.append(np.array(o[:n]))
    return out


def _direct(sc, ctx):
    shape = sc["shape"]
    n = int(np.prod(shape))
    npix = n
    ls = lengths(ctx, n, sc.get("alphabet", (1, 2, 3, 5, 99)))
    if sc["par"] == "sampled":
        us = [.25, .5, .75]
        # three samplers with their own generators
        mk = lambda lo, hi, u: UniformSamplingRange((lo, hi), rng=ScriptedRNG(uniform=[u]))
        scale, std, height = mk(.1, .3, .25), mk(.2, .4, .5), mk(-1., 1., .75)
        h, s = .5, .3
    else:
        h, s = sc["par"]
        scale, std, height = .2, s, h
    rng = ScriptedRNG(act=[1], geometric=pad(ls, npix) + [1], normal=Z)
    d = (SensorPotentialRTN if sc["stage"] == "pot" else SensorResponseRTN)(scale=scale, std=std, height=height, ratio=1, rng=rng)
    sig = ctx.choose("signal", ["zero", "ramp", "int"])
    x = np.zeros(shape) if sig == "zero" else (np.arange(n).reshape(shape) * (.37 if sig == "ramp" else 1)) ** 2
    if sig == "int":
        x = x.astype(int)
    keep = x.copy()
    r1, r2 = ([-.3, .2], [-.2, .4]) if len(shape) == 2 else sweep1d([-.3, .2], [-.2, .4], ctx.choose("sweep", ["diag", "anti", "g1", "g2"]))
    a1, a2 = np.array(r1), np.array(r2)
    if sig == "ramp":       # used for another window and resolution before
        d.rng = ScriptedRNG(act=[1], geometric=[2, 1, 3, 1, 2] + [1] * 9, normal=Z[::-1])
        d.noise_function(np.ones((3, 4)), a1 * 2 + .1, a2 * .3)
        d.rng = rng
    ctx.op()
    y = d.noise_function(x, a1, a2)
    ctx.check(np.array_equal(x, keep), "input-modified", "the input was modified")
    ctx.check(np.array_equal(a1, r1) and np.array_equal(a2, r2), "ranges-modified", "ranges modified")
    ctx.check(np.shape(y) == tuple(shape), "shape", f"{np.shape(y)}")
    off = (y - keep).ravel()
    ctx.state(off)
    hs = [h + s * z for z in Z]
    ctx.check(any(np.allclose(off, o, atol=1e-12) for o in offsets(ls, n, hs)), "offset", lambda: f"stretches {ls}, heights {hs[:6]}: added offset {off.tolist()}")


def _sim(sc, ctx):
    two = sc["sh"] == "2d"
    w = ([-.9537, .1531], [-.8519, .2071]) if sc["via"] == "scan" else W
    r1, r2 = C.directions(*(w if two else sweep1d(*w, sc["sh"])), sc["d"])
    res = np.array([3, 2]) if two else 5
    n = 6 if two else 5
    ctx.bound = 3 if ctx.tier == "quick" else 6
    napp = 3 if sc["stage"] == "pot" and sc["sens"] == "scan" else 1
    reps = 2
    apps = []
    geo = []
    for m in range(reps):
        for q in range(napp):
            # the alphabet starts with the whole image (nothing happens)
            ls = lengths(ctx, n, (99, 1, 2, 3), f"m{m}q{q}")
            apps.append(ls)
            geo += pad(ls, n)
    hz = [Z[i % len(Z)] + i * .01 for i in range(200)]
    rng = ScriptedRNG(act=[1], geometric=geo + [1], normal=hz)
    d = (SensorPotentialRTN if sc["stage"] == "pot" else SensorResponseRTN)(scale=.2, std=.1, height=.5, ratio=1, rng=rng)
    sens = S.build(S.cfg("toy_rise")) if sc["sens"] == "scan" else S.build_generic(S.GENERIC["none"] if sc["stage"] == "pot" else S.GENERIC["gauss"])
    lat = Lattice(*W, .1, .1)
    vs = (-.45, -.35) if sc["sens"] == "scan" else (None, None)
    mk = lambda ds: Simulation(ideal_csd_config=lat, sensor=sens, **{"sensor_potential_distortions" if sc["stage"] == "pot" else "sensor_response_distortions": ds})
    tap = TapPot if sc["stage"] == "pot" else TapResp
    before, after = [], []
    sim = mk([tap(before), d, tap(after)])
    for m in range(reps):
        ctx.op()
        if sc["via"] == "csd":
            out = sim.measure(np.array(r1), np.array(r2), *vs, res)
        else:
            out = sim.measure_sensor_scan(np.array(r1), np.array(r2), -.1, .1, res)
    before[:], after[:] = TAP[id(before)], TAP[id(after)]
    TAP.clear()
    ctx.check(len(before) == len(after) == len(apps), "applications", f"{len(before)} {len(after)}")
    # heights are consumed one after the other over all applications: one per stretch that begins inside the image, or one per burst
    pos = [0, 0]
    for q, ls in enumerate(apps):
        off = (after[q] - before[q]).ravel()
        ok = False
        for alt in (0, 1):
            hs = [.5 + .1 * z for z in hz[pos[alt]:pos[alt] + 20]]
            ok |= bool(np.allclose(off, offsets(ls, n, hs)[alt], atol=1e-9))
        ctx.check(ok, "sim-offset", lambda: f"application {q} ({sc}): stretches {ls}: offset {off.tolist()}")
        pos[0] += len(ls)
        pos[1] += len(ls) // 2
        ctx.state(off)


TAP = {}


class TapPot(SensorPotentialDistortionInterface):
    """records the signal passing by"""

    def __init__(self, log):
        self.key = id(log)

    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        TAP.setdefault(self.key, []).append(np.array(mu_sens))
        return mu_sens


class TapResp(SensorResponseDistortionInterface):
    def __init__(self, log):
        self.key = id(log)

    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        TAP.setdefault(self.key, []).append(np.array(sensor_response))
        return sensor_response
