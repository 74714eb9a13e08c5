"""C17: white and pink noise; the generator's answers are basis vectors, which decides linear noise completely."""
import math
import numpy as np
from simcats import Simulation
from simcats.distortions import (SensorPotentialDistortionInterface, SensorPotentialPinkNoise, SensorResponseDistortionInterface, SensorResponseWhiteNoise)
from simcats.support_functions import UniformSamplingRange
from mc import configs as C, sensors as S
from mc.scripted import ScriptedRNG
from mc.stubs import Lattice
from mc.checks.c04 import sweep1d
PROPERTY = "C17"
BOUNDS = ("all unit vectors of generator answers (noise is linear in them) plus dense answers, for images of 1 to 16, 64, 99 and 200 (thorough: up to 512) pixels in all 1D / 2D arrangements and three large images x "
          "strengths incl. 0 x minimum frequencies 0 to 0.5 x signals; sequences of up to 3 measurements with fixed, changed and sampled strengths; simulations of CSDs "
          "and sensor scans with taps before and behind the noise")
ASSUMPTIONS = ["1/f: the spectral amplitude of the noise for independent normal components is proportional to f^(-1/2) from the minimum frequency (at least 1/pixels) on "
               "and constant below, normalised to unit standard deviation (of the part without mean)"]


def scenarios(tier):
    th = tier == "thorough"
    for n in list(range(1, 17)) + ([23, 24, 31] if th else []):
        for s in (0, 1., .3, 7.):
            yield dict(k="white", n=n, s=s)
            for f in (0, .1, .25, .3, .5):
                yield dict(k="pink", n=n, s=s, f=f)
    for n in (64, 99, 200) + ((509, 512) if th else ()):
        yield dict(k="white", n=n, s=.3)
        for f in (0, .1):
            yield dict(k="pink", n=n, s=1., f=f)
    for shape in ([300, 7], [7, 300], [66000]):
        yield dict(k="big", shape=shape)
    for kind in ("white", "pink"):
        for mode in ("fixed", "sampled", "set"):
            yield dict(k="hist", kind=kind, mode=mode)
        for via in ("csd", "scan"):
            for sens in ("generic", "scan"):
                if via == "scan" and sens == "generic":
                    continue
                for sh in ("2d", "diag", "g1", "g2", "point"):
                    yield dict(k="sim", kind=kind, via=via, sens=sens, sh=sh)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


R = (np.array([-.3, .2]), np.array([-.2, .4]))


def shapes(n):
    return [(n,)] + [(n // k, k) for k in range(1, n + 1) if n % k == 0 and k > 1 and n // k > 1]


def add(ctx, cls, x, s, z, **kw):
    rng = ScriptedRNG(normal=z)
    d = cls(s, rng=rng, **kw)
    keep = x.copy()
    ctx.op()
    y = d.noise_function(x, R[0].copy(), R[1].copy())
    ctx.check(np.array_equal(x, keep), "input-modified", "input modified")
    ctx.check(np.shape(y) == x.shape, "shape", f"{np.shape(y)} != {x.shape}")
    ctx.check(d.latest_sigma == s, "reported", f"reported {d.latest_sigma}, used {s}")
    return y - keep, rng


def _white(sc, ctx):
    n, s = sc["n"], sc["s"]
    dense = [math.sin(3 * i + 1) for i in range(n)]
    for shape in shapes(n):
        base = (np.arange(n) * .7 - 3).reshape(shape)
        for k, z in enumerate([dense] + [[float(i == k) for i in range(n)] for k in range(n)]):
            for x in (base, np.zeros(shape), np.arange(n).reshape(shape)):
                off, rng = add(ctx, SensorResponseWhiteNoise, x, s, z + [99.])
                ctx.check(np.allclose(off.ravel(), s * np.array(z), atol=1e-9), "white", lambda: f"answers {z}, strength {s}, shape {shape}: offset {off.ravel()}")
                ctx.check(rng.used("normal") in ((n, 0) if s == 0 else (n,)), "draws", lambda: f"{rng.used('normal')} draws for {n} pixels")
                ctx.state(off)


def _pink(sc, ctx):
    n, s, f = sc["n"], sc["s"], sc["f"]
    m = n // 2 + 1
    nz = 1 if n == 1 else 2 * m
    fr = np.fft.rfftfreq(n) if n > 1 else np.array([0.])
    fmin = max(f, 1 / n)
    total = np.zeros(len(fr))           # expected power per frequency: sum over all unit vectors
    resp = []
    for k in range(nz):
        z = [float(i == k) for i in range(nz)] + [0.]
        ref = None
        for shape in shapes(n):
            for x in (np.zeros(shape), (np.arange(n) * .7 - 3.).reshape(shape)):
                off, rng = add(ctx, SensorPotentialPinkNoise, x, s, z, fmin=f)
                ctx.check(rng.used("normal") in ((nz, 0) if s == 0 else (nz,)), "draws", lambda: f"{rng.used('normal')} draws for {n} pixels")
                if ref is None:
                    ref = off.ravel()
                ctx.check(np.allclose(off.ravel(), ref, atol=1e-9), "shape-dependence", lambda: f"noise of {n} pixels depends on shape {shape} or signal")
        ctx.state(ref)
        resp.append(ref)
        total += np.abs(np.fft.rfft(ref)) ** 2
    # linearity: dense answers are the sum of the unit responses
    dense = [math.sin(3 * i + 1) for i in range(nz)]
    off, _ = add(ctx, SensorPotentialPinkNoise, np.zeros(n), s, dense, fmin=f)
    ctx.check(np.allclose(off, sum(a * r for a, r in zip(dense, resp)), atol=1e-9), "linear", "noise is not linear in the drawn values")
    if n == 1:
        ctx.check(np.allclose(resp[0], s), "single", f"{resp}")
        return
    # spectrum: |S(f)|^2 = c / max(f, fmin'), half the weight for the real components is made up by factor sqrt(2)
    cut = fr[np.argmax(fr >= fmin - 1e-15)] if (fr >= fmin).any() else None
    if s == 0:
        ctx.check(total.max() == 0, "zero", "strength zero adds noise")
        return
    eff = np.maximum(fr, fr[-1] if cut is None else cut)     # an odd number of pixels has no frequency of 0.5: white noise
    c = (total * eff)[1:]
    ctx.check(np.allclose(c, c[0], rtol=1e-6), "spectrum", lambda: f"{n} pixels, fmin {f}: power times frequency is not constant: {c}")
    ctx.check(np.allclose(total[0] * eff[0], c[0], rtol=1e-6), "spectrum-low", lambda: f"power below the minimum frequency is not flat: {total}")
    # standard deviation over all frequencies but zero
    w = total[1:] * 2
    if n % 2 == 0:
        w[-1] /= 2
    std = math.sqrt(w.sum()) / n
    ctx.check(n < 4 or abs(std / s - 1) < (.35 if n < 8 else .2), "strength", lambda: f"{n} pixels, fmin {f}: standard deviation {std} for strength {s}")


def _big(sc, ctx):
    """large images: dense answers; white noise pixel by pixel, pink noise equal to the one of a line"""
    shape = tuple(sc["shape"])
    n = int(np.prod(shape))
    z = [math.sin(3 * i + 1) for i in range(n + 2)]
    off, rng = add(ctx, SensorResponseWhiteNoise, np.zeros(shape), .3, z)
    ctx.check(np.allclose(off.ravel(), .3 * np.array(z[:n]), atol=1e-9), "white", f"white noise of {shape} is not one draw per pixel")
    ctx.state(off)
    off, rng = add(ctx, SensorPotentialPinkNoise, np.zeros(shape), 1., z, fmin=0)
    ref, _ = add(ctx, SensorPotentialPinkNoise, np.zeros(n), 1., z, fmin=0)
    ctx.check(np.allclose(off.ravel(), ref, atol=1e-9) and np.abs(ref).max() > 0, "shape-dependence", f"pink noise depends on shape {shape}")
    # a change of one draw changes one frequency only
    z2 = list(z)
    z2[17] += 1
    alt, _ = add(ctx, SensorPotentialPinkNoise, np.zeros(n), 1., z2, fmin=0)
    spec = np.abs(np.fft.rfft(alt - ref))
    ctx.check((spec > spec.max() * 1e-9).sum() == 1, "spectrum", "one draw contributes to several frequencies")
    ctx.state(off)


def make(kind, sigma, rng, **kw):
    return (SensorResponseWhiteNoise if kind == "white" else SensorPotentialPinkNoise)(sigma, rng=rng, **kw)


def _hist(sc, ctx):
    """several measurements: one strength each, which is the reported one"""
    us = [ctx.choose(f"u{i}", [.25, 0., .75]) for i in range(3)]
    srng = ScriptedRNG(uniform=us)
    mode = sc["mode"]
    z = [math.sin(3 * i + 1) for i in range(64)]
    rng = ScriptedRNG(normal=z)
    d = make(sc["kind"], UniformSamplingRange((.0, 2.), rng=srng) if mode == "sampled" else .5, rng)
    ctx.check(d.latest_sigma is None, "initial", f"{d.latest_sigma}")
    pos = 0
    for i in range(3):
        shape = [(5,), (4, 2), (3,)][ctx.choose(f"shape{i}", range(3))]
        if mode == "set" and i:
            d.sigma = us[i] * 2
        s = us[i] * 2 if mode == "sampled" else d.sigma
        x = np.arange(np.prod(shape), dtype=float).reshape(shape)
        ctx.op()
        off = d.noise_function(x, R[0], R[1]) - x
        ctx.check(d.latest_sigma == s, "reported", lambda: f"measurement {i}: reported {d.latest_sigma}, used {s}")
        # the same noise with strength one from the same position of the stream
        r1 = ScriptedRNG(normal=z[pos:])
        want = make(sc["kind"], 1., r1).noise_function(np.zeros(shape), R[0], R[1])
        used = r1.used("normal")
        pos = rng.used("normal") if s == 0 else pos + used
        ctx.check(s == 0 or rng.used("normal") == pos, "draws", f"{rng.used('normal')} draws, expected {pos}")
        ctx.check(np.allclose(off, s * want, atol=1e-9), "scaled", lambda: f"measurement {i}: noise is not {s} times the unit noise: {off} {want}")
        if mode == "sampled":
            ctx.check(srng.used("uniform") == i + 1, "strength-draws", f"{srng.used('uniform')} strengths drawn for {i + 1} measurements")
        ctx.state(off)


TAP = {}


class TapPot(SensorPotentialDistortionInterface):
    def __init__(self, key):
        self.key = key

    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        TAP.setdefault(self.key, []).append(np.array(mu_sens))
        return mu_sens


class TapResp(SensorResponseDistortionInterface):
    def __init__(self, key):
        self.key = key

    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        TAP.setdefault(self.key, []).append(np.array(sensor_response))
        return sensor_response


def _sim(sc, ctx):
    TAP.clear()
    white = sc["kind"] == "white"
    d = ctx.choose("direction", (0, 1, 2, 3))
    s = ctx.choose("strength", [.2, 0, 3.])
    w = ([-.9537, .1531], [-.8519, .2071])
    r1, r2 = C.directions(*(w if sc["sh"] == "2d" else ([w[0][0]] * 2, [w[1][0]] * 2) if sc["sh"] == "point" else sweep1d(*w, sc["sh"])), d)
    res = np.array([3, 4]) if sc["sh"] == "2d" else 1 if sc["sh"] == "point" else 5
    z = [math.sin(3 * i + 1) for i in range(200)]
    rng = ScriptedRNG(normal=z)
    tap = TapResp if white else TapPot
    dist = make(sc["kind"], s, rng)
    lat = Lattice(*w, .1, .1)
    sens = S.build(S.cfg("toy_rise")) if sc["sens"] == "scan" else S.build_generic(S.GENERIC["gauss"])
    sim = Simulation(ideal_csd_config=lat, sensor=sens, **{"sensor_response_distortions" if white else "sensor_potential_distortions": [tap("a"), dist, tap("b")]})
    for rep in range(2):
        ctx.op()
        if sc["via"] == "csd":
            out = sim.measure(np.array(r1), np.array(r2), *((-.45, -.35) if sc["sens"] == "scan" else (None, None)), res)
        else:
            out = sim.measure_sensor_scan(np.array(r1), np.array(r2), -.1, .1, res)
        live = (sim.sensor_response_distortions if white else sim.sensor_potential_distortions)[1]
        ctx.check(live.latest_sigma == s, "reported", f"{live.latest_sigma}")
    a, b = TAP["a"], TAP["b"]
    ctx.check(len(a) == len(b) == 2 * (1 if white or sc["sens"] == "generic" else 3), "applications", f"{len(a)} {len(b)}")
    r2 = ScriptedRNG(normal=z)
    unit = make(sc["kind"], 1., r2)
    for x, y in zip(a, b):
        want = unit.noise_function(np.zeros(x.shape), R[0], R[1])
        ctx.check(x.shape == y.shape and np.allclose(y - x, s * want, atol=1e-9), "sim-noise", lambda: f"{sc}: noise in the simulation is not the scaled unit noise")
        ctx.state(y - x)
