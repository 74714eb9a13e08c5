"""C18: parameter samplers under every sequence of generator answers."""
import math, warnings
import numpy as np
from simcats import Simulation
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise,
                                 SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise)
from simcats.support_functions import ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange
from mc import configs as C, sensors as S
from mc.engine import Prune
from mc.scripted import ScriptedRNG
from mc.stubs import Lattice
PROPERTY = "C18"
BOUNDS = ("the four samplers x total ranges (positive, around zero, reversed for the exponential one, of width zero) x widths of the sub-range (none, narrow, equal, "
          "larger) x distribution parameters x all generator answers (position of the sub-range: 0, 1/2, almost 1; draws far below, just below, at, just above the lower "
          "border, inside, just below, at, just above and far above the upper border, up to 3 rejections) over sequences of 3 samples; every distortion with sampled "
          "strengths over 2 measurements")
ASSUMPTIONS = ["borders belong to the range; values within rounding (1e-12 of the width) of a border may be rejected or accepted"]
KINDS = ("normal", "uniform", "lognormal", "exp")
RANGES = [(1., 3.), (-2., 5.), (.002, .0031), (0., 1.), (2., 2.), (-3, -1)]


def scenarios(tier):
    for kind in KINDS:
        for ri, r in enumerate(RANGES):
            if kind == "lognormal" and r[1] <= 0:
                continue
            if kind == "exp" and r[0] == r[1]:
                continue
            for rev in (False, True) if kind == "exp" else (False,):
                for sr in (None, .25, .01, 1., 2.) if r[0] != r[1] else (None, 1.):
                    for par in range(3):
                        yield dict(k="seq", kind=kind, r=list(r[::-1] if rev else r), sr=sr, par=par)
    for d in ("dot", "gauss", "fermi", "pot", "resp", "white", "pink"):
        for via in ("direct", "csd", "scan"):
            if via == "scan" and d in ("dot", "gauss", "fermi"):
                continue
            yield dict(k="use", d=d, via=via)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def _seq(sc, ctx):
    kind, r = sc["kind"], tuple(sc["r"])
    lo, hi = min(r), max(r)
    w = hi - lo
    width = None if sc["sr"] is None else sc["sr"] * (w or 1.)
    narrowed = width is not None and width < w
    u0 = ctx.choose("position", [.5, 0., 1 - 2 ** -53, .25] if narrowed else [.5])
    a, b = (lo, hi) if not narrowed else (lo + u0 * (w - width), lo + u0 * (w - width) + width)
    eps = 1e-9 * (w or 1.)
    inside = [a + .3 * (b - a), a + eps, b - eps, (a + b) / 2, b - .1 * (b - a)] if b > a else [a]
    outside = [b + eps, a - eps, b + 5 * (w or 1), a - 5 * (w or 1)] if kind != "uniform" and b > a else []
    desc = r[0] > r[1]
    # distribution parameters: every distribution value x corresponds to one unit answer
    mean, std = [(None, .7), (lo - .5, .2), (0, 1)][sc["par"]]
    m = (a + b) / 2 if mean is None else mean
    lm, ls = [(0., 1.), (.5, .25), (-1, .4)][sc["par"]]
    scale = [.21715, 3., .05][sc["par"]]

    def unit(x):
        if kind == "normal":
            return (x - m) / std
        if kind == "uniform":
            return (x - a) / (b - a) if b > a else .5
        if kind == "lognormal":
            return (math.log(x) - lm) / ls if x > 0 else None
        s0, s1 = (b, a) if desc else (a, b)
        e = (x - s0) / (s1 - s0) / scale
        return e if e >= 0 else None
    ins = [x for x in inside if unit(x) is not None]
    outs = [x for x in outside if unit(x) is not None]
    if not ins:          # no value of the distribution lies in the (narrowed) range
        raise Prune()
    ns = 2 if ctx.tier == "quick" else 3
    seq, draws = [], []
    for i in range(ns):
        rej = 0
        while outs and rej < (2 - i if ctx.tier == "quick" else 3 - i):
            o = ctx.choose(f"reject{i}.{rej}", [None] + outs)
            if o is None:
                break
            draws.append(unit(o))
            rej += 1
        x = ctx.choose(f"accept{i}", ins)
        draws.append(unit(x))
        seq.append((x, len(draws)))
    name = {"normal": "normal", "uniform": "uniform", "lognormal": "normal", "exp": "exponential"}[kind]
    inner = unit(ins[0])
    streams = {name: draws + [inner]}
    if narrowed:
        streams["uniform"] = [u0] + streams.get("uniform", [])
    rng = ScriptedRNG(**streams)
    kw = dict(sampling_range=width, rng=rng)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        s = (NormalSamplingRange(r, std, mean, **kw) if kind == "normal" else UniformSamplingRange(r, **kw) if kind == "uniform" else
             LogNormalSamplingRange(r, mean=lm, sigma=ls, **kw) if kind == "lognormal" else ExponentialSamplingRange(r, scale, **kw))
    ctx.check(bool(wl) == (width is not None and not narrowed), "warning", lambda: f"warnings {[str(x.message) for x in wl]} for width {width} in {r}")
    ctx.check(s.last_sample() is None, "initial", f"{s.last_sample()} before the first sample")
    base = 1 if narrowed else 0
    pos0 = rng.used(name) - (base if name == "uniform" else 0)
    ctx.check(rng.used("uniform") >= base and pos0 == 0, "construction-draws", lambda: f"draws at construction: {rng.log}")
    rounding = 1e-12 * max(abs(lo), abs(hi), 1e-3)
    for x, n in seq:
        ctx.op()
        v = s.sample_parameter()
        used = rng.used(name) - (base if name == "uniform" else 0)
        ctx.check(a - rounding <= v <= b + rounding, "outside", lambda: f"sampled {v} outside of [{a}, {b}]")
        ctx.check(abs(v - x) <= 1e-9 * max(abs(x), w, 1e-3) * 1.01 and used == n, "first-in-range", lambda: f"sampled {v} after {used} draws, expected {x} after {n}; draws {draws}, range [{a}, {b}]")
        for _ in range(2):
            ctx.check(s.last_sample() == v, "last-sample", f"last_sample {s.last_sample()} != {v}")
        ctx.state(kind, v)


def sampler(us):
    return UniformSamplingRange((.1, .3), rng=ScriptedRNG(uniform=us))


def _use(sc, ctx):
    """every measurement draws exactly one new value of every sampled strength"""
    k = sc["d"]
    us = [.25, .75, .5, .125, .875, .0]
    p = [sampler(us) for _ in range({"dot": 2, "pot": 3, "resp": 3}.get(k, 1))]
    rng = ScriptedRNG(act=[1], geometric=[2], poisson=[1], normal=[.5, -1., 2.])
    act = ctx.choose("ratio", [1, 0]) if k in ("dot", "pot", "resp") else 1
    axis = ctx.choose("axis", [0, 1]) if k == "dot" else 0
    d = {"dot": lambda: OccupationDotJumps(p[0], p[1], axis, act, rng), "gauss": lambda: OccupationTransitionBlurringGaussian(p[0]),
         "fermi": lambda: OccupationTransitionBlurringFermiDirac(p[0]), "pot": lambda: SensorPotentialRTN(*p, act, rng),
         "resp": lambda: SensorResponseRTN(*p, act, rng), "white": lambda: SensorResponseWhiteNoise(p[0], rng),
         "pink": lambda: SensorPotentialPinkNoise(p[0], 0, rng)}[k]()
    two = ctx.choose("two", [True, False])
    r1, r2 = np.array([-.3127, .1873]), np.array([-.2181, .4219])
    res = np.array([4, 3]) if two else 5
    lat = Lattice(r1, r2, .1, .1)
    names = {"dot": ["scale", "lam"], "pot": ["scale", "std", "height"], "resp": ["scale", "std", "height"]}.get(k, ["sigma"])
    sens = S.build(S.cfg("toy")) if sc["via"] == "scan" else S.build_generic(S.GENERIC["gauss"])
    if sc["via"] != "direct":
        kw = {"occupation_distortions" if k in ("dot", "gauss", "fermi") else "sensor_potential_distortions" if k in ("pot", "pink") else
              "sensor_response_distortions": [d]}
        sim = Simulation(ideal_csd_config=lat, sensor=sens, **kw)
        d = list(getattr(sim, list(kw)[0]))[0]
    napp = 3 if sc["via"] == "scan" and k in ("pot", "pink") else 1
    for m in range(2):
        if sc["via"] == "direct":
            o, l = lat.get_csd_data(r1, r2, res)
            if k in ("dot", "gauss", "fermi"):
                d.noise_function(o, l, r1, r2, lat.get_csd_data)
            else:
                d.noise_function(o[..., 0], r1, r2)
        elif sc["via"] == "csd":
            sim.measure(r1, r2, resolution=res)
        else:
            sim.measure_sensor_scan(r1, r2, 0., 0., res)
        ctx.op()
        live = list(getattr(sim, list(kw)[0]))[0] if sc["via"] != "direct" else d
        n = napp * (m + 1)
        for name in names:
            s = getattr(live, name)
            if not act:
                ctx.check(s.last_sample() is None, "inactive-sampled", f"{k}.{name} sampled although inactive")
                continue
            ctx.check(abs(s.last_sample() - (.1 + .2 * us[n - 1])) < 1e-12, "one-draw", lambda: f"{k}.{name} after {m + 1} measurements: last sample {s.last_sample()}, expected the {n}-th draw")
        if hasattr(live, "latest_sigma"):
            ctx.check(live.latest_sigma == live.sigma.last_sample(), "reported", f"{live.latest_sigma} {live.sigma.last_sample()}")
        ctx.state(k, m)
