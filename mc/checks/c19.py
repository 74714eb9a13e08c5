"""C19: results are a function of the request history of a simulation; all interleavings of two simulations built from the same objects."""
import copy
import numpy as np
from simcats import Simulation
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise,
                                 SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise)
from simcats.support_functions import ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange
from mc import configs as C, sensors as S
from mc.stubs import pub
from mc.support import words
PROPERTY = "C19"
BOUNDS = ("all histories up to depth 3, one of 23 operations (thorough: one in which all pairs of operations follow each other), with a generator shared by all distortions 4 (thorough: 5) over two simulations built from the same distortion objects: CSD 2D / CSD 1D / sensor scan on either, replacing "
          "the second by a copy of the first, handing the distortions over again x distortion sets (every kind alone, every kind of sampler, one generator shared by "
          "several distortions, several per stage) x one seed (thorough: two); all results compared with those of a lone simulation with the same request history, and the objects of the "
          "caller and numpy's global generator compared before and after")
ASSUMPTIONS = ["real generators with fixed seeds (this property quantifies over histories, C12-C18 over generator answers)"]


def sets():
    g = np.random.default_rng
    U = UniformSamplingRange
    return {
        "white": lambda s: ([], [], [SensorResponseWhiteNoise(.1, g(s))]),
        "pink": lambda s: ([], [SensorPotentialPinkNoise(.01, 0, g(s))], []),
        "potrtn": lambda s: ([], [SensorPotentialRTN(.03, .01, .05, .6, g(s))], []),
        "resprtn": lambda s: ([], [], [SensorResponseRTN(.03, .01, .05, 1, g(s))]),
        "dot1": lambda s: ([OccupationDotJumps(.02, .02, 1, .7, g(s))], [], []),
        "dot0": lambda s: ([OccupationDotJumps(.02, .02, 0, 1, g(s))], [], []),
        "blur": lambda s: ([OccupationTransitionBlurringGaussian(U((.001, .01), rng=g(s))), OccupationTransitionBlurringFermiDirac(U((.001, .01), .002, g(s + 1)))], [], []),
        "samplers": lambda s: ([], [SensorPotentialPinkNoise(NormalSamplingRange((.001, .1), .02, rng=g(s)), 0, g(s + 1))],
                               [SensorResponseWhiteNoise(LogNormalSamplingRange((.1, 3), rng=g(s + 2)), g(s + 3)),
                                SensorResponseRTN(.03, ExponentialSamplingRange((.01, .5), .2, rng=g(s + 4)), .1, 1, g(s + 5))]),
        "subranges": lambda s: ([OccupationTransitionBlurringGaussian(LogNormalSamplingRange((.001, .02), sampling_range=.005, mean=-4.6, sigma=.7, rng=g(s + 6)))],
                                [SensorPotentialPinkNoise(NormalSamplingRange((.001, .1), .02, sampling_range=.03, rng=g(s)), 0, g(s + 1))],
                                [SensorResponseWhiteNoise(UniformSamplingRange((.1, 3), sampling_range=.5, rng=g(s + 2)), g(s + 3)),
                                 SensorResponseRTN(.03, ExponentialSamplingRange((.01, .5), .2, sampling_range=.1, rng=g(s + 4)), .1, 1, g(s + 5))]),
        "shared": lambda s: (lambda r: ([OccupationDotJumps(U((.01, .03), rng=r), .02, 1, .8, r), OccupationDotJumps(.02, .02, 0, .8, r)],
                                        [SensorPotentialPinkNoise(.01, 0, r), SensorPotentialRTN(.03, .01, .05, .6, r)],
                                        [SensorResponseWhiteNoise(U((.01, .2), rng=r), r), SensorResponseRTN(.03, .01, .05, .6, r)]))(g(s)),
        "sharedsampler": lambda s: (lambda p: ([OccupationTransitionBlurringGaussian(p)], [SensorPotentialPinkNoise(p, 0, g(s + 9))],
                                              [SensorResponseWhiteNoise(p, g(s + 8))]))(U((.001, .02), rng=g(s))),
        "same": lambda s: (lambda d: ([], [], [d, d]))(SensorResponseWhiteNoise(.1, g(s))),
    }


def scenarios(tier):
    for name in sets():
        for seed in (3, 11) if tier == "thorough" else (3,):
            for first in range(7):
                yield dict(set=name, seed=seed, first=first)
            yield dict(set=name, seed=seed, first=0, long=True)


MEMO = {}
SIM0 = None


def base():
    global SIM0
    if SIM0 is None:
        SIM0 = (C.structure("gaas"), S.build(S.SCAN["default"]))
    return SIM0


def build(ds):
    csd, sens = base()
    return Simulation(ideal_csd_config=csd, sensor=sens, occupation_distortions=ds[0], sensor_potential_distortions=ds[1], sensor_response_distortions=ds[2])


def request(sim, q):
    if q == "m2":
        return sim.measure(np.array([-.18, -.11]), np.array([-.11, -.16]), -.25, -.25, np.array([5, 6]))[:3]
    if q == "m1":
        return sim.measure(np.array([-.18, -.11]), np.array([-.16, -.11]), -.25, -.25, 7)[:3]
    return sim.measure_sensor_scan(np.array([-.5, .1]), np.array([-.4, .2]), -.14, -.12, np.array([4, 3]))[:3]


def reference(name, seed, prefix):
    """result of the last request of a lone simulation with this request history"""
    key = (name, seed, prefix)
    if key not in MEMO:
        sim = build(sets()[name](seed))
        for n, q in enumerate(prefix):
            r = request(sim, q)
            MEMO.setdefault((name, seed, prefix[:n + 1]), r)
    return MEMO[key]


OPS = [("A", "m2"), ("A", "m1"), ("A", "s2"), ("B", "m2"), ("B", "s2"), ("copy", ""), ("set", "")]


def run(sc, ctx):
    ds = sets()[sc["set"]](sc["seed"])
    before, glob = pub(ds), repr(np.random.get_state())
    sims = {"A": build(ds), "B": build(ds)}
    hist = {"A": (), "B": ()}
    n = 5 if ctx.tier == "thorough" else 4 if sc["set"] == "shared" else 3
    trace = []
    seq = [OPS[i] for i in (words(7, 2) if ctx.tier == "thorough" else [0, 1, 0, 0, 2, 2, 0, 5, 3, 3, 4, 0, 3, 1, 1, 0, 3, 0, 0, 0, 5, 3, 0])] if sc.get("long") else None
    for i in range(len(seq) if seq else n):
        op = seq[i] if seq else OPS[sc["first"]] if i == 0 else ctx.choose(f"op{i}", OPS)
        trace.append(op)
        ctx.op()
        if op[0] == "copy":
            sims["B"] = copy.deepcopy(sims["A"])
            hist["B"] = hist["A"]
        elif op[0] == "set":
            for a, d in zip(("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"), ds):
                setattr(sims["A"], a, d)
            hist["A"] = ()
        else:
            s, q = op
            hist[s] += (q,)
            out = request(sims[s], q)
            want = reference(sc["set"], sc["seed"], hist[s])
            for k, a, b in zip(("signal", "second", "third"), out, want):
                ctx.check(a.shape == b.shape and np.array_equal(a, b), "not-reproduced", lambda: f"{sc['set']}: after {trace} the {k} result of simulation {s} differs from that of a lone one after {hist[s]}")
            if len(hist[s]) > 1 and hist[s][-1] == hist[s][-2] and sc["set"] in ("white", "pink", "resprtn", "samplers", "shared", "same", "sharedsampler"):
                ctx.check(not np.array_equal(out[0], reference(sc["set"], sc["seed"], hist[s][:-1])[0]), "same-noise", "two successive measurements have the same noise")
            ctx.state(sc["set"], sc["seed"], hist[s], out[0])
    ctx.check(pub(ds) == before, "caller-changed", "the distortions / generators of the caller were changed")
    ctx.check(repr(np.random.get_state()) == glob, "global-generator", "numpy's global generator was used")
    ctx.sample = {"scenario": sc, "history": trace}
