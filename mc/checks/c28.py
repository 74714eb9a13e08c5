"""C28: reset_offset_mu_sens puts the initial voltages of the sweep on the target potential."""
import numpy as np
from simcats import Simulation
from simcats.support_functions import reset_offset_mu_sens
from mc import configs as C, refs, sensors as S
from mc.stubs import Occ, Pot, Resp, pub
from mc.checks.c04 import sweep1d
PROPERTY = "C28"
BOUNDS = ("structures x sensors x windows x 4 directions x shapes (2D, diagonal, opposite, single-gate) x targets x earlier offsets x distortions "
          "configured or not x all sequences of 1-3 resets to two targets and two sweeps with measurements in between (at most 2, thorough 4, deviations from the default choice)")
ASSUMPTIONS = ["sensors without sensor gates (SensorGeneric)"]
WIN = {"gaas": [((2, 0), (1, 1)), ((3, 1), (2, .3)), ((2, 0, "left"), (1, .05))], "toy": [((3, 1), (.5, .6))], "toy_nc": [((3, 1), (.5, .5))],
       "gaas_cauchy": [((3, 1), (1, 1))]}


def scenarios(tier):
    for s, ws in WIN.items():
        for w in ws:
            for sn in ("none", "one", "gauss"):
                for d in range(4):
                    for sh in ("2d", "diag", "anti", "g1", "g2"):
                        for dist in (0, 1):
                            yield dict(s=s, w=w, sn=sn, d=d, sh=sh, dist=dist)


def run(sc, ctx):
    ctx.bound = 2 if ctx.tier == "quick" else 4
    st = C.structure(sc["s"])
    cfg = dict(S.GENERIC[sc["sn"]])
    cfg["off"] = ctx.choose("offset", [0.3, 0, -2])
    r1, r2 = C.window(sc["s"], *sc["w"])
    if sc["sh"] != "2d":
        r1, r2 = sweep1d(r1, r2, sc["sh"])
    ranges = [C.directions(r1, r2, sc["d"]), C.directions(r1, r2, sc["d"] ^ 3)]
    sim = Simulation(ideal_csd_config=st, sensor=S.build_generic(cfg), occupation_distortions=[Occ(.5)] if sc["dist"] else None,
                     sensor_potential_distortions=[Pot(.25)] if sc["dist"] else None, sensor_response_distortions=[Resp(1.)] if sc["dist"] else None)
    before = pub(sim)
    names = [k for k, _ in before[1:]]
    n = ctx.choose("n", [1, 2, 3] if ctx.tier == "thorough" else [1, 2])
    off0 = cfg["off"]
    for i in range(n):
        if ctx.choose(f"measure{i}", [0, 1]):
            sim.measure(np.array(ranges[0][0]), np.array(ranges[0][1]), resolution=3)
        a, b = ranges[ctx.choose(f"sweep{i}", [0, 1])]
        target = ctx.choose(f"target{i}", [0.0, -0.7, 1.5] if ctx.tier == "thorough" else [-0.7, 1])
        a_, b_ = np.array(a), np.array(b)
        ctx.op()
        reset_offset_mu_sens(sim, target, a_, b_)
        ctx.check(np.array_equal(a_, a) and np.array_equal(b_, b), "arguments-modified", "sweep ranges modified")
        off = sim.sensor.offset_mu_sens
        occ, _ = st.get_csd_data(np.array([a[0], a[0]]), np.array([b[0], b[0]]), 1)
        c2 = dict(cfg, off=float(off))
        mu = S.generic_ref(c2, np.array([a[0], b[0]]), occ[0])[0]
        ctx.check(abs(mu - target) < 1e-9, "target", lambda: f"potential at the initial voltages {a[0]}, {b[0]} is {mu}, target {target}")
        # the real measurement of exactly that sweep starts on the target
        clean = Simulation(ideal_csd_config=st, sensor=sim.sensor)
        sig, o, _, _ = clean.measure(a_, b_, resolution=3)
        want = S.generic_ref(c2, refs.grid(a, b, 3), o)
        ctx.check(np.isscalar(off) or np.ndim(off) == 0, "offset-type", f"{off!r}")
        ctx.check(abs(want[0][0] - target) < 1e-9, "sweep-start", lambda: f"sweep starts at {want[0][0]}, target {target}")
        ctx.check(np.allclose(sig, want[1], rtol=1e-9, atol=1e-9), "measured", "measured signal is not the signal at the reset potential")
        reset_offset_mu_sens(sim, target, a_, b_)
        ctx.check(abs(sim.sensor.offset_mu_sens - off) < 1e-9, "not-idempotent", lambda: f"second reset changed the offset from {off} to {sim.sensor.offset_mu_sens}")
        ctx.state(sc["s"], float(off))
    sim.sensor.offset_mu_sens = off0
    after = pub(sim)
    ctx.check(after == before, "more-than-offset", lambda: "the reset changed more than the offset: " + str([k for k, x, y in zip(names, before[1:], after[1:]) if x != y]))
    ctx.sample = {"scenario": sc}
