"""C11: distortions act at their stage, in list order, once, with the right ranges (recording distortions)."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.distortions import (OccupationDistortionInterface, SensorPotentialDistortionInterface, SensorResponseDistortionInterface)
from mc import configs as C, sensors as S
from mc.checks.c04 import sweep1d
from mc.support import words
PROPERTY = "C11"
BOUNDS = ("all lists of up to 3 occupation distortions over 3 kinds (non-commuting affine maps depending on the ranges, one querying the structure "
          "source) and all pairs of lists of up to 3 (quick: 2) potential / response distortions over 2 kinds x sensor kinds x CSD 2D/1D and sensor "
          "scan 2D/1D x 4 directions x sequences of two measurements; lists of 4 to 6 distortions, one object several times in a list, lists assigned or extended after construction; and simulations in which all sequences of two (thorough: three) of 8 CSD and scan requests follow each other; log of calls and all results compared with the model")
ASSUMPTIONS = ["occupation distortions modify the arrays in place and return them, as the interface documents"]
LOG = []


def affine(kind, occ, lab, r1, r2, freeze):
    """the (non commuting) effect of the distortion kinds; frozen application is recognisable"""
    f = 0.001 if freeze else 0.0
    if kind == "a":
        return occ * 1.5 + 0.25 + f, (lab * 3 + 1) % 251
    if kind == "b":
        return occ * 0.5 + 0.01 * r1[0] - 0.02 * r1[1] + 0.03 * r2[0] - 0.04 * r2[1] + f, (lab * 2 + 7) % 251
    return occ + 0.125 + f, (lab + 5) % 251


class OccD(OccupationDistortionInterface):
    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx

    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        LOG.append(("occ", self.idx, freeze, tuple(map(float, volt_limits_g1)), tuple(map(float, volt_limits_g2)), occupations.copy(), lead_transitions.copy()))
        if self.kind == "q" and not freeze:
            for a, b, r in queries(volt_limits_g1, volt_limits_g2, occupations.ndim == 3):
                o, l = generate_csd(volt_limits_g1=a, volt_limits_g2=b, resolution=r) if self.idx % 2 else generate_csd(a, b, r)
                LOG.append(("gen", self.idx, o.copy(), l.copy()))
        o, l = affine(self.kind, occupations, lead_transitions.astype(int), volt_limits_g1, volt_limits_g2, freeze)
        occupations[...] = o
        lead_transitions[...] = l
        return occupations, lead_transitions


class PotD(SensorPotentialDistortionInterface):
    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx

    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        LOG.append(("pot", self.idx, tuple(map(float, volt_limits_g1)), tuple(map(float, volt_limits_g2)), np.array(mu_sens)))
        return pm(self.kind, np.array(mu_sens), volt_limits_g1, volt_limits_g2)


class RespD(SensorResponseDistortionInterface):
    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx

    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        LOG.append(("resp", self.idx, tuple(map(float, volt_limits_g1)), tuple(map(float, volt_limits_g2)), np.array(sensor_response)))
        return pm(self.kind, np.array(sensor_response), volt_limits_g1, volt_limits_g2)


def pm(kind, x, r1, r2):
    return x * 1.1 + 0.003 if kind == "x" else x * 0.9 + 0.001 * r1[0] - 0.002 * r1[1] + 0.003 * r2[0] - 0.004 * r2[1]


def queries(r1, r2, two):
    d = 0.2
    a = np.array([r1[0] - d, r1[1] - d]) if r1[0] != r1[1] else np.array(r1, float)
    b = np.array([r2[0] + d, r2[1] + d]) if r2[0] != r2[1] else np.array(r2, float)
    return [(a, np.array(r2, float), np.array([3, 2]) if two else 3), (np.array(r1, float), b, np.array([2, 4]) if two else 2)]


def lists(kinds, n):
    return [list(p) for k in range(n + 1) for p in itertools.product(kinds, repeat=k)]


SHAPES = ["2d", "diag", "anti", "g1", "g2"]


def scenarios(tier):
    th = tier == "thorough"
    n = 3 if th else 2
    for sn in ("generic", "scan"):
        for occ in [None] + lists("abq", 3):
            for sh in SHAPES if th else ["2d", "anti", "g2"]:
                yield dict(k="csd", sn=sn, occ=occ, pot=["x"], resp=["y"], sh=sh)
        for pot, resp in itertools.product([None] + lists("xy", n), [None] + lists("xy", n)):
            for sh in SHAPES if th else ["2d", "diag", "g1"]:
                yield dict(k="csd", sn=sn, occ=["a", "q"], pot=pot, resp=resp, sh=sh)
    for occ in (None, ["a"], ["q"], ["a", "q"], ["q", "b", "q"]):
        for pot, resp in itertools.product((None, ["x"], ["y", "x"]), (None, ["y"], ["x", "y"])):
            yield dict(k="mix", sn="scan", occ=occ, pot=pot, resp=resp)
    # other ways to configure the lists, one object several times, long lists
    for via in ("set", "late", "append", "same", "shared"):
        for sn, k in (("generic", "csd"), ("scan", "csd"), ("scan", "scan")):
            for occ, pot, resp in ((["q", "q"], ["y", "y"], ["x", "x"]), (["q", "q", "q"], ["y", "y", "y"], ["x", "x", "x"]), (["b"], ["x"], ["y"])):
                for sh in ("2d", "anti"):
                    yield dict(k=k, sn=sn, occ=occ, pot=pot, resp=resp, sh=sh, via=via)
    for sn, k in (("generic", "csd"), ("scan", "csd"), ("scan", "scan")):
        for l in (4, 5, 6):
            for o in range(3):
                word = lambda s: [s[(o + i * (i + 3) // 2) % len(s)] for i in range(l)]
                yield dict(k=k, sn=sn, occ=word("aqb"), pot=word("xyy"), resp=word("yxx"), sh="2d" if o else "diag")
    for vs in (0, 1):
        for sh in ("2d", "diag", "g2"):
            yield dict(k="csd", sn="scan", occ=["q", "b"], pot=["x", "y"], resp=["y", "x"], sh=sh, nov=vs)
            for nostruct in (False, True):
                yield dict(k="scan", sn="scan", occ=["q", "b"], pot=["x", "y"], resp=["y", "x"], sh=sh, nov=vs, nostruct=nostruct)
    for pot, resp in itertools.product([None] + lists("xy", n), [None] + lists("xy", n)):
        for sh in SHAPES:
            yield dict(k="scan", sn="scan", occ=["a", "q"], pot=pot, resp=resp, sh=sh)


W = ([-14.13, -11.31], [-13.27, -11.71])
SW = ([-.9537, .1531], [-.8519, .2071])


def run(sc, ctx):
    csd = C.structure("toy_nc")
    c = S.cfg("toy_rise")
    c["ag"] = (np.array(c["ag"]) / 100).tolist()
    sens = S.build(c) if sc["sn"] == "scan" else S.build_generic(S.GENERIC["gauss"])
    mk = lambda cls, l: None if l is None else [cls(k, i) for i, k in enumerate(l)]
    ls = dict(occupation_distortions=mk(OccD, sc["occ"]), sensor_potential_distortions=mk(PotD, sc["pot"]), sensor_response_distortions=mk(RespD, sc["resp"]))
    via = sc.get("via")
    if via in ("same", "shared"):          # one object at every place of the list
        ls = {k: [v[0]] * len(v) for k, v in ls.items()}
    if sc.get("nostruct"):
        csd = None
    sim = Simulation(ideal_csd_config=csd, sensor=sens, **({} if via in ("set", "late", "append", "shared") else ls))
    if via == "late":
        one(ctx, {**sc, "occ": None, "pot": None, "resp": None}, sim, Simulation(ideal_csd_config=csd, sensor=sens), csd, 0, 0)
    for k, v in ls.items():
        if via in ("set", "late", "shared"):
            setattr(sim, k, v)
        elif via == "append":              # the list a getter returns is the live one
            setattr(sim, k, [])
            for x in v:
                getattr(sim, k).append(x)
    clean = Simulation(ideal_csd_config=csd, sensor=sens)
    if sc["k"] == "mix":        # one simulation: every sequence of two (thorough: three) different requests follows each other
        seq = words(8, 3 if ctx.tier == "thorough" else 2)
        for i, j in enumerate(seq + seq[:2]):
            one(ctx, {**sc, "k": ("csd", "scan")[j % 2], "sh": ("2d", "diag", "2d", "g2")[j // 2]}, sim, clean, csd, (0, 1, 3, 2)[j // 2], 3 * (j // 4))
        ctx.sample = {"scenario": sc, "measurements": len(seq) + 2}
        return
    ds = [ctx.choose(f"direction{i}", range(4) if i == 0 or ctx.tier == "thorough" else [0]) for i in range(2)]
    for i, d in enumerate(ds):
        one(ctx, sc, sim, clean, csd, d, i)
    ctx.sample = {"scenario": sc}


def one(ctx, sc, sim, clean, csd, d, i):
    """a measurement compared with the model; i: selects the resolution"""
    two = sc["sh"] == "2d"
    w = W if sc["k"] == "csd" else SW
    if not two:
        w = sweep1d(*w, sc["sh"])
    r1, r2 = C.directions(*w, d)
    # the second measurement has another resolution than the first
    res = (np.array([4, 3]) if i == 0 else np.array([2, 5]) if i == 1 else np.array([5, 2])) if two else 5 - i
    LOG.clear()
    ctx.op()
    a1, a2 = np.array(r1), np.array(r2)
    if sc["k"] == "csd":
        vs = (-.45, -.35) if sc["sn"] == "scan" and not sc.get("nov") else (None, None)
        sig, occ, lab, _ = sim.measure(a1, a2, *vs, res)
    else:
        vp = (None, None) if sc.get("nov") else (-11.2, -10.5)
        sig, cond, peaks, _ = sim.measure_sensor_scan(a1, a2, *vp, res)
    log = list(LOG)
    ctx.check(np.array_equal(a1, r1) and np.array_equal(a2, r2), "ranges-modified", "sweep ranges modified")
    seq = [(e[0], e[1]) for e in log if not (e[0] == "occ" and e[2]) and e[0] != "gen"]
    ctx.state(sc["k"], seq, sig)
    rng = (tuple(map(float, r1)), tuple(map(float, r2)))
    npot = 3 if sc["sn"] == "scan" else 1
    ix = (lambda j: 0) if sc.get("via") in ("same", "shared") else lambda j: j
    expect = [("occ", ix(j)) for j in range(len(sc["occ"] or []))] if sc["k"] == "csd" else []
    expect += [("pot", ix(j)) for j in range(len(sc["pot"] or [])) for _ in range(npot)] + [("resp", ix(j)) for j in range(len(sc["resp"] or []))]
    if sc["k"] == "csd":
        ctx.check(seq == expect, "order", lambda: f"calls {seq}, expected {expect}")
    else:
        ctx.check([s for s in seq if s[0] != "occ"] == expect and not [s for s in seq if s[0] == "occ"], "order", lambda: f"calls {seq}, expected {expect}")
    for e in log:
        if e[0] == "occ" and not e[2]:
            ctx.check((e[3], e[4]) == rng, "occ-ranges", lambda: f"occupation distortion got ranges {e[3:5]}, sweep {rng}")
        if e[0] in ("pot", "resp"):
            ctx.check((e[2], e[3]) == rng, f"{e[0]}-ranges", lambda: f"{e[0]} distortion got ranges {e[2:4]}, sweep {rng}")
    # occupations
    if sc["k"] == "csd":
        o, l = csd.get_csd_data(np.array(r1), np.array(r2), res)
        l = l.astype(int)
        gens = [e for e in log if e[0] == "gen"]
        direct = [e for e in log if e[0] == "occ" and not e[2]]
        for j, k in enumerate(sc["occ"] or []):
            ctx.check(np.allclose(direct[j][5], o) and np.array_equal(direct[j][6], l), "occ-input", lambda: f"distortion {j} of {sc['occ']} did not get the data distorted by its predecessors")
            if k == "q":
                for q in queries(r1, r2, two):
                    e = gens.pop(0)
                    qo, ql = csd.get_csd_data(*q)
                    ql = ql.astype(int)
                    for p in range(j):
                        qo, ql = affine(sc["occ"][p], qo, ql, q[0], q[1], True)
                    ctx.check(e[1] == ix(j) and e[2].shape == qo.shape and np.allclose(e[2], qo, atol=1e-9) and np.array_equal(e[3], ql), "source",
                              lambda: f"structure source of distortion {j} in {sc['occ']} does not deliver ideal data with the earlier distortions re-applied in frozen form")
            o, l = affine(k, o, l, r1, r2, False)
        ctx.check(np.allclose(occ, o, atol=1e-9) and np.array_equal(lab, l), "occ-output", "returned occupations / labels are not the distorted ones")
        pot = clean.sensor.sensor_potential(o, np.array(r1), np.array(r2)) if sc["sn"] == "generic" else clean.sensor.sensor_potential(o, np.array(r1), np.array(r2), *vs)
    else:
        cs, cc, cp, _ = clean.measure_sensor_scan(np.array(r1), np.array(r2), *vp, res)
        ctx.check(np.array_equal(cond, cc) and np.array_equal(peaks, cp), "labels-distorted", "label masks of the scan changed by distortions")
        o1 = csd.get_csd_data(np.array([-11.2] * 2), np.array([-10.5] * 2), 1)[0][0] if csd and not sc.get("nov") else np.zeros(2)
        o = np.broadcast_to(o1, sig.shape + (2,)).copy()
        pot = clean.sensor.sensor_potential(o, *vp, np.array(r1), np.array(r2))
    pots = list(pot) if npot == 3 else [pot]
    entries = [e for e in log if e[0] == "pot"]
    for j, k in enumerate(sc["pot"] or []):
        for q in range(npot):
            e = entries[j * npot + q]
            ctx.check(e[4].shape == pots[q].shape and np.allclose(e[4], pots[q], atol=1e-9), "pot-input", lambda: f"potential distortion {j} potential {q}: wrong input")
            pots[q] = pm(k, pots[q], r1, r2)
    out = clean.sensor.sensor_response(np.array(pots) if npot == 3 else pots[0])
    entries = [e for e in log if e[0] == "resp"]
    for j, k in enumerate(sc["resp"] or []):
        ctx.check(np.allclose(entries[j][4], out, atol=1e-9), "resp-input", lambda: f"response distortion {j}: wrong input")
        out = pm(k, out, r1, r2)
    ctx.check(sig.shape == out.shape and np.allclose(sig, out, atol=1e-9), "signal", "signal is not the distorted response")
