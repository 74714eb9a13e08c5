"""C21: SensorScanSensorGeneric potentials, series combination, final rise."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.sensor import SensorScanSensorGeneric
from mc import configs as C, refs, sensors as S
from mc.stubs import pub
PROPERTY = "C21"
BOUNDS = ("direct calls: sensor configurations x plunger voltages (swept in 4 directions / fixed / None / int) x sensor voltages (likewise) x occupation "
          "patterns x shapes 1D/2D; full sensor scans x windows x plunger voltages x structure or not; full CSDs with sensor voltages; relative accuracy at "
          "vanishing conductances; refused simultaneous sweeps; setter validation and aliasing between sensors and caller; every pixel compared with the reference model")
ASSUMPTIONS = ["signals compared to 1e-7 relative (differences of logistic functions)"]
SHAPES = [(4,), (1,), (3, 4), (4, 3), (2, 2)]
SWEEPS = [None, -.15, 0, [-.2, .1], [.1, -.2], [-.3, -.1]]
SSW = [None, -.5, -1, [-.9537, .1531], [.1531, -.9537], [-.4, .2]]


def scenarios(tier):
    th = tier == "thorough"
    for n in S.SCAN:
        for a, b in itertools.product(range(len(SWEEPS)), repeat=2):
            yield dict(k="pot", n=n, a=a, b=b)
        for w in range(3):
            for sh in ("2d", "diag", "anti", "g1", "g2"):
                for d in range(4) if sh == "2d" else (0, 3):
                    for vp in (None, [-.15, -.15], [-.12, -.1], [0, 0]):
                        for csd in (True, False):
                            yield dict(k="scan", n=n, w=w, sh=sh, d=d, vp=vp, csd=csd, res=([7, 5] if not th else [19, 23]) if sh == "2d" else (9 if not th else 31))
        for vs in (None, [-.45, -.35], [-.1, -.05], [-1, 0]):
            for d in range(4):
                for res in ([6, 4], [3, 7], 8):
                    yield dict(k="csd", n=n, vs=vs, d=d, res=res)
        for res in ([270, 3], [3, 270], 300):
            yield dict(k="csd", n=n, vs=[-.45, -.35], d=0, res=res)
            yield dict(k="scan", n=n, w=0, sh="2d" if isinstance(res, list) else "diag", d=0, vp=[-.15, -.15], csd=True, res=res)
        for vp in (None, [-.15, -.15], [0, 0]):
            yield dict(k="low", n=n, vp=vp)
    for i in range(14):
        yield dict(k="valid", i=i)


def rngof(v):
    return [0., 0.] if v is None else ([float(v), float(v)] if not isinstance(v, list) else [float(x) for x in v])


def arg(v):
    return np.array(v, float) if isinstance(v, list) else v


def bar_ok(ctx, m, pot, sig, s, b1, b2):
    """never exceeds any of the three conductances"""
    pos = (s >= 0) & (b1 >= 0) & (b2 >= 0)
    top = np.minimum(np.minimum(s, b1), b2)
    ctx.check((sig[pos] <= top[pos] * (1 + 1e-9) + 1e-12).all(), "exceeds", "the signal exceeds one of the three conductances")


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def _pot(sc, ctx):
    c = S.cfg(sc["n"])
    m = S.ScanRef(c)
    sens = S.build(c)
    va, vb = SWEEPS[sc["a"]], SWEEPS[sc["b"]]
    for (i, sa), (j, sb), shape, op in itertools.product(enumerate(SSW), enumerate(SSW), SHAPES, (0, 1, 2)):
        n = int(np.prod(shape))
        base = [np.zeros((n, 2)), np.tile([1., 2.], (n, 1)), np.stack([np.arange(n) * .5, (n - np.arange(n)) * .25], -1)][op]
        occ = base.reshape(shape + (2,))
        keep = occ.copy()
        args = [arg(va), arg(vb), arg(sa), arg(sb)]
        ctx.op()
        both = any(isinstance(x, list) for x in (va, vb)) and any(isinstance(x, list) for x in (sa, sb))
        try:
            pot = sens.sensor_potential(occ, *args)
            ctx.check(not both, "both-swept", lambda: f"plunger {va},{vb} and sensor gates {sa},{sb} swept at once was accepted")
        except ValueError:
            ctx.check(both, "refused", lambda: f"refused: {va} {vb} {sa} {sb}")
            continue
        res = [shape[1], shape[0]] if len(shape) == 2 else shape[0]
        vp, vs = refs.grid(rngof(va), rngof(vb), res), refs.grid(rngof(sa), rngof(sb), res)
        want = m.potentials(vs, vp, keep)
        ctx.check(pot.shape == want.shape and np.allclose(pot, want, rtol=1e-9, atol=1e-12), "potential", lambda: f"{va} {vb} {sa} {sb} {shape}: max deviation {np.abs(pot - want).max() if pot.shape == want.shape else pot.shape}")
        ctx.check(np.array_equal(occ, keep), "occupations-modified", "occupations modified")
        ctx.state(pot)
        if (i + j) % 2 and op == 0 or op == 2:
            pk = pot.copy()
            got = sens.sensor_response(pot)
            r, s, b1, b2 = m.response(vs, vp, keep)
            ctx.check(np.array_equal(pk, pot), "potential-modified", "potential array modified")
            ctx.check(got.shape == r.shape and np.allclose(got, r, rtol=1e-7, atol=1e-11), "response", lambda: f"{va} {vb} {sa} {sb} {shape}: {got} != {r}")
            bar_ok(ctx, m, pot, got, s, b1, b2)


def _low(sc, ctx):
    """vanishing conductances: the series combination keeps its relative accuracy"""
    c = S.cfg(sc["n"])
    m = S.ScanRef(c)
    sens = S.build(c)
    low = [-4., -3., -2.2, -1.6, -1.2, -.8, -.5, -.2]
    wide = [-30., -.9, .3, 2.]
    vp = sc["vp"] or (None, None)
    v = (0., 0.) if sc["vp"] is None else sc["vp"]
    for s1, s2 in [*itertools.product(low, low), *itertools.product(wide, wide)]:
        ctx.op()
        got = sens.sensor_response(sens.sensor_potential(np.zeros((1, 2)), *vp, s1, s2))
        r, s, b1, b2 = m.response(np.array([[s1, s2]]), v, np.zeros((1, 2)))
        ctx.state(got)
        if min(s[0], b1[0], b2[0]) > 1e-60:
            ctx.check(got.shape == (1,) and abs(got[0] / r[0] - 1) < 1e-5, "response-low", lambda: f"sensor gates {s1}, {s2}: {got[0]} != {r[0]} (conductances {s[0]}, {b1[0]}, {b2[0]})")
        else:
            ctx.check(got.shape == (1,) and np.allclose(got, r, rtol=1e-7, atol=1e-11), "response-far", lambda: f"sensor gates {s1}, {s2}: {got} != {r}")


WIN = [([-.9537, .1531], [-.8519, .2071]), ([-.5093, .1137], [-.6171, .0531]), ([-.3111, .4017], [-.3047, .3823])]


def _scan(sc, ctx):
    from mc.checks.c04 import sweep1d
    c = S.cfg(sc["n"])
    m = S.ScanRef(c)
    r1, r2 = WIN[sc["w"]]
    if sc["sh"] != "2d":
        r1, r2 = sweep1d(r1, r2, sc["sh"])
    r1, r2 = C.directions(r1, r2, sc["d"])
    sim = Simulation(sensor=S.build(c), ideal_csd_config=C.structure("gaas") if sc["csd"] else None)
    res = np.array(sc["res"]) if np.ndim(sc["res"]) else sc["res"]
    vp = sc["vp"] or (None, None)
    if sc["vp"] == [0, 0] and sc["csd"]:
        return          # outside of the structure
    ctx.op()
    sig = sim.measure_sensor_scan(np.array(r1), np.array(r2), *vp, res)[0]
    occ = np.zeros(2)
    if sc["csd"] and sc["vp"]:
        lo, hi = C.ref("gaas").total_interval(np.array([vp], float))
        if lo[0] != hi[0]:
            return
        occ = C.ref("gaas").occ(np.array([vp], float), int(lo[0]))[0]
    g = refs.grid(r1, r2, sc["res"])
    r, s, b1, b2 = m.response(g, (0., 0.) if sc["vp"] is None else vp, np.broadcast_to(occ, g.shape))
    ctx.state(sig)
    ctx.check(sig.shape == r.shape and np.allclose(sig, r, rtol=1e-6, atol=1e-10), "scan", lambda: f"max deviation {np.abs(sig - r).max() if sig.shape == r.shape else sig.shape} from the series combination")
    bar_ok(ctx, m, None, sig, s, b1, b2)


def _csd(sc, ctx):
    c = S.cfg(sc["n"])
    m = S.ScanRef(c)
    r1, r2 = C.directions(*C.window("gaas", (3, 1), (.8, 1.1)), sc["d"])
    sim = Simulation(sensor=S.build(c), ideal_csd_config=C.structure("gaas"))
    vs = sc["vs"] or (None, None)
    ctx.op()
    sig, occ, _, _ = sim.measure(np.array(r1), np.array(r2), *vs, np.array(sc["res"]) if np.ndim(sc["res"]) else sc["res"])
    g = refs.grid(r1, r2, sc["res"])
    r, s, b1, b2 = m.response(np.broadcast_to(np.array(sc["vs"] or [0., 0.], float), g.shape), g, occ)
    ctx.state(sig)
    ctx.check(sig.shape == r.shape and np.allclose(sig, r, rtol=1e-6, atol=1e-10), "csd", lambda: f"max deviation {np.abs(sig - r).max() if sig.shape == r.shape else sig.shape} from the series combination")
    bar_ok(ctx, m, None, sig, s, b1, b2)


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def _valid(sc, ctx):
    i = sc["i"]
    ctx.op()
    c = S.cfg("toy_rise")
    base = dict(barrier_functions=tuple(S.BarrierFunctionGLF(**b) for b in c["barriers"]), sensor_peak_function=[S.peak(*p) for p in c["peaks"]],
                alpha_sensor_gate=np.array(c["asg"]), alpha_gate=np.array(c["ag"]), alpha_dot=np.array(c["ad"]), offset_mu_sens=np.array(c["off"]),
                final_rise=S.SensorRiseGLF(**c["rise"]))
    bads = {"sensor_peak_function": [1, "x", [1], [S.peak(*c["peaks"][0]), 3]], "alpha_dot": [np.zeros(3), np.zeros((2, 2)), np.zeros((3, 3))],
            "alpha_gate": [np.zeros(3), np.zeros((2, 2)), np.zeros((2, 3))], "alpha_sensor_gate": [np.zeros(2), np.zeros((2, 2)), np.zeros((3, 3))],
            "offset_mu_sens": [np.zeros(2), np.zeros(4)], "final_rise": [1, "x"], "barrier_functions": [1, (base["barrier_functions"][0], 3), "x"]}
    keys = list(bads)
    if i < len(keys):
        k = keys[i]
        for b in bads[k]:
            ctx.check(refused(lambda: SensorScanSensorGeneric(**{**base, k: b})), f"accepted-{k}", f"constructor accepted {k}={b!r}")
            s = SensorScanSensorGeneric(**base)
            before = pub(s)
            ctx.check(refused(lambda: setattr(s, k, b)), f"set-accepted-{k}", f"setter accepted {k}={b!r}")
            ctx.check(pub(s) == before, "refused-changed", f"refused {k} changed the sensor")
    elif i == 7:
        # one barrier function counts for both barriers
        s = SensorScanSensorGeneric(**{**base, "barrier_functions": base["barrier_functions"][0]})
        ctx.check(len(s.barrier_functions) == 2 and pub(s.barrier_functions[0]) == pub(s.barrier_functions[1]), "one-barrier", "single barrier not used twice")
        one = pub(s.barrier_functions[1])
        s.barrier_functions[0].offset = s.barrier_functions[0].offset + .7
        ctx.check(pub(s.barrier_functions[1]) == one, "barriers-shared", "changing one barrier changed the other")
    elif i == 8:
        # 2-element lever arms are used for all three potentials
        s = SensorScanSensorGeneric(**{**base, "alpha_gate": np.array([.1, .2]), "alpha_dot": np.array([-.1, -.3])})
        p = s.sensor_potential(np.array([[1., 2.]]), 1., 1., 0., 0.)
        ctx.check(np.allclose(p[:, 0] - np.array(c["off"]), .3 - .7), "replicated", f"{p[:, 0]}")
    elif i == 9:
        pk = [S.peak(*p) for p in c["peaks"]]
        s = SensorScanSensorGeneric(**{**base, "sensor_peak_function": pk})
        before = pub(s)
        pk[0].height = 77.
        pk.append(S.peak(*c["peaks"][0]))
        ctx.check(pub(s) == before, "peaks-not-copied", "changing the supplied peaks changed the sensor")
    elif i == 10:
        s = SensorScanSensorGeneric(**{**base, "sensor_peak_function": S.peak(*c["peaks"][0])})
        ctx.check(len(s.sensor_peak_function) == 1, "single-peak", "single peak not accepted")
    elif i == 11:
        s = SensorScanSensorGeneric(**{**base, "final_rise": None})
        r = S.ScanRef(S.cfg("toy"))
        g = refs.grid([-.3, .2], [-.25, .2], [5, 4])
        occ = np.zeros((4, 5, 2))
        a = s.sensor_response(s.sensor_potential(occ, 0., 0., np.array([-.3, .2]), np.array([-.25, .2])))
        s.final_rise = base["final_rise"]
        b = s.sensor_response(s.sensor_potential(occ, 0., 0., np.array([-.3, .2]), np.array([-.25, .2])))
        ctx.check(np.allclose(a, r.response(g, (0., 0.), occ)[0], rtol=1e-7, atol=1e-11), "rise-none", "without final rise")
        ctx.check(np.allclose(b, S.ScanRef(c).response(g, (0., 0.), occ)[0], rtol=1e-6, atol=1e-10), "rise-set", "final rise assigned later")
        ctx.check(not np.allclose(a, b), "vacuous", "")
    elif i == 12:
        # sensors share their lever arms and offsets neither with the caller nor with each other
        for given in (True, False):
            arms = {k: np.array(c[x]) for k, x in (("alpha_sensor_gate", "asg"), ("alpha_gate", "ag"), ("alpha_dot", "ad"), ("offset_mu_sens", "off"))}
            kw = {**base, **arms} if given else {k: v for k, v in base.items() if k not in ("alpha_gate", "alpha_dot", "offset_mu_sens")}
            s, t = SensorScanSensorGeneric(**kw), SensorScanSensorGeneric(**kw)
            before = pub(t)
            for k in arms if given else ("alpha_gate", "alpha_dot", "offset_mu_sens"):
                getattr(s, k).flat[0] += 3
                ctx.check(pub(t) == before, "arms-shared", lambda: f"changing {k} of one sensor changed another one (supplied: {given})")
                ctx.check(pub(SensorScanSensorGeneric(**kw)) == before, "arms-shared-later", lambda: f"changing {k} of one sensor changed sensors created later")
            one = pub(s)
            for k, x in arms.items():
                x.flat[1] -= 2
                ctx.check(not given or pub(s) == one, "arms-not-copied", lambda: f"changing the supplied {k} changed the sensor")
                setattr(s, k, x)
                one = pub(s)
                x.flat[1] += .5
                ctx.check(pub(s) == one, "set-not-copied", lambda: f"changing the assigned {k} changed the sensor")
        a, b = SensorScanSensorGeneric(**base), SensorScanSensorGeneric(**base)
        before = pub(b)
        a.sensor_peak_deformations[0] = S.SensorPeakDeformationLinear(1.3)
        ctx.check(pub(b) == before and pub(SensorScanSensorGeneric(**base)) == before, "deformations-shared", "a deformation added to one sensor was added to another one")
    else:
        # all contributions vanish -> signal zero
        zb = S.BarrierFunctionGLF(**{**c["barriers"][0], "asymptote_right": .3, "growth_rate": 2000, "offset": 5.})
        s = SensorScanSensorGeneric(**{**base, "barrier_functions": zb, "final_rise": None, "sensor_peak_function": S.peak("gauss", 50., 1e-3, 1., 0.)})
        a = s.sensor_response(s.sensor_potential(np.zeros((3, 2)), 0., 0., np.array([-.3, .2]), np.array([-.25, .2])))
        ctx.check(np.array_equal(a, np.zeros(3)), "zero", f"{a}")
