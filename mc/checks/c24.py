"""C24: deformed peaks."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
from mc import configs as C, refs, sensors as S
from mc.stubs import pub
from mc.checks.c04 import sweep1d
from mc.support import elementwise
PROPERTY = "C24"
BOUNDS = ("moved centres: radii / angles of both signs x distances (scalar, array) x centres; distance arrays of every size, memory layout and number type; direct sensor response and full sensor scans: sensors x all subsets "
          "of deformed peaks (two deformation kinds each) x windows x plunger voltages / occupations x 2D/1D x directions; CSDs; groups of sensors sharing deformation objects; sequences of two / three "
          "measurements, also where the response vanishes, with the configuration compared before and after")
ASSUMPTIONS = ["values compared to 1e-7 relative"]
WIN = [([-.9537, .1531], [-.8519, .2071]), ([-.5093, .1137], [-.6171, .0531]), ([-.3111, .1017], [-.3047, .1823])]
KIND = [None, ("circle", .05), ("circle", -.02), ("linear", 1.3), ("linear", -1.2)]


def scenarios(tier):
    th = tier == "thorough"
    for r in (.05, -.05, .3, -.3, .01, -.01, 2., 1):
        yield dict(k="calc", d=["circle", r])
    for a in (1.2, -1.2, np.pi / 2, .3, -.3, 2.5):
        yield dict(k="calc", d=["linear", a])
    for i in range(3):
        for k in range(1, len(KIND)):
            yield dict(k="far", i=i, d=k)
            yield dict(k="shared", i=i, d=k)
    kinds = range(len(KIND))
    for n in ("toy", "toy_rise", "toy_unsorted", "toy_axis", "toy_vert", "toy_onebar", "toy_noplunger"):
        for combo in itertools.product(kinds, repeat=3):
            if combo == (0, 0, 0) or (not th and n != "toy" and sum(x > 0 for x in combo) == 3):
                continue
            yield dict(k="direct", n=n, df=combo)
            if n == "toy" and sum(x > 0 for x in combo) == 1:
                yield dict(k="direct", n=n, df=combo, big=300)
                yield dict(k="scan", n=n, df=combo, big=300)
            if th or n in ("toy", "toy_rise") or sum(x > 0 for x in combo) == 1:
                yield dict(k="scan", n=n, df=combo)
            if sum(x > 0 for x in combo) == 1 or th:
                yield dict(k="csd", n=n, df=combo)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def conf(sc):
    return S.cfg(sc["n"], {i: KIND[k] for i, k in enumerate(sc["df"]) if k})


def _calc(sc, ctx):
    for asg in ([[0.1, 0.12], [0.9, 0.2], [0.15, 1.1]], [[1., 0.], [.5, .1], [.1, .5]], [[.02, .3], [.5, .1], [.1, .5]]):
        c = S.cfg("toy")
        c["asg"] = asg
        c["deform"] = {0: tuple(sc["d"]), 2: ("linear", .7)}
        for mu0 in (-.15, 0., .2, 3):
            c["peaks"][0] = ("lorentz", mu0, .01, 1., 0.)
            sens = S.build(c)
            m = S.ScanRef(c)
            d = sens.sensor_peak_deformations[0]
            ds = np.array([-2., -.5, -.1, -.03, -1e-3, 0., 1e-3, .03, .1, .5, 2.])
            ctx.op()
            keep = ds.copy()
            got = d.calc_mu(dist=ds, mu0=mu0)
            ctx.check(np.array_equal(ds, keep), "dist-modified", "distance array modified")
            want = m.moved(0, ds)
            ctx.check(np.allclose(got, want, rtol=1e-9, atol=1e-12), "centre", lambda: f"{sc['d']} mu0={mu0}: {got} != {want}")
            elementwise(ctx, lambda a: d.calc_mu(dist=a, mu0=mu0), ds, "centre-form", want=got, ints=False)
            ctx.check(abs(got[5] - mu0) < 1e-12, "on-line", f"centre moved on the line through the pinch-off point: {got[5]}")
            for x, y in zip(ds, want):
                s = d.calc_mu(dist=float(x), mu0=mu0)
                ctx.check(abs(float(s) - y) < 1e-9, "scalar", lambda: f"scalar distance {x}: {s} != {y}")
            ctx.check(np.allclose(d.calc_mu(dist=ds[:10].reshape(2, 5), mu0=mu0), want[:10].reshape(2, 5), rtol=1e-9, atol=1e-12), "array-2d", "2D distances")
            ctx.state(got)


def compare(ctx, m, g, v, occs, sig, where, measured):
    """correct: centre moved by the distance of the pixel, final rise kept"""
    base = m.rest(np.asarray(v, float), occs[..., :])
    dist = m.dist(g, v, occs)
    ok = lambda r: sig.shape == r.shape and np.allclose(sig, r, rtol=1e-7, atol=1e-10)
    full = m.response(g, v, occs, dist)[0]
    if ok(full):
        return
    norise = m.response(g, v, occs, dist, rise=False)[0]
    if m.c["rise"] is not None and ok(norise):
        ctx.note_fail("final-rise-dropped-with-deformations", f"{where}: the final rise is missing in a deformed scan")
        return
    if measured:
        const = m.dist(m.point(m.fc, v, occs), v, occs)
        for rise in ((True, False) if m.c["rise"] is not None else (True,)):
            if ok(m.response(g, v, occs, const, rise=rise)[0]):
                ctx.note_fail("measured-scan-uses-one-distance", f"{where}: measure_sensor_scan moves the peaks by the distance of the fully conductive point for "
                              "every pixel")
                if not rise:
                    ctx.note_fail("final-rise-dropped-with-deformations", f"{where}: the final rise is missing in a deformed scan")
                return
    ctx.fail("deformed-signal", f"{where}: the signal is not the one with moved peak centres, max deviation {np.abs(sig - full).max() if sig.shape == full.shape else sig.shape}")


def shapes(ctx, big=None):
    w = WIN[ctx.choose("window", range(len(WIN)))]
    sh = ctx.choose("shape", ["2d", "diag", "anti", "g1", "g2"])
    d = ctx.choose("direction", (range(4) if sh == "2d" else (0, 3)) if ctx.tier == "thorough" or True else (0,))
    r1, r2 = w if sh == "2d" else sweep1d(*w, sh)
    r1, r2 = C.directions(r1, r2, d)
    res = (big and ctx.choose("grid", [[260, 3], [3, 260]]) or [5, 4]) if sh == "2d" else big or ctx.choose("res", [6, 1])
    return r1, r2, res


def _direct(sc, ctx):
    c = conf(sc)
    m = S.ScanRef(c)
    sens = S.build(c)
    before = pub(sens)
    ctx.bound = 2 if ctx.tier == "quick" else 4
    r1, r2, res = shapes(ctx, sc.get("big"))
    vp = ctx.choose("vp", [(-.14, -.05), (None, None), (-.1, -.1), (0, -1)])
    occ = ctx.choose("occ", [(1., 1.), (0., 0.), (.3, 2.7)])
    g = refs.grid(r1, r2, res)
    occs = np.broadcast_to(np.array(occ), g.shape).copy()
    v = (0., 0.) if vp[0] is None else vp
    for rep in range(2):
        ctx.op()
        pot = sens.sensor_potential(occs, *vp, np.array(r1), np.array(r2))
        sig = sens.sensor_response(pot)
        ctx.check(pub(sens) == before, "sensor-changed", "the measurement changed the sensor configuration")
        compare(ctx, m, g, v, occs, sig, f"response {rep}", False)
    ctx.state(sig)


def _far(sc, ctx):
    """sharp Gaussian peaks only: the response underflows far away from the peaks"""
    c = S.cfg("toy", {sc["i"]: KIND[sc["d"]]})
    c["peaks"] = [("gauss", -.15, .002, .2, 0.), ("gauss", -.13, .001, .25, 0.), ("gauss", -.11, .0005, .3, 0.)]
    m = S.ScanRef(c)
    sens = S.build(c)
    before = pub(sens)
    ctx.bound = 2 if ctx.tier == "quick" else 3
    order = [ctx.choose(f"window {i}", [0, 1, 2, 3, 4]) for i in range(3)]
    wins = [*WIN, ([2.1, 3.7], [1.9, 2.3]), ([-3.9, -3.1], [-2.9, -2.3])]
    occs = np.zeros((3, 4, 2))
    for w in order:
        r1, r2 = wins[w]
        g = refs.grid(r1, r2, [4, 3])
        ctx.op()
        sig = sens.sensor_response(sens.sensor_potential(occs, 0., 0., np.array(r1), np.array(r2)))
        ctx.check(pub(sens) == before, "sensor-changed", "the measurement changed the sensor configuration")
        compare(ctx, m, g, (0., 0.), occs, sig, f"windows {order}", False)
    ctx.state(sig)


def _shared(sc, ctx):
    """several sensors created from the same deformation objects"""
    c = S.cfg("toy", {sc["i"]: KIND[sc["d"]]})
    confs = [c, {**c, "asg": [[x * 2.5 for x in c["asg"][0]], *c["asg"][1:]]}, {**c, "asg": [[.11, -.02], *c["asg"][1:]], "ag": None}]
    first = S.build(confs[0])
    d = first.sensor_peak_deformations
    order = [ctx.choose(f"sensor {i}", range(3)) for i in range(3)]
    sens = [(confs[0], first)] + [(confs[o], S.build(confs[o], d)) for o in order[:2]]
    r1, r2 = WIN[order[2]]
    g = refs.grid(r1, r2, [5, 4])
    occs = np.zeros((4, 5, 2))
    for k, s in sens:
        ctx.op()
        sig = s.sensor_response(s.sensor_potential(occs, 0., 0., np.array(r1), np.array(r2)))
        compare(ctx, S.ScanRef(k), g, (0., 0.), occs, sig, f"sensors {order}", False)
        ctx.state(sig)


def _scan(sc, ctx):
    c = conf(sc)
    m = S.ScanRef(c)
    csd = C.structure("gaas")
    sim = Simulation(sensor=S.build(c), ideal_csd_config=csd)
    before = pub(sim.sensor)
    ctx.bound = 1 if ctx.tier == "quick" else 2
    r1, r2, res = shapes(ctx, sc.get("big"))
    vp = ctx.choose("vp", [(-.14, -.05), (None, None), (-.1, -.19)])
    occ = np.zeros(2)
    if vp[0] is not None:
        lo, _ = C.ref("gaas").total_interval(np.array([vp]))
        occ = C.ref("gaas").occ(np.array([vp]), int(lo[0]))[0]
    g = refs.grid(r1, r2, res)
    occs = np.broadcast_to(occ, g.shape)
    v = (0., 0.) if vp[0] is None else vp
    for rep in range(2):
        ctx.op()
        sig = sim.measure_sensor_scan(np.array(r1), np.array(r2), *vp, np.array(res) if np.ndim(res) else res)[0]
        ctx.check(pub(sim.sensor) == before, "sensor-changed", "the measurement changed the sensor configuration")
        compare(ctx, m, g, v, occs, sig, f"scan {rep}", True)
        if rep == 0:
            sim.measure(np.array([-.16, -.14]), np.array([-.17, -.12]), -.3, -.2, np.array([3, 2]))
    ctx.state(sig)


def _csd(sc, ctx):
    """plunger scans are unaffected by deformations"""
    c = conf(sc)
    plain = dict(c, deform={})
    m = S.ScanRef(plain)
    csd = C.structure("gaas")
    sim = Simulation(sensor=S.build(c), ideal_csd_config=csd)
    r1, r2 = C.window("gaas", (3, 1), (.8, 1.1))
    sh = ctx.choose("shape", ["2d", "diag", "anti", "g1", "g2"])
    if sh != "2d":
        r1, r2 = sweep1d(r1, r2, sh)
    r1, r2 = C.directions(r1, r2, ctx.choose("direction", (0, 3)))
    vs = ctx.choose("vs", [(-.45, -.35), (-.15, -.1), (None, None)])
    before = pub(sim.sensor)
    ctx.op()
    sig, occ, _, _ = sim.measure(np.array(r1), np.array(r2), *vs, np.array([5, 4]) if sh == "2d" else 6)
    ctx.check(pub(sim.sensor) == before, "sensor-changed", "the measurement changed the sensor configuration")
    g = refs.grid(r1, r2, [5, 4] if sh == "2d" else 6)
    want = m.response(np.broadcast_to(np.array([x or 0. for x in vs]), g.shape), g, occ)[0]
    ctx.state(sig)
    ctx.check(np.allclose(sig, want, rtol=1e-6, atol=1e-10), "csd-deformed", lambda: f"a plunger scan is affected by peak deformations: {np.abs(sig - want).max()}")
