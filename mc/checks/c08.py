"""C08: measure_sensor_scan() accepts and refuses exactly the documented requests; occupation of the scan."""
import numpy as np
from simcats import Simulation
from mc import configs as C, refs, sensors as S
from mc.checks.c07 import RES, RG, rng, snapshot, E
PROPERTY = "C08"
BOUNDS = ("deviation-bounded exhaustive: all requests that differ from a plain valid request in at most 3 (quick) or 4 (thorough) of 13 "
          "dimensions: sensor kind (plain, with rise, peakless, single barrier, deformed, not scannable), presence of the structure, four voltage "
          "limits, two plunger voltages (missing, float, zero, integer, on the limits, outside), two sweep ranges, resolution form; accepted scans "
          "are compared pixel by pixel with the reference sensor at the occupation of the structure")
ASSUMPTIONS = ["resolutions are Python ints or numpy arrays, ranges are numpy arrays (documented types)"]
R1, R2 = (-.9537, .0531), (-.8519, .1071)
SENS = ["toy", "generic", "toy_nopeak", "toy_onebar", "toy_noplunger", "toy_rise", "deformed"]


def lims(r):
    return [("none", None), ("exact", list(r)), ("low-cut", [r[0] + E, r[1] + 1]), ("high-cut", [r[0] - 1, r[1] - E]), ("wide", [r[0] - 1, r[1] + 1]),
            ("ends-at", [r[0] - 1, r[0]]), ("starts-at", [r[1], r[1] + 1])]


PL = [("none", None), ("lim", [-1.5, .6]), ("other", [-3., -2.])]
PV = [("in", -.7), ("none", None), ("zero", 0.0), ("int0", 0), ("int", -1), ("lower", -1.5), ("upper", .6), ("below", -1.5 - E), ("above", .6 + E)]


def scenarios(tier):
    for csd in (True, False):
        for sensor in SENS:
            for res in range(len(RES)):
                for g1 in RG:
                    for form in ("array", "list"):
                        yield dict(csd=csd, sensor=sensor, res=res, g1=g1, form=form)


def run(sc, ctx):
    dev0 = (not sc["csd"]) + (sc["sensor"] != "toy") + (sc["res"] != 0) + (sc["g1"] != "asc") + (sc["form"] == "list")
    bound = (3 if ctx.tier == "quick" else 4)
    if dev0 > bound:
        return
    ctx.bound = bound - dev0
    g2 = ctx.choose("g2", RG)
    l1 = ctx.choose("slim1", lims(R1))
    l2 = ctx.choose("slim2", lims(R2))
    p1 = ctx.choose("plim1", PL)
    p2 = ctx.choose("plim2", PL)
    v1 = ctx.choose("v1", PV)[1]
    v2 = ctx.choose("v2", PV)[1]
    res = RES[sc["res"]][1]
    a, b = rng(R1, sc["g1"]), rng(R2, g2)
    mk = (lambda x: None if x is None else (np.array(x) if sc["form"] == "array" else list(x)))
    c = None
    if sc["sensor"] == "generic":
        sensor = S.build_generic(S.GENERIC["one"])
    else:
        c = S.cfg("toy", "mixed") if sc["sensor"] == "deformed" else S.cfg(sc["sensor"])
        # plunger voltages of the toy structure are about 10 times those the sensors were made for
        if c["ag"] is not None:
            c["ag"] = (np.array(c["ag"]) / 10).tolist()
        sensor = S.build(c)
    sim = Simulation(volt_limits_sensor_g1=mk(l1[1]), volt_limits_sensor_g2=mk(l2[1]), volt_limits_g1=mk(p1[1]), volt_limits_g2=mk(p2[1]),
                     ideal_csd_config=C.structure("toy_zero") if sc["csd"] else None, sensor=sensor)

    def out(r, l):
        return l is not None and (min(r) < l[0] or max(r) > l[1])
    two = np.ndim(res) and len(res) == 2
    reasons = [k for k, x in (("not-scannable", c is None), ("range-length", len(a) != 2 or len(b) != 2), ("g1-limit", out(a, l1[1])),
                              ("g2-limit", out(b, l2[1])), ("plunger-limit", v1 is not None and out([v1], p1[1]) or v2 is not None and out([v2], p2[1])),
                              ("one-plunger-voltage", (v1 is None) != (v2 is None)), ("resolutions", np.ndim(res) and len(res) > 2),
                              ("fixed-2d", two and (a[0] == a[-1] or b[0] == b[-1])), ("small-2d", two and min(res) < 2)) if x]
    before = snapshot(sim)
    ctx.op()
    try:
        sig, cond, peaks, meta = sim.measure_sensor_scan(np.array(a), np.array(b), v1, v2, np.array(res) if np.ndim(res) else res)
        refused = False
    except ValueError as e:
        refused, msg = True, str(e)
    ctx.state(sc["sensor"], refused, reasons)
    ctx.check(snapshot(sim) == before, "limits-changed", "the request changed the voltage limits")
    info = lambda: f"{a} {b} {res} {v1} {v2} limits {l1} {l2} {p1} {p2}"
    if reasons:
        ctx.check(refused, "accepted:" + "+".join(reasons[:2]), lambda: f"request accepted although {reasons}: {info()}")
        if c is not None:
            sim.volt_limits_sensor_g1 = sim.volt_limits_sensor_g2 = sim.volt_limits_g1 = sim.volt_limits_g2 = None
            fresh = Simulation(sensor=S.build(c), ideal_csd_config=C.structure("toy_zero") if sc["csd"] else None)
            x = sim.measure_sensor_scan(np.array(R1), np.array(R2), -.7, .4, np.array([2, 2]))[:3]
            y = fresh.measure_sensor_scan(np.array(R1), np.array(R2), -.7, .4, np.array([2, 2]))[:3]
            ctx.check(all(np.array_equal(p, q) for p, q in zip(x, y)), "refused-left-trace", "a refused request changed a later measurement")
        return
    ctx.check(not refused, "refused", lambda: f"valid request refused ({msg[:200]}): {info()}")
    shape = (res[1], res[0]) if two else (int(np.ravel(res)[0]),)
    ctx.check(sig.shape == cond.shape == peaks.shape == shape, "shape", lambda: f"{sig.shape} {cond.shape} {peaks.shape} != {shape}")
    occ = np.zeros(2)
    if sc["csd"] and v1 is not None:
        lo, hi = C.ref("toy_zero").total_interval(np.array([[v1, v2]], float))
        if lo[0] != hi[0]:
            return
        occ = C.ref("toy_zero").occ(np.array([[v1, v2]], float), int(lo[0]))[0]
    if sc["sensor"] == "deformed":
        return                                      # values of deformed scans: C24
    m = S.ScanRef(c)
    g = refs.grid(a, b, res)
    vp = (0., 0.) if v1 is None else (v1, v2)
    want = m.response(g, vp, np.broadcast_to(occ, g.shape))[0]
    ctx.check(np.allclose(sig, want, rtol=1e-6, atol=1e-9), "occupation", lambda: f"scan is not that of the sensor at occupation {occ} and "
              f"plunger voltages {vp}: max deviation {np.abs(sig - want).max()} ({info()})")
    ctx.sample = {"scenario": sc}
