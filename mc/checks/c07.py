"""C07: measure() accepts and refuses exactly the documented requests."""
import numpy as np
from simcats import Simulation
from mc import configs as C, refs, sensors as S
PROPERTY = "C07"
BOUNDS = ("deviation-bounded exhaustive: all requests that differ from a plain valid request in at most 3 (quick) or 4 (thorough) of 13 "
          "dimensions: presence of the structure, sensor kind, four voltage limits (missing, wider, exact, tight at either end, ending or starting exactly at a fixed voltage, list "
          "form), two sensor voltages (missing, inside, on either limit, outside), two sweep ranges (ascending, descending, fixed, wrong "
          "length), resolution form (int, one, two, three entries, <= 1), occupation distortion-free")
ASSUMPTIONS = ["resolutions are Python ints or numpy arrays, ranges are numpy arrays (documented types)"]
R1, R2 = (-16.3, -14.1), (-15.7, -13.2)   # sweep window of the toy structure
E = 4e-15      # the smallest step of the voltages below
_SC = None


def lims(r):
    return [("none", None), ("wide", [r[0] - 1, r[1] + 1]), ("exact", list(r)), ("low-cut", [r[0] + E, r[1] + 1]),
            ("high-cut", [r[0] - 1, r[1] - E]), ("inside", [r[0] + E, r[1] - E]), ("below", [r[0] - 2, r[0] - 1]), ("above", [r[1] + 1, r[1] + 2]),
            ("ends-at", [r[0] - 1, r[0]]), ("starts-at", [r[1], r[1] + 1])]


SL = [("none", None), ("lim", [-.5, -.25]), ("other", [-3., -2.]), ("zero-lower", [0., .5])]
SV = [("none", None), ("in", -.3), ("lower", -.5), ("upper", -.25), ("below", -.5 - E), ("above", -.25 + E), ("zero", 0.), ("int0", 0), ("np", np.float64(-.3)), ("minus", -1)]
RES = [("2d", [3, 2]), ("int", 3), ("one", [4]), ("int1", 1), ("one1", [1]), ("three", [3, 3, 3]), ("1x", [1, 3]), ("x1", [3, 1]),
       ("neg", [-2, 3]), ("2x2", [2, 2])]
RG = ["asc", "desc", "fixed", "len1", "len3"]


def scenarios(tier):
    for csd in (True, False):
        for sensor in ("generic", "scan"):
            for res in range(len(RES)):
                for g1 in RG:
                    for form in ("array", "list"):
                        yield dict(csd=csd, sensor=sensor, res=res, g1=g1, form=form)


def rng(r, kind):
    return {"asc": [r[0], r[1]], "desc": [r[1], r[0]], "fixed": [r[0], r[0]], "len1": [r[0]], "len3": [r[0], r[1], r[1]]}[kind]


def snapshot(sim):
    return repr([sim.volt_limits_g1, sim.volt_limits_g2, sim.volt_limits_sensor_g1, sim.volt_limits_sensor_g2])


def run(sc, ctx):
    dev0 = (not sc["csd"]) + (sc["sensor"] != "generic") + (sc["res"] != 0) + (sc["g1"] != "asc") + (sc["form"] == "list")
    bound = (3 if ctx.tier == "quick" else 4)
    if dev0 > bound:
        return
    ctx.bound = bound - dev0
    g2 = ctx.choose("g2", RG)
    l1 = ctx.choose("lim1", lims(R1))
    l2 = ctx.choose("lim2", lims(R2))
    s1 = ctx.choose("slim1", SL)
    s2 = ctx.choose("slim2", SL)
    v1 = ctx.choose("v1", SV)
    v2 = ctx.choose("v2", SV)
    v1, v2 = v1[1], v2[1]
    res = RES[sc["res"]][1]
    a, b = rng(R1, sc["g1"]), rng(R2, g2)
    mk = (lambda x: None if x is None else (np.array(x) if sc["form"] == "array" else list(x)))
    global _SC
    if _SC is None:
        _SC = S.cfg("toy_rise")
    sim = Simulation(volt_limits_g1=mk(l1[1]), volt_limits_g2=mk(l2[1]), volt_limits_sensor_g1=mk(s1[1]), volt_limits_sensor_g2=mk(s2[1]),
                     ideal_csd_config=C.structure("toy_nc") if sc["csd"] else None,
                     sensor=S.build_generic(S.GENERIC["one"]) if sc["sensor"] == "generic" else S.build(_SC))

    def out(r, l):
        return l is not None and (min(r) < l[0] or max(r) > l[1])
    two = np.ndim(res) and len(res) == 2
    reasons = [k for k, c in (("no-structure", not sc["csd"]), ("range-length", len(a) != 2 or len(b) != 2), ("g1-limit", out(a, l1[1])),
                              ("g2-limit", out(b, l2[1])), ("sensor-limit", v1 is not None and out([v1], s1[1]) or v2 is not None and out([v2], s2[1])),
                              ("one-sensor-voltage", (v1 is None) != (v2 is None)), ("resolutions", np.ndim(res) and len(res) > 2),
                              ("fixed-2d", two and (a[0] == a[-1] or b[0] == b[-1])), ("small-2d", two and min(res) < 2)) if c]
    before = snapshot(sim)
    ctx.op()
    try:
        sig, occ, lab, _ = sim.measure(np.array(a), np.array(b), v1, v2, np.array(res) if np.ndim(res) else res)
        refused = False
    except ValueError as e:
        refused, msg = True, str(e)
    ctx.state(sc["sensor"], refused, reasons)
    if reasons:
        ctx.check(refused, "accepted:" + "+".join(reasons[:2]), lambda: f"request accepted although {reasons}: {a} {b} {res} {v1} {v2} limits {l1} {l2} {s1} {s2}")
    else:
        ctx.check(not refused, "refused", lambda: f"valid request refused ({msg[:200]}): {a} {b} {res} {v1} {v2} limits {l1} {l2} {s1} {s2}")
        shape = (res[1], res[0]) if two else (int(np.ravel(res)[0]),)
        ctx.check(sig.shape == shape and occ.shape == shape + (2,) and lab.shape == shape, "shape", lambda: f"{sig.shape} {occ.shape} {shape}")
    ctx.check(snapshot(sim) == before, "limits-changed", "the request changed the voltage limits")
    if refused and sc["csd"]:
        # the refused request leaves the simulation unchanged: it measures like a fresh one
        sim.volt_limits_g1 = sim.volt_limits_g2 = None
        fresh = Simulation(ideal_csd_config=C.structure("toy_nc"), sensor=S.build_generic(S.GENERIC["one"]) if sc["sensor"] == "generic" else S.build(_SC))
        x = sim.measure(np.array(R1), np.array(R2), resolution=np.array([2, 2]))[:3]
        y = fresh.measure(np.array(R1), np.array(R2), resolution=np.array([2, 2]))[:3]
        ctx.check(all(np.array_equal(p, q) for p, q in zip(x, y)), "refused-left-trace", "a refused request changed a later measurement")
    ctx.sample = {"scenario": sc, "reasons": reasons}
