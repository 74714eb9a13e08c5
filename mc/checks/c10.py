"""C10: without distortions a measurement is a function of configuration and request: no history dependence."""
import numpy as np
from simcats import Simulation
from simcats.ideal_csd import IdealCSDGeometric
from mc import configs as C, sensors as S
from mc.engine import Prune
from mc.pristine import Pristine
from mc.support import words
PROPERTY = "C10"
BOUNDS = ("all histories of length 2 (thorough: 3) over 24 operations (2D/1D/single CSDs with and without sensor voltages, sensor scans of different "
          "shape, window and plunger voltages, refused requests, configuration changes (by assignment and in place) that are reverted, measurements of a second simulation built "
          "from the same objects), followed by each of 7 final measurements; 4 sensor configurations incl. deformed peaks and final rise; "
          "results compared bit by bit with a fresh simulation; long histories of one simulation containing every sequence of 3 (thorough: 4) consecutive measurements of those, 20 equal ones and 4 alternations of each pair; changes that stay: all sequences of 2 of 15 to 39 changes of one attribute (curves in place and by assignment, "
          "rotation, lookup, CDF; offsets, lever arms, peaks, barriers, final rise, deformation parameters) and other operations (written results, other requests, other objects, "
          "refusals) with a probe measurement after each, for a structure alone (5 probes) and simulations with 3 kinds of sensors (2 to 5 probes), compared bit by bit with an "
          "object built from the present description in a process that executed nothing else (quick: each pair of changes in one order)")
CONF = {"generic": None, "toy_rise": ("toy_rise", None), "deformed": ("toy_rise", "mixed"), "unsorted": ("toy_unsorted", "circ_neg_small")}
W1 = ([-14.13, -10.31], [-13.27, -11.41])
W2 = ([-11.9, -13.7], [-14.9, -10.6])
SW1 = ([-.9537, .1531], [.2071, -.8519])
SW2 = ([-.5093, .1137], [-.6171, .0531])
VP1, VP2 = (-11.2, -10.5), (-13.3, -10.9)

M = {  # final measurements: kind, args
    "csd2": ("c", W1, (None, None), [4, 3]), "csd2v": ("c", W2, (-.45, -.35), [3, 5]), "csd1": ("c", W1, (-.2, -.1), 5), "csdpix": ("c", ([-11., -11.], [-10.8, -10.8]), (None, None), 1),
    "scan2": ("s", SW1, VP1, [5, 4]), "scan2b": ("s", SW2, VP2, [4, 5]), "scan2n": ("s", SW2, (None, None), [5, 4]), "scan1": ("s", SW1, VP2, 7),
    "scanpix": ("s", ([-.3, -.3], [-.25, -.25]), VP1, 1)}
OPS = list(M) + ["bad-range", "bad-limit", "bad-res", "bad-scan-range", "bad-scan-res", "bad-scan-one", "offset", "limits", "peaks", "csd-config",
                 "csd-inplace", "arms", "other-csd", "other-scan", "other-config"]


# ------------------------------------------------------------------ changes that stay: a measurement depends on the present configuration only
# a configuration is described by a plain dict; CSD[...] / SENS[...]: name -> (change the description, change the live object)
CW = ([-14.13, -10.31], [-13.27, -11.41])
CP = {"w": (CW, [9, 8]), "v": (([-11.9, -14.7], [-14.9, -10.6]), [8, 9]), "l": (([-14.13, -10.31], [-12.27, -12.27]), 40), "d": (([-10.13, -14.31], [-14.4, -9.2]), 30),
      "p": (([-11.3, -11.3], [-12.1, -12.1]), 1)}


def _par(k, ids, d):
    def desc(c):
        for i in ids:
            c["tct_params"][k][i] += d

    def live(s):
        s.tct_params[k][list(ids)] += d
    return desc, live


def _set(name, v):
    return lambda c: c.__setitem__(name, v), lambda s: setattr(s, name, v)


CSD = {"rotation": _set("rotation", -.65), "lut-none": _set("lut_entries", None), "lut": _set("lut_entries", 90), "cauchy": _set("cdf_type", "cauchy"), "gamma": _set("cdf_gamma_factor", 2.5),
       "curve-up": _par(1, (5, 7), .35), "curve-right": _par(2, (4, 6), .8), "slope": _par(1, (2,), .01), "arc": _par(2, (7,), -.05),
       "curves": (lambda c: c.__setitem__("tct_params", [p[:] for p in c["tct_params"][1:]]), lambda s: setattr(s, "tct_params", [np.array(p) for p in s.tct_params[1:]])),
       "curve-new": (lambda c: c["tct_params"].__setitem__(0, [x + (.3 if i in (5, 7) else 0) for i, x in enumerate(c["tct_params"][0])]),
                     lambda s: s.tct_params.__setitem__(0, s.tct_params[0] + np.array([0, 0, 0, 0, 0, .3, 0, .3])))}


def csd_desc():
    d = dict(C.STRUCT["toy"])
    d["tct_params"] = [p.tolist() for p in d["tct_params"]]
    return d


def csd_build(d):
    return IdealCSDGeometric(**{**d, "tct_params": [np.array(p) for p in d["tct_params"]]})


def csd_probe(s, p):
    (a, b), res = CP[p]
    return s.get_csd_data(np.array(a), np.array(b), np.array(res) if np.ndim(res) else res)


def _arr(key, attr, f):
    """assign a new array / number"""
    def desc(c):
        c[key] = f(np.array(c[key], float)).tolist()

    def live(s):
        v = f(np.array(getattr(s, attr), float))
        setattr(s, attr, v if np.ndim(v) else float(v))
    return desc, live


def _inplace(key, attr, i, v):
    def desc(c):
        a = np.array(c[key], float)
        a[i] *= v
        c[key] = a.tolist()

    def live(s):
        getattr(s, attr)[i] *= v
    return desc, live


def _pk(i, f, names, v):
    def desc(c):
        q = list(c["peaks"][i])
        q[f] = v
        c["peaks"][i] = q

    def live(s):
        setattr(s.sensor_peak_function[i], names if isinstance(names, str) else names[s.sensor_peak_function[i].__class__.__name__[10:]], v)
    return desc, live


W_ = {"Gaussian": "sigma", "Lorentzian": "gamma"}
NEWPK = [("gauss", -0.16, 0.004, 0.15, 0.0), ("lorentz", -0.12, 0.003, 0.21, 0.02), ("lorentz", -0.09, 0.006, 0.3, 0.0)]
GEN = {"offset": _arr("off", "offset_mu_sens", lambda x: x + .13), "gate": _arr("ag", "alpha_gate", lambda x: x * 1.2), "gate-in": _inplace("ag", "alpha_gate", 0, .7),
       "dot": _arr("ad", "alpha_dot", lambda x: x * .8), "dot-in": _inplace("ad", "alpha_dot", 1, 1.6), "mu0": _pk(0, 1, "mu0", -.44), "width": _pk(1, 2, W_, .17),
       "height": _pk(2, 3, "height", .7), "peak-offset": _pk(0, 4, "offset", .21),
       "peaks": (lambda c: c.__setitem__("peaks", [list(p) for p in NEWPK]), lambda s: setattr(s, "sensor_peak_function", [S.peak(*p) for p in NEWPK])),
       "no-peaks": (lambda c: c.__setitem__("peaks", None), lambda s: setattr(s, "sensor_peak_function", None))}


def _bar(i, name, v):
    return (lambda c: c["barriers"][i].__setitem__(name, v)), (lambda s: setattr(s.barrier_functions[i], name, v))


def _rise(name, v):
    return (lambda c: c["rise"].__setitem__(name, v)), (lambda s: setattr(s.final_rise, name, v))


def _swap(s):
    s.barrier_functions = tuple(s.barrier_functions[::-1])


SCN = {"offset": _arr("off", "offset_mu_sens", lambda x: x + np.array([.002, .01, -.02])), "offset-in": _inplace("off", "offset_mu_sens", 1, 1.9),
       "gate": _arr("ag", "alpha_gate", lambda x: x * 1.1), "gate-in": _inplace("ag", "alpha_gate", 0, .7), "dot": _arr("ad", "alpha_dot", lambda x: x * .8),
       "dot-in": _inplace("ad", "alpha_dot", 2, 1.4), "lever": _arr("asg", "alpha_sensor_gate", lambda x: x * 1.03), "lever-in": _inplace("asg", "alpha_sensor_gate", (0, 1), 1.05),
       "lever-bar": _inplace("asg", "alpha_sensor_gate", (1, 1), 1.3),
       "mu0": _pk(0, 1, "mu0", -.144), "width": _pk(1, 2, W_, .007), "height": _pk(2, 3, "height", .7), "peak-offset": _pk(0, 4, "offset", .021),
       "peaks": (lambda c: c.__setitem__("peaks", [list(p) for p in NEWPK]), lambda s: setattr(s, "sensor_peak_function", [S.peak(*p) for p in NEWPK])),
       "pinch": _bar(0, "pinch_off_percentage", .04), "conductive": _bar(1, "fully_conductive_percentage", .8), "bar-offset": _bar(1, "offset", -.55), "bar-growth": _bar(0, "growth_rate", 16),
       "bar-height": _bar(0, "asymptote_right", .35), "bar-asym": _bar(1, "asymmetry", .8), "bar-shape": _bar(0, "shape_factor", 1.4),
       "bar-swap": (lambda c: c["barriers"].reverse(), _swap),
       "rise-mu0": _rise("mu0", .05), "rise-growth": _rise("growth_rate", 150), "rise-height": _rise("asymptote_right", .26), "rise-cond": _rise("fully_conductive_percentage", .97),
       "rise-asym": _rise("asymmetry", .7), "rise-none": (lambda c: c.__setitem__("rise", None), lambda s: setattr(s, "final_rise", None)),
       "radius": (lambda c: c["deform"].__setitem__("2", ["circle", .07]), lambda s: setattr(s.sensor_peak_deformations[2], "radius", .07)),
       "angle": (lambda c: c["deform"].__setitem__("0", ["linear", 1.3]), lambda s: setattr(s.sensor_peak_deformations[0], "angle", 1.3))}


def sens_desc(name):
    if name == "generic":
        return {**S.GENERIC["gauss"], "peaks": [list(p) for p in S.GENERIC["gauss"]["peaks"]]}
    c = S.cfg("toy_rise", "mixed" if name == "deformed" else None)
    c["ag"] = (np.array(c["ag"]) / 100).tolist()
    if name != "deformed":
        c["deform"] = {}
    c["deform"] = {str(k): list(v) for k, v in c["deform"].items()}
    c["peaks"] = [list(p) for p in c["peaks"]]
    return c


def sens_build(name, d):
    if name == "generic":
        return S.build_generic(d)
    return S.build({**d, "deform": {int(k): v for k, v in d["deform"].items()}})


SP = {"generic": ["csd2v", "csd1", "csdpix"], "scan": ["csd2v", "csd1", "scan2", "scan1", "scanpix"], "deformed": ["scan2", "scan2b", "scan1"]}


QUICK_SKIP = [("scan", "csd1"), ("scan", "scanpix"), ("deformed", "scan2b")]


def changes(name):
    """operation -> (part, change the description, change the live object)"""
    if name == "csd":
        return {o: ("csd", *f) for o, f in CSD.items()}
    d = {"csd-" + o: ("csd", *CSD[o]) for o in ("rotation", "cauchy", "curve-up", "slope", "curves", "curve-new")}
    ops = GEN if name == "generic" else {o: f for o, f in SCN.items() if not (name == "deformed" and "rise" in o) and not (name == "scan" and o in ("radius", "angle"))}
    return {**d, **{o: ("sens", *f) for o, f in ops.items()}}


def build_all(name, d):
    csd = csd_build(d["csd"])
    if name == "csd":
        return csd
    return Simulation(ideal_csd_config=csd, sensor=sens_build(name, d["sens"]), volt_limits_g1=np.array([-20., -10.]), volt_limits_sensor_g2=np.array([-1., 1.]))


def probe(obj, name, p):
    return csd_probe(obj, p) if name == "csd" else meas(obj, p)


PRISTINE = Pristine(lambda name, d, p: [np.array(x) for x in probe(build_all(name, d), name, p)])


def run_change(sc, ctx):
    name = sc["c"]
    PRISTINE.start()
    probes = list(CP) if name == "csd" else SP[name]
    ops = changes(name)
    extra = ["again", "write-result", "other-probe", "other-object"] + (["refused"] if name != "csd" else [])
    d = {"csd": csd_desc()}
    if name != "csd":
        d["sens"] = sens_desc(name)
    obj = build_all(name, d)
    hist, last = [], []

    def look(p):
        ctx.op()
        got = probe(obj, name, p)
        ref = PRISTINE(name, d, p)
        hist.append(p)
        for i, (x, y) in enumerate(zip(got, ref)):
            ctx.check(np.shape(x) == y.shape and np.array_equal(x, y), f"{name}-present-configuration",
                      lambda: f"after {hist}: result {i} differs from a fresh object with the present configuration (largest deviation {np.abs(np.array(x, float) - y).max():.4g}, {int((x != y).sum())} entries)")
        last[:] = [got]
        ctx.state(name, p, *got)

    p = sc["p"]
    look(p)
    done = set()
    for i in range(sc["depth"]):
        o = sc["first"] if i == 0 else ctx.choose(f"op{i}", list(ops) + extra)
        if o in done and o in ops or ctx.tier == "quick" and i and o in ops and sc["first"] in ops and list(ops).index(o) < list(ops).index(sc["first"]):
            raise Prune()       # (quick: two changes in one order only)
        done.add(o)
        hist.append(o)
        ctx.op()
        if o in ops:
            part, desc, live = ops[o]
            try:
                desc(d[part])
            except (TypeError, AttributeError):      # concerns a part that was removed before
                raise Prune()
            live(obj if name == "csd" else obj.ideal_csd_config if part == "csd" else obj.sensor)
        elif o == "write-result":
            for x in last[0]:
                if isinstance(x, np.ndarray):
                    x += 1
        elif o == "other-probe":
            look(probes[(probes.index(p) + 1) % len(probes)])
        elif o == "other-object":       # another object with the original configuration, and one with a different one
            e = {"csd": csd_desc()}
            if name != "csd":
                e["sens"] = sens_desc(name)
            probe(build_all(name, e), name, p)
            e["csd"]["rotation"] = -.9
            probe(build_all(name, e), name, p)
        elif o == "refused":
            refuse(ctx, lambda: obj.measure(np.array([-21., -12.]), np.array(W1[1]), resolution=np.array([3, 3])))
        q = p if ctx.tier == "quick" else ctx.choose(f"probe{i}", [p] + [x for x in probes if x != p])
        look(q)
    ctx.sample = {"history": hist}


def scenarios(tier):
    for c in ("csd", "generic", "scan", "deformed"):
        for p in CP if c == "csd" else [x for x in SP[c] if tier == "thorough" or (c, x) not in QUICK_SKIP]:
            for o in list(changes(c)) + ["again", "write-result", "other-probe", "other-object"] + (["refused"] if c != "csd" else []):
                yield dict(k="change", c=c, p=p, first=o, depth=2)
    for c in CONF:
        n = len(M) if CONF[c] is not None else 4
        for start in range(n):
            yield dict(k="walk", c=c, start=start, order=4 if tier == "thorough" else 3)
        for o in OPS:
            if tier == "thorough":
                for o2 in OPS:
                    yield dict(c=c, first=[o, o2], depth=3)
            else:
                yield dict(c=c, first=[o], depth=2)


_OBJ = {}


def objects(name):
    if name not in _OBJ:
        if CONF[name] is None:
            sens = S.build_generic(S.GENERIC["gauss"])
        else:
            c = S.cfg(*CONF[name])
            c["ag"] = (np.array(c["ag"]) / 100).tolist()
            sens = S.build(c)
        _OBJ[name] = (C.structure("toy_nc"), sens)
    return _OBJ[name]


def meas(sim, m):
    k, (a, b), v, res = M[m]
    f = sim.measure if k == "c" else sim.measure_sensor_scan
    return f(np.array(a), np.array(b), v[0], v[1], np.array(res) if np.ndim(res) else res)[:3]


def refuse(ctx, f):
    try:
        f()
    except ValueError:
        return
    ctx.fail("accepted", "an invalid request was accepted")


_REF = {}


def run_walk(sc, ctx):
    """one simulation, one long history that contains every sequence of `order` consecutive measurements, and long repetitions"""
    name = sc["c"]
    csd, sens = objects(name)
    new = lambda: Simulation(ideal_csd_config=csd, sensor=sens, volt_limits_g1=np.array([-20., -10.]), volt_limits_sensor_g2=np.array([-1., 1.]))
    ok = [m for m in M if CONF[name] is not None or M[m][0] == "c"]
    seq = words(len(ok), sc["order"])
    share = len(seq) // len(ok)
    i = sc["start"] * share
    part = (seq + seq)[i:i + share + sc["order"] - 1]
    part += [sc["start"]] * 20 + [j for k in range(len(ok)) for j in [sc["start"], k] * 4]
    ref = {m: meas(new(), m) for m in ok}
    sim = new()
    for n, j in enumerate(part):
        m = ok[j]
        got = meas(sim, m)
        ctx.op()
        ctx.check(all(np.shape(x) == np.shape(y) and np.array_equal(x, y) for x, y in zip(got, ref[m])), f"walk-{m}",
                  lambda: f"measurement {n} ({m}) after {[ok[k] for k in part[max(0, n - 6):n]]} differs from a fresh simulation")
    ctx.state(name, part, *[ref[ok[j]][0] for j in part[-3:]])
    ctx.sample = {"measurements": len(part)}


def run(sc, ctx):
    if sc.get("k") == "change":
        return run_change(sc, ctx)
    if sc.get("k") == "walk":
        return run_walk(sc, ctx)
    PRISTINE.start()
    name = sc["c"]
    csd, sens = objects(name)
    scan = CONF[name] is not None
    new = lambda: Simulation(ideal_csd_config=csd, sensor=sens, volt_limits_g1=np.array([-20., -10.]), volt_limits_sensor_g2=np.array([-1., 1.]))
    ok = [m for m in M if scan or M[m][0] == "c"]
    if name not in _REF:        # computed by fresh simulations, one per measurement, before anything else ran on these objects
        _REF[name] = {m: meas(new(), m) for m in ok}
    ref = _REF[name]
    sim, other = new(), new()

    def op(o):
        ctx.op()
        if o in M:
            if o in ok:
                meas(sim, o)
            else:
                refuse(ctx, lambda: meas(sim, o))
        elif o == "bad-range":
            refuse(ctx, lambda: sim.measure(np.array([1.]), np.array(W1[1]), resolution=np.array([3, 3])))
        elif o == "bad-limit":
            refuse(ctx, lambda: sim.measure(np.array([-21., -12.]), np.array(W1[1]), resolution=np.array([3, 3])))
        elif o == "bad-res":
            refuse(ctx, lambda: sim.measure(np.array(W1[0]), np.array(W1[1]), resolution=np.array([1, 3])))
        elif o == "bad-scan-range":
            refuse(ctx, lambda: sim.measure_sensor_scan(np.array(SW1[0]), np.array([-2., 0.]), *VP1, np.array([3, 3])))
        elif o == "bad-scan-res":
            refuse(ctx, lambda: sim.measure_sensor_scan(np.array(SW1[0]), np.array(SW1[1]), *VP1, np.array([3, 3, 3])))
        elif o == "bad-scan-one":
            refuse(ctx, lambda: sim.measure_sensor_scan(np.array(SW1[0]), np.array(SW1[1]), -15., None, np.array([3, 3])))
        elif o == "offset":
            old = np.copy(sim.sensor.offset_mu_sens) if scan else sim.sensor.offset_mu_sens
            sim.sensor.offset_mu_sens = old + .25
            meas(sim, "scan2" if scan else "csd2")
            sim.sensor.offset_mu_sens = old
        elif o == "limits":
            old = sim.volt_limits_g1
            sim.volt_limits_g1 = np.array([-14.2, -10.2])
            meas(sim, "csd2")
            sim.volt_limits_g1 = old
        elif o == "peaks":
            p = sim.sensor.sensor_peak_function
            h = p[0].height
            p[0].height = h * 3
            meas(sim, "csd1")
            p[0].height = h
        elif o == "csd-config":
            sim.ideal_csd_config = C.structure("toy")
            for m in ("csd1", "scan1", "scan2")[:3 if scan else 1]:
                meas(sim, m)
            sim.ideal_csd_config = csd
        elif o == "csd-inplace":
            s = sim.ideal_csd_config
            r, q = s.rotation, np.copy(s.tct_params[1])
            s.rotation = r + .1
            s.tct_params[1][[5, 7]] += 2.
            for m in ("csd2", "csdpix", "scan2b", "scan2")[:4 if scan else 2]:
                meas(sim, m)
            s.rotation = r
            s.tct_params[1][:] = q
        elif o == "arms":
            for a, m in (("alpha_dot", "csd2"), ("alpha_gate", "csd2v" if scan else "csd1")):
                x = getattr(sim.sensor, a)
                old = np.copy(x)
                x *= 1.5
                meas(sim, m)
                x[...] = old
        elif o == "other-csd":
            meas(other, "csd2v")
        elif o == "other-scan":
            if scan:
                meas(other, "scan2b")
        elif o == "other-config":
            other.sensor.offset_mu_sens = other.sensor.offset_mu_sens + 1.
            other.ideal_csd_config.rotation = -.6
            other.sensor.alpha_gate *= 2
            other.sensor.sensor_peak_function[0].mu0 += .1

    hist = []
    for i in range(sc["depth"]):
        o = sc["first"][i] if i < len(sc["first"]) else ctx.choose(f"op{i}", OPS)
        hist.append(o)
        op(o)
    for m in ok:
        got = meas(sim, m)
        ctx.op()
        ctx.state(m, *got)
        for n, x, y in zip(("signal", "second", "third"), got, ref[m]):
            ctx.check(x.shape == y.shape and np.array_equal(x, y), f"{m}-{n}", lambda: f"after {hist}: {m} {n} differs from a fresh simulation ({int((x != y).sum())} entries)")
    fresh = new()
    got = meas(fresh, ok[-1])
    ctx.check(np.array_equal(got[0], ref[ok[-1]][0]), "shared-objects", f"after {hist}: a new simulation from the same configuration objects measures differently")
    ctx.sample = {"history": hist, "final": ok}
