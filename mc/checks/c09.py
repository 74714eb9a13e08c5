"""C09: configuration is private, validated and snapshotted (histories of assignments, mutations, measurements)."""
import numpy as np
from simcats import Simulation
from mc import configs as C, sensors as S
from mc.stubs import Occ, Pot, Resp, pub
PROPERTY = "C09"
BOUNDS = ("all histories of depth 2 (thorough: 3) over 64 operations (for each of the nine configuration attributes: valid values, None, "
          "invalid values, mutation of the caller's object, mutation through the getter; CSD and sensor-scan measurements; mutation of returned "
          "metadata) and all histories of depth 3 (thorough: 4) over the operations of one attribute plus measurements, from a fully configured simulation; "
          "after every operation all getters and after every history a measurement are compared with the model")
ASSUMPTIONS = ["public attributes and measured data are the observable configuration"]
R1, R2 = [-14.1, -10.3], [-11.4, -13.3]
LIM = {"volt_limits_g1": [-20., -10.], "volt_limits_g2": [-20., -10.], "volt_limits_sensor_g1": [-1., .5], "volt_limits_sensor_g2": [-1., .6]}
DIST = {"occupation_distortions": Occ, "sensor_potential_distortions": Pot, "sensor_response_distortions": Resp}
PROPS = [*LIM, "ideal_csd_config", "sensor", *DIST]


def toy_sensor():
    c = S.cfg("toy")
    c["ag"] = (np.array(c["ag"]) / 100).tolist()
    return S.build(c)


def value(prop, v):
    """a new object"""
    if v == "none":
        return None
    if prop in LIM:
        a, b = LIM[prop]
        return [np.array([a, b]), [a - 1, b + 1]][v]
    if prop == "ideal_csd_config":
        return C.structure(["toy_nc", "toy"][v])
    if prop == "sensor":
        return [toy_sensor, lambda: S.build_generic(S.GENERIC["gauss"])][v]()
    return [[DIST[prop](.25)], [DIST[prop](.125), DIST[prop](-.5)]][v]


def bad(prop):
    if prop in LIM:
        return [np.array([1., 2., 3.]), 1.0, "ab", [0.]]
    if prop in DIST:
        other = {Occ: Pot, Pot: Resp, Resp: Occ}[DIST[prop]]
        return [[object()], [DIST[prop](1.), object()], [other(1.)]]
    return [object(), "x", Occ(1.)]


def mutate(prop, o):
    """in-place change of a configuration object; False if there is nothing to change"""
    if o is None:
        return False
    if prop in LIM:
        o[0] -= 0.5
    elif prop == "ideal_csd_config":
        o.tct_params[0][4] *= 1.01
        o.rotation = o.rotation + 0.01
    elif prop == "sensor":
        o.alpha_gate.reshape(-1)[0] += 2
        if o.sensor_peak_function:
            o.sensor_peak_function[0].height += 0.5
        o.offset_mu_sens = o.offset_mu_sens + 0.25
    else:
        o[0].shift += 1.0
    return True


def ops_for(p):
    out = [["set", p, 0], ["set", p, 1], ["set", p, "none"]] + [["bad", p, i] for i in range(len(bad(p)))]
    return out + [["caller", p], ["getter", p]]


MEAS = [["csd2"], ["csd1"], ["scan2"], ["scan1"], ["meta"]]


def scenarios(tier):
    th = tier == "thorough"
    allops = [o for p in PROPS for o in ops_for(p)] + MEAS
    for o in allops:
        yield dict(mode="all", first=o, depth=3 if th else 2)
    for p in PROPS:
        for o in ops_for(p) + MEAS:
            yield dict(mode=p, first=o, depth=4 if th else 3)


class Model:
    pass


def request(kind):
    if kind[:3] == "csd":
        return (np.array(R1), np.array(R2), -.45, -.35, np.array([4, 3]) if kind[3] == "2" else 4)
    return (np.array([-.9537, .0531]), np.array([.1071, -.8519]), -11.2, -10.5, np.array([4, 3]) if kind[4] == "2" else np.array([4]))


KEYS = {"csd": ("sweep_range_g1", "sweep_range_g2", "volt_sensor_g1", "volt_sensor_g2", "resolution"),
        "sca": ("sweep_range_sensor_g1", "sweep_range_sensor_g2", "volt_g1", "volt_g2", "resolution")}


_FRESH = {}          # measurements of fresh simulations by configuration (one entry per configuration the histories reach)


def measure(sim, kind, req):
    f = sim.measure if kind[:3] == "csd" else sim.measure_sensor_scan
    return f(*req)


def run(sc, ctx):
    callers = {p: value(p, 0) for p in PROPS}
    model = {p: value(p, 0) for p in PROPS}
    sim = Simulation(**callers)
    metas = []
    mpub = {p: pub(model[p]) for p in PROPS}
    menu = ([o for p in PROPS for o in ops_for(p)] if sc["mode"] == "all" else ops_for(sc["mode"])) + MEAS

    def compare(where):
        for p in PROPS:
            got, want = getattr(sim, p), model[p]
            if p == "sensor" and want is None:
                ctx.check(type(got).__name__ == "SensorGeneric", "no-default-sensor", f"sensor is {type(got)}")
                model[p] = value_default()
                mpub[p] = pub(model[p])
            ctx.check(pub(got) == mpub[p], f"config-{p}", lambda: f"{where}: {p} is not what was configured: {pub(got)} instead of {mpub[p]}"[:900])

    def check_meta(kind, req, meta, conf, where):
        for k, v in zip(KEYS[kind[:3]], req):
            ctx.check(k in meta, "metadata-missing", f"{k} missing in metadata")
            ctx.check(np.array_equal(np.ravel(np.array(meta[k], float)), np.ravel(np.array(v, float))), f"metadata-{k}", lambda: f"{where}: metadata {k} = {meta[k]}, requested {v}")
        for p in PROPS:
            ctx.check(pub(meta[p]) == conf[p], f"metadata-{p}", lambda: f"{where}: metadata {p} = {pub(meta[p])}, configured {conf[p]}"[:900])

    def do_measure(kind, where):
        req = request(kind)
        copy = [np.array(x) if isinstance(x, np.ndarray) else x for x in req]
        possible = True
        if kind[:3] == "csd":
            possible = model["ideal_csd_config"] is not None
        else:
            possible = type(model["sensor"]).__name__.startswith("SensorScan")
        try:
            out = measure(sim, kind, req)
        except ValueError as e:
            ctx.check(not possible, "refused", f"{where}: {e}")
            return
        ctx.check(possible, "accepted", f"{where}: measurement without structure / scannable sensor")
        key = kind + repr(mpub)
        if key not in _FRESH:
            _FRESH[key] = measure(Simulation(**{p: model[p] for p in PROPS}), kind, request(kind))[:3]
        ref = _FRESH[key]
        for n, x, y in zip(("signal", "second", "third"), out, ref):
            ctx.check(np.array_equal(x, y), f"measured-{n}", lambda: f"{where}: {kind}: {n} differs from a simulation created with the model configuration")
        ctx.check(all(np.array_equal(x, y) for x, y in zip(req, copy)), "request-modified", f"{where}: the measurement modified its arguments")
        conf = dict(mpub)
        check_meta(kind, req, out[3], conf, where)
        for x in req:
            if isinstance(x, np.ndarray):
                x[...] = x + 1                  # the caller goes on using its arrays
        check_meta(kind, copy, out[3], conf, where + " (after the caller changed its request arrays)")
        metas.append((kind, copy, out[3], conf, where))

    hist = []
    for step in range(sc["depth"]):
        op = sc["first"] if step == 0 else ctx.choose(f"op{step}", menu)
        hist.append(op)
        where = " ; ".join("/".join(map(str, o)) for o in hist)
        ctx.op()
        if op[0] == "set":
            callers[op[1]] = value(op[1], op[2])
            setattr(sim, op[1], callers[op[1]])
            model[op[1]] = value(op[1], op[2])
            mpub[op[1]] = pub(model[op[1]])
        elif op[0] == "bad":
            try:
                setattr(sim, op[1], bad(op[1])[op[2]])
                ctx.fail(f"invalid-accepted-{op[1]}", f"{where}: invalid value accepted")
            except ValueError:
                pass
        elif op[0] == "caller":
            mutate(op[1], callers[op[1]])
        elif op[0] == "getter":
            mutate(op[1], getattr(sim, op[1]))
            mutate(op[1], model[op[1]])
            mpub[op[1]] = pub(model[op[1]])
        elif op[0] == "meta":
            if metas:
                kind, req, meta, conf, w = metas.pop()
                for p in PROPS:
                    mutate(p, meta[p])
                for k in KEYS[kind[:3]][:2]:
                    meta[k][0] += 1
        else:
            do_measure(op[0], where)
        compare(where)
        ctx.state(step, [repr(mpub[p]) for p in PROPS])
    for kind in ("csd2", "scan1"):
        do_measure(kind, where + " ; final " + kind)
    compare(where + " ; after final measurement")
    for kind, req, meta, conf, w in metas:
        check_meta(kind, req, meta, conf, f"{where}: metadata of the earlier measurement after '{w}'")
    ctx.sample = {"history": hist}


def value_default():
    from simcats.sensor import SensorGeneric
    return SensorGeneric()
