"""C20: SensorGeneric potential and peak sum."""
import itertools
import numpy as np
from simcats import Simulation
from simcats.sensor import SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian
from mc import configs as C, refs, sensors as S
from mc.stubs import pub
from mc.support import elementwise
PROPERTY = "C20"
BOUNDS = ("potential: all occupation pairs from a grid x voltage ranges (asc/desc/fixed) x shapes x lever arms x offsets; response: all ordered peak "
          "lists of length 0-2 (thorough 3), some of length 5, 7, 40, over 7 peaks x a grid of potentials incl. centres; peak laws for all parameter combinations; all "
          "setter validations and aliasing; the responses of arrays of every size (to 70001), memory layout and number type; full measurements of all structures")
ASSUMPTIONS = ["values compared to 1e-9 relative"]
PK = [("lorentz", 0., 1., 1., 0.), ("gauss", 0., 1., 1., 0.), ("lorentz", -0.5, .2, 2., .1), ("gauss", .5, .3, -1., -.2), ("gauss", -.5, 1e-3, 3., 0.),
      ("lorentz", 2., .01, .5, 1.), ("gauss", 0., 2., 0., .5)]
AL = [[-.4, -.3], [0., .2], [1., -1.]]


def scenarios(tier):
    for ad, ag, off in itertools.product(AL, AL, [0, 1.5, -.2]):
        yield dict(k="pot", ad=ad, ag=ag, off=off)
    for n in range(0, 4 if tier == "thorough" else 3):
        for ps in itertools.product(range(len(PK)), repeat=n):
            yield dict(k="resp", ps=ps)
    for n in (5, 7, 40):     # long lists: all rotations of a cyclic list
        for i in range(len(PK)):
            yield dict(k="resp", ps=[(i + 3 * j) % len(PK) for j in range(n)])
    for kind in ("lorentz", "gauss"):
        for m, w, h, o in itertools.product([-1., 0., .3], [1e-3, .5, 2.], [-1., 0., 2.], [0., -.5, 1.]):
            yield dict(k="peak", p=[kind, m, w, h, o])
    for i in range(12):
        yield dict(k="valid", i=i)
    for s in ("gaas", "toy", "toy_nc"):
        for g in S.GENERIC:
            for d in range(4):
                for res in ([7, 4], [3, 8], 9):
                    yield dict(k="measure", s=s, g=g, d=d, res=res)
    for g in S.GENERIC:
        for res in ([300, 3], [3, 300], [60, 50], 400):
            yield dict(k="measure", s="gaas", g=g, d=0, res=res)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def _pot(sc, ctx):
    s = SensorGeneric(sensor_peak_function=None, alpha_dot=np.array(sc["ad"]), alpha_gate=np.array(sc["ag"]), offset_mu_sens=sc["off"])
    occs = np.array([[0., 0.], [1., 0.], [0., 1.], [.3, .7], [2.5, 1.5], [3., 4.]])
    for r1, r2 in itertools.product([[-.2, .1], [.1, -.2], [.5, .5], [0, 3]], [[-1., 2.], [2., -1.], [0., 0.]]):
        for shape in ((6,), (1,), (2, 3), (3, 2), (1, 6), (6, 1)):
            n = int(np.prod(shape))
            occ = occs[:n].reshape(shape + (2,)).copy()
            keep = occ.copy()
            ctx.op()
            got = s.sensor_potential(occ, np.array(r1), np.array(r2))
            v = refs.grid(r1, r2, [shape[1], shape[0]] if len(shape) == 2 else shape[0])
            want = occ @ np.array(sc["ad"]) + v @ np.array(sc["ag"]) + sc["off"]
            ctx.check(close(got, want), "potential", lambda: f"{r1} {r2} {shape}: {got} != {want}")
            ctx.check(np.array_equal(occ, keep), "occupations-modified", "occupations modified")
            ctx.state(got)


def _resp(sc, ctx):
    ps = [PK[i] for i in sc["ps"]]
    mu = np.array([-3., -1., -.5, -.499, -.25, 0., .1, .5, .8, 1., 2., 2.005, 4.])
    for form in (["list"] + (["repeated"] if ps else []) + (["single"] if len(ps) == 1 else []) + (["none"] if not ps else [])):
        if form == "repeated":   # one object several times in the list
            ps = ps + [ps[0]]
        arg = None if form == "none" else [pk := S.peak(*ps[0])] + [S.peak(*p) for p in ps[1:-1]] + [pk] if form == "repeated" else ([S.peak(*p) for p in ps] if form == "list" else S.peak(*PK[sc["ps"][0]]))
        ps = ps if form == "repeated" else [PK[i] for i in sc["ps"]]
        if form == "list" and not ps:
            continue
        s = SensorGeneric(sensor_peak_function=arg, alpha_dot=np.array([1., 1.]), alpha_gate=np.array([1., 1.]))
        elementwise(ctx, s.sensor_response, mu, "response-form", want=sum(S.peak_ref(p, mu) for p in ps) if ps else mu)
        for m in (mu, mu[:12].reshape(3, 4), mu[:1]):
            keep = m.copy()
            ctx.op()
            got = np.array(s.sensor_response(m))
            want = keep if not ps else sum(S.peak_ref(p, keep) for p in ps)
            ctx.check(close(got, want), "response", lambda: f"{ps}: {got} != {want}")
            ctx.check(np.array_equal(m, keep), "potential-modified", "potential array modified")
            ctx.state(got)


def _peak(sc, ctx):
    kind, m, w, h, o = sc["p"]
    p = S.peak(*sc["p"])
    ctx.op()
    ctx.check(close(p.sensor_function(np.array([m]))[0], o + h), "centre", lambda: f"value at the centre {p.sensor_function(np.array([m]))} != {o + h}")
    d = w * np.array([.1, .5, 1., 2., 5., 50., 1000.])
    up, dn = p.sensor_function(m + d), p.sensor_function(m - d)
    ctx.check(np.allclose(up, dn, rtol=1e-6, atol=1e-9), "asymmetric", lambda: f"{up} {dn}")
    elementwise(ctx, p.sensor_function, m + w * np.linspace(-4, 4, 17), "peak-form")
    elementwise(ctx, p.sensor_function, np.arange(-6., 7.), "peak-form")
    dev = np.abs(up - o)
    ctx.check((np.diff(dev) <= 1e-12).all() and dev[-1] <= 1e-5 * abs(h) + 1e-12, "no-decay", lambda: f"deviation from the base value {dev}")
    if not o:      # far tails, relative to their own size
        far = m + w * np.array([-1e6, -3e4, -2e3, -37., -9., 9., 36., 3e3, 2e4, 1e7])
        a, b = p.sensor_function(far), S.peak_ref(sc["p"], far)
        ctx.check(np.allclose(a, b, rtol=1e-6, atol=1e-290), "tail", lambda: f"{sc['p']} at {far}: {a} != {b}")
    ctx.check(np.allclose(up, S.peak_ref(sc["p"], m + d), rtol=1e-6, atol=1e-9), "shape", lambda: f"{up} != {S.peak_ref(sc['p'], m + d)}")
    ctx.state(up)
    attrs = dict(mu0=m, height=h, offset=o, **({"sigma": w} if kind == "gauss" else {"gamma": w}))
    for k, v in attrs.items():
        ctx.check(getattr(p, k) == v, "attribute", f"{k}: {getattr(p, k)} != {v}")
    # changing a parameter later is equivalent to constructing with it
    q = S.peak(kind, 0., 1., 1., 0.)
    for k, v in attrs.items():
        setattr(q, k, v)
    ctx.check(np.array_equal(q.sensor_function(m + d), up), "setter", "a peak changed by setters differs from a constructed one")


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def _valid(sc, ctx):
    i = sc["i"]
    mk = lambda **k: SensorGeneric(**{**dict(sensor_peak_function=S.peak(*PK[2]), alpha_dot=np.array([-.4, -.3]), alpha_gate=np.array([.1, .2]), offset_mu_sens=.5), **k})
    ctx.op()
    bads = {"sensor_peak_function": [1, "x", [1], [S.peak(*PK[0]), None], np.array([1.])], "alpha_dot": [[1, 2], np.array([1.]), np.zeros(3), None, 1.],
            "alpha_gate": [[1, 2], np.array([1.]), np.zeros(3), None, 1.], "offset_mu_sens": ["x", None, np.array([1., 2.]), [1]]}
    keys = list(bads)
    if i < 4:
        k = keys[i]
        for b in bads[k]:
            ctx.check(refused(lambda: mk(**{k: b})), f"accepted-{k}", f"constructor accepted {k}={b!r}")
            s = mk()
            before = pub(s)
            ctx.check(refused(lambda: setattr(s, k, b)), f"set-accepted-{k}", f"setter accepted {k}={b!r}")
            ctx.check(pub(s) == before, "refused-changed", f"refused {k}={b!r} changed the sensor")
    elif i < 6:
        cls, w = ((SensorPeakGaussian, "sigma"), (SensorPeakLorentzian, "gamma"))[i - 4]
        for b in (0, 0., -1, -1e-9):
            ctx.check(refused(lambda: cls(**{w: b})), "width-accepted", f"{w}={b} accepted")
            p = cls(**{w: .5})
            ctx.check(refused(lambda: setattr(p, w, b)) and getattr(p, w) == .5, "width-set", f"{w}={b} accepted by setter or previous value lost")
    elif i < 9:
        # everything supplied is copied, via constructor (6), setter (7), list (8)
        pk, ad, ag = S.peak(*PK[2]), np.array([-.4, -.3]), np.array([.1, .2])
        arg = [pk, S.peak(*PK[3])] if i == 8 else pk
        s = mk(sensor_peak_function=arg, alpha_dot=ad, alpha_gate=ag) if i != 7 else mk()
        if i == 7:
            s.sensor_peak_function, s.alpha_dot, s.alpha_gate = arg, ad, ag
        before = pub(s)
        pk.mu0, pk.height = 7., 9.
        if i == 8:
            arg.append(S.peak(*PK[4]))
        ad[0], ag[1] = 99., 99.
        ctx.check(pub(s) == before, "not-copied", "changing a supplied object changed the sensor")
    elif i == 9:
        a, b = mk(), mk()
        a.alpha_dot[0] = 5.
        a.sensor_peak_function[0].mu0 = 3.
        ctx.check(b.alpha_dot[0] == -.4 and b.sensor_peak_function[0].mu0 == PK[2][1], "shared", "two sensors share state")
        ctx.check(a.alpha_dot[0] == 5. and a.sensor_peak_function[0].mu0 == 3., "getter-not-live", "in-place change through the getter is not effective")
        got = a.sensor_potential(np.array([[1., 0.]]), np.array([0., 0.]), np.array([0., 0.]))
        ctx.check(close(got, [5.5]), "getter-not-used", f"{got}")
    elif i == 10:
        a, b = SensorGeneric(), SensorGeneric()
        a.alpha_dot[0] += 5
        a.alpha_gate[0] += 5
        if a.sensor_peak_function:
            a.sensor_peak_function[0].mu0 += 1
        ctx.check(pub(b) == pub(SensorGeneric()), "shared-default", "default values are shared between sensors")
        ctx.check(pub(b) != pub(a), "vacuous", "")
    else:
        s = mk(offset_mu_sens=1)
        s.offset_mu_sens = 2.5
        ctx.check(close(s.sensor_potential(np.array([[0., 0.]]), np.array([0., 0.]), np.array([0., 0.])), [2.5]), "offset-setter", "offset setter not effective")


def _measure(sc, ctx):
    r1, r2 = C.directions(*C.window(sc["s"], (3, 1), (.5, .5)), sc["d"])
    sim = Simulation(ideal_csd_config=C.structure(sc["s"]), sensor=S.build_generic(S.GENERIC[sc["g"]]))
    ctx.op()
    sig, occ, _, _ = sim.measure(np.array(r1), np.array(r2), resolution=np.array(sc["res"]) if np.ndim(sc["res"]) else sc["res"])
    want = S.generic_ref(S.GENERIC[sc["g"]], refs.grid(r1, r2, sc["res"]), occ)[1]
    ctx.state(sig)
    ctx.check(sig.shape == want.shape and np.allclose(sig, want, rtol=1e-8, atol=1e-10), "measured", lambda: f"signal is not the peak sum at the potential of its pixel; max {np.abs(sig - want).max() if sig.shape == want.shape else sig.shape}")
