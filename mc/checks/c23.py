"""C23: generalised logistic functions and barrier functions."""
import itertools, math
import numpy as np
from simcats.sensor import SensorRiseGLF
from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
from simcats.support_functions import glf, inverse_glf, multi_glf
from mc.support import elementwise
PROPERTY = "C23"
BOUNDS = ("all combinations of asymptotes (rising, falling, shifted, negative) x growth rates (also negative) x asymmetries 1e-5..3 x shape factors x denominator "
          "offsets x offsets x percentages, each at a grid of potentials from -inf-like to +inf-like; all histories of up to 2 (thorough: 3) parameter changes out of "
          "18 for barriers (16 for final rises); the final rise for every such combination and four target offsets; sums of 1-3 logistic functions; arrays of every size (to 70001), memory layout and number type; every form of invalid parameter")
ASSUMPTIONS = ["values compared to 1e-9 of the height; inverse compared through the function value"]
AK = [(0., .3), (0., 1.), (.2, -.3), (-1., -.25), (.5, .1), (0, 2)]
NU = [1e-5, .01, .5, 1., 3.]
NAMES = ["asymptote_left", "asymptote_right", "growth_rate", "asymmetry", "shape_factor", "denominator_offset", "offset"]
ALPHA = dict(asymptote_left=[0., -.4], asymptote_right=[.25, -.5], growth_rate=[30., -12.], asymmetry=[.3, 2.], shape_factor=[.5, 40.],
             denominator_offset=[1, .7], offset=[-.5, .3], pinch_off_percentage=[.05, .2], fully_conductive_percentage=[.9, .6])
BASE = dict(pinch_off_percentage=.01, fully_conductive_percentage=.95, asymptote_left=0., asymptote_right=.3, growth_rate=20., asymmetry=1.,
            shape_factor=1., denominator_offset=1, offset=-.5)


def ref(t, p):
    """closed form, evaluated in logarithms so that no intermediate value overflows"""
    A, K, B, nu, Q, C, M = (float(x) for x in p)
    z = -B * (t - M)
    # log(C + Q e^z)
    with np.errstate(all="ignore"):
        lg = np.where(z > 0, z + np.log(C * np.exp(-np.abs(z)) + Q), np.log(C + Q * np.exp(-np.abs(z))))
    return A + (K - A) * np.exp(-lg / nu)


def scenarios(tier):
    for ak in range(len(AK)):
        for B, nu, Q in itertools.product([20., 1., 300., -5.], NU, [.01, 1., 100.]):
            yield dict(k="value", ak=ak, B=B, nu=nu, Q=Q)
            yield dict(k="rise", ak=ak, B=B, nu=nu, Q=Q)
    for i in range(len(RISE)):
        for j in range(2):
            yield dict(k="risehist", first=[i, j], depth=3 if tier == "thorough" else 2)
    for n in range(1, 4):
        yield dict(k="multi", n=n)
    for i in range(len(ALPHA)):
        for j in range(2):
            yield dict(k="hist", first=[i, j], depth=3 if tier == "thorough" else 2)
    for i in range(4):
        yield dict(k="valid", i=i)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def close(a, b, tol):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a) - b) <= tol))


def barrier_check(b, par, ctx):
    """a barrier against its parameters: values at all potentials, thresholds"""
    p = [par[n] for n in NAMES]
    h = abs(par["asymptote_right"] - par["asymptote_left"])
    base = min(par["asymptote_right"], par["asymptote_left"])
    width = (1 + abs(math.log(par["shape_factor"]))) / abs(par["growth_rate"])
    centre = par["offset"]
    t = centre + width * np.array([-30., -6., -2.5, -1., -.3, 0., .2, .9, 2., 5., 25.])
    keep = t.copy()
    got = b.get_value(t)
    ctx.op()
    ctx.check(close(got, ref(t, p), 1e-9 * (h + 1)), "value", lambda: f"{par}: {got} != {ref(t, p)}")
    if par["asymptote_left"] == 0:      # closed barrier: relative to its own (tiny) value
        w = ref(t, p)
        m = np.abs(w) > 1e-200
        ctx.check(np.all(np.abs(got - w)[m] <= 1e-6 * np.abs(w)[m]), "closed", lambda: f"{par}: {got} != {w}")
    ctx.check(np.array_equal(keep, t), "potential-modified", "potential modified")
    ctx.check(close(b.get_value(t[3]), ref(t[3], p), 1e-9 * (h + 1)), "scalar", "scalar potential")
    ctx.check(close(b.get_value(t[:10].reshape(2, 5)), ref(t[:10].reshape(2, 5), p), 1e-9 * (h + 1)), "shape", "2D potentials")
    d = np.diff(got) * np.sign(par["growth_rate"]) * np.sign(par["asymptote_right"] - par["asymptote_left"])
    ctx.check((d >= -1e-12).all(), "not-monotonic", lambda: f"{par}: {got}")
    for n in ("pinch_off", "fully_conductive"):
        want = base + h * par[n + "_percentage"]
        frac = (want - par["asymptote_left"]) / (par["asymptote_right"] - par["asymptote_left"])
        if frac >= par["denominator_offset"] ** (-1 / par["asymmetry"]) * (1 - 1e-9):
            continue          # never reached
        pot = float(getattr(b, n))
        v = float(ref(np.array(pot), p))
        ctx.check(abs(v - want) <= 1e-6 * h, n, lambda: f"{par}: barrier takes {v} at the reported {n} {pot}; {want} expected")
        ctx.check(abs(float(b.get_value(pot)) - want) <= 1e-6 * h, n, lambda: f"{par}: get_value({pot}) != {want}")
    for n, v in par.items():
        ctx.check(getattr(b, n) == v, "attribute", f"{n}: {getattr(b, n)} != {v}")
    ctx.state(got)


def _value(sc, ctx):
    A, K = AK[sc["ak"]]
    for C, M, pcts in itertools.product([1, .6, 2.], [0., -.5, 1.25], [(.01, .95), (.001, .999), (.3, .5)]):
        par = dict(pinch_off_percentage=pcts[0], fully_conductive_percentage=pcts[1], asymptote_left=A, asymptote_right=K, growth_rate=sc["B"],
                   asymmetry=sc["nu"], shape_factor=sc["Q"], denominator_offset=C, offset=M)
        if C != 1 and sc["nu"] < .3:
            continue          # right asymptote numerically 0 or infinite
        b = BarrierFunctionGLF(**par)
        barrier_check(b, par, ctx)
        if pcts[0] == .01:
            elementwise(ctx, b.get_value, M + (1 + abs(math.log(sc["Q"]))) / abs(sc["B"]) * np.linspace(-3, 3, 13), "value-form")
        p = [par[n] for n in NAMES]
        width = (1 + abs(math.log(sc["Q"]))) / abs(sc["B"])
        t = M + width * np.array([-2., -1., -.5, 0., .25, .7, 1.4])
        v = glf(t, *p)
        ctx.check(close(v, ref(t, p), 1e-9 * (abs(K - A) + 1)), "glf", lambda: f"{p}: {v}")
        if pcts[0] == .01:
            elementwise(ctx, lambda a: glf(a, *p), t, "glf-form", want=v)
        # asymptotes
        inf = np.array([-1e3, 1e3]) * width * max(1, 1 / sc["nu"] if sc["nu"] < .3 else 1) + M
        with np.errstate(all="ignore"):
            lo, hi = glf(inf, *p)[:: 1 if sc["B"] > 0 else -1]
        ctx.check(abs(lo - A) < 1e-9 * (abs(K - A) + 1) and abs(hi - (A + (K - A) / C ** (1 / sc["nu"]))) < 1e-9 * (abs(K - A) * 3 + 1),
                  "asymptotes", lambda: f"{p}: {lo} {hi}")
        # inverse
        frac = (v - A) / (K - A)
        # where the value carries enough digits: the inverse needs 1 - frac**nu (relative to rounding of the value)
        ok = (frac > 1e-9) & (np.abs(frac ** -sc["nu"] - C) > 1e-6 * C)
        if ok.any():
            inv = inverse_glf(v[ok], *p)
            back = ref(inv, p)
            ctx.check(close(back, v[ok], 1e-7 * abs(K - A)), "inverse", lambda: f"{p}: glf(inverse({v[ok]})) = {back}")
            dv = np.abs(ref(t + 1e-3 * width, p) - ref(t, p))[ok]
            sens = dv > 1e-6 * abs(K - A)
            ctx.check((np.abs(inv - t[ok])[sens] <= 1e-5 * width).all(), "inverse", lambda: f"{p}: inverse({v[ok]}) = {inv}, {t[ok]} expected")
            if pcts[0] == .01:
                elementwise(ctx, lambda a: inverse_glf(a, *p), v[ok], "inverse-form", want=inv, tol=1e-9, ints=False)
            one = inverse_glf(float(v[ok][0]), *p)
            ctx.check(np.ndim(one) == 0 and abs(one - inv[0]) <= 1e-9 * (1 + abs(inv[0])), "inverse-scalar", f"{one} {inv[0]}")
        # default values of the optional parameters
        if C == 1 and M == 0.:
            ctx.check(np.array_equal(glf(t, *p[:5]), v) and np.array_equal(inverse_glf(v[ok], *p[:5]), inverse_glf(v[ok], *p)), "defaults", "default parameters")
            b = BarrierFunctionGLF(*pcts, *p[:5])
            ctx.check(np.array_equal(b.get_value(t), v), "defaults", "default parameters of the barrier")


RISE = dict(mu0=[.4, -.25], asymptote_left=[0., -.4], asymptote_right=[.25, 1.5], growth_rate=[30., 7.], asymmetry=[.3, 2.], shape_factor=[.5, 40.],
            denominator_offset=[1, .7], fully_conductive_percentage=[.9, .6])
RBASE = dict(mu0=-.1, asymptote_left=0., asymptote_right=.3, growth_rate=20., asymmetry=1., shape_factor=1., denominator_offset=1,
             fully_conductive_percentage=.95)


def rise_check(r, par, ctx):
    """a final rise: reaches its percentage at fully_conductive, and sensor_function is the same curve moved there to the given offset"""
    p = [par[n] for n in NAMES[:-1]] + [par["mu0"]]
    A, K, pct = par["asymptote_left"], par["asymptote_right"], par["fully_conductive_percentage"]
    for n, v in par.items():
        ctx.check(getattr(r, n) == v, "rise-attribute", f"{n}: {getattr(r, n)} != {v}")
    if pct >= par["denominator_offset"] ** (-1 / par["asymmetry"]) * (1 - 1e-9):
        return          # never reached
    h = abs(K - A)
    fc = float(r.fully_conductive)
    ctx.check(abs(float(ref(np.array(fc), p)) - (A + pct * (K - A))) <= 1e-6 * h, "rise-threshold", lambda: f"{par}: {ref(np.array(fc), p)} at {fc}")
    width = (1 + abs(math.log(par["shape_factor"]))) / abs(par["growth_rate"])
    for off in (0., -.35, 2., fc):
        t = off + width * np.array([-30., -6., -2.5, -1., -.3, 0., .2, .9, 2., 5., 25.])
        keep = t.copy()
        got = r.sensor_function(t, off)
        ctx.op()
        want = ref(t - off + fc, p)
        ctx.check(close(got, want, 1e-7 * (h + 1)) and np.array_equal(keep, t), "rise-value", lambda: f"{par} offset {off}: {got} != {want}")
        ctx.check(close(r.sensor_function(t[:10].reshape(2, 5), off), want[:10].reshape(2, 5), 1e-7 * (h + 1)), "rise-shape", "2D potentials")
        ctx.state(got)


def _rise(sc, ctx):
    A, K = AK[sc["ak"]]
    for C, M, pct in itertools.product([1, .6, 2.], [0., -.5, 1.25], [.95, .999, .5]):
        if C != 1 and sc["nu"] < .3:
            continue
        par = dict(mu0=M, asymptote_left=A, asymptote_right=K, growth_rate=sc["B"], asymmetry=sc["nu"], shape_factor=sc["Q"], denominator_offset=C,
                   fully_conductive_percentage=pct)
        r = SensorRiseGLF(**par)
        rise_check(r, par, ctx)
        if pct == .95 and C == 1:
            t = .3 + (1 + abs(math.log(sc["Q"]))) / abs(sc["B"]) * np.linspace(-3, 3, 13)
            elementwise(ctx, lambda a: r.sensor_function(a, .3), t, "rise-form", tol=1e-9)


def _risehist(sc, ctx):
    par = dict(RBASE)
    r = SensorRiseGLF(**par)
    names = list(RISE)
    i, j = sc["first"]
    n, v = names[i], RISE[names[i]][j]
    for step in range(sc["depth"]):
        if step:
            n, v = ctx.choose(f"change{step}", [(m, x) for m in names for x in RISE[m]])
        setattr(r, n, v)
        par[n] = v
        try:
            r.asymmetry = ctx.choose(f"bad{step}", [0, -.5]) if step == 0 else 0.
            ctx.fail("accepted", "asymmetry <= 0 accepted by the final rise")
        except ValueError:
            pass
        rise_check(r, par, ctx)


PARTS = [[0., .1, 20., 1., 1., 1, -.5], [.05, .2, 50., .5, 3., 1, -.3], [0., -.05, 15., 2., .5, 1.5, 0.]]


def _multi(sc, ctx):
    t = np.linspace(-1.5, 1., 41)
    for ps in itertools.product(PARTS, repeat=sc["n"]):
        flat = [x for p in ps for x in p]
        want = sum(ref(t, p) for p in ps)
        ctx.op()
        ctx.check(close(multi_glf(t, *flat), want, 1e-9), "multi", lambda: f"{ps}: {multi_glf(t, *flat)} != {want}")
        b = BarrierFunctionMultiGLF(-.7, -.1, *flat)
        ctx.check(close(b.get_value(t), want, 1e-9) and close(b.get_value(t[5]), want[5], 1e-9), "multi-barrier", f"{ps}")
        ctx.check(close(b.get_value(t[:40].reshape(8, 5)), want[:40].reshape(8, 5), 1e-9), "multi-shape", f"{ps}")
        elementwise(ctx, b.get_value, t, "multi-form", want=b.get_value(t))
        ctx.check(b.pinch_off == -.7 and b.fully_conductive == -.1 and list(b.params) == flat, "multi-attributes", f"{b.params}")
        for qs in itertools.product(PARTS, repeat=2):
            f2 = [x for p in qs for x in p]
            b.params = tuple(f2)
            w2 = sum(ref(t, p) for p in qs)
            ctx.check(close(b.get_value(t), w2, 1e-9) and list(b.params) == f2, "multi-setter", f"{qs}")
            try:
                b.params = tuple(f2[:-1])
                ctx.fail("accepted", "params of a wrong length accepted")
            except ValueError:
                pass
            ctx.check(close(b.get_value(t), w2, 1e-9) and list(b.params) == f2, "refused-setter", "a refused change had an effect")
        b.pinch_off, b.fully_conductive = -.6, -.2
        ctx.check((b.pinch_off, b.fully_conductive) == (-.6, -.2), "multi-attributes", "thresholds")
        ctx.state(want)


def _hist(sc, ctx):
    par = dict(BASE)
    b = BarrierFunctionGLF(**par)
    names = list(ALPHA)
    i, j = sc["first"]
    n, v = names[i], ALPHA[names[i]][j]
    for step in range(sc["depth"]):
        if step:
            n, v = ctx.choose(f"change{step}", [(m, x) for m in names for x in ALPHA[m]])
        ctx.op()
        setattr(b, n, v)
        par[n] = v
        try:
            b.asymmetry = ctx.choose(f"bad{step}", [0, -.5]) if step == 0 else 0.
            ctx.fail("accepted", "asymmetry <= 0 accepted")
        except ValueError:
            pass
        barrier_check(b, par, ctx)
    c = BarrierFunctionGLF(**par)
    t = np.linspace(-2, 2, 21)
    ctx.check(np.array_equal(b.get_value(t), c.get_value(t)) and b.pinch_off == c.pinch_off and b.fully_conductive == c.fully_conductive,
              "history", f"changed barrier differs from a fresh one: {par}")


def _valid(sc, ctx):
    ctx.op()
    for nu in (0, 0., -1e-9, -1, -100.):
        try:
            BarrierFunctionGLF(**{**BASE, "asymmetry": nu})
            ctx.fail("accepted", f"asymmetry {nu} accepted")
        except ValueError:
            pass
        try:
            SensorRiseGLF(**{**RBASE, "asymmetry": nu})
            ctx.fail("accepted", f"asymmetry {nu} accepted by the final rise")
        except ValueError:
            pass
    for n in range(1, 22):
        p = [x for q in PARTS for x in q][:n]
        for f, name in ((lambda: BarrierFunctionMultiGLF(0., 1., *p), "BarrierFunctionMultiGLF"), (lambda: multi_glf(0., *p), "multi_glf")):
            try:
                f()
                ctx.check(n % 7 == 0, "accepted", f"{name} accepted {n} parameters")
            except (ValueError, AssertionError) as e:
                ctx.check(n % 7 != 0, "refused", f"{name} refused {n} parameters")
                ctx.check(name == "multi_glf" or isinstance(e, ValueError), "error-type", repr(e))
