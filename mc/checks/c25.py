"""C25: sampled random-variation configurations; the random generator is the explorer."""
import contextlib, copy, math, statistics
import numpy as np
from simcats import Simulation, default_configs
from simcats.config_samplers import sample_random_variations_v3_config
from mc import refs
from mc.engine import Prune
from mc.scripted import ScriptedRNG
PROPERTY = "C25"
BOUNDS = ("every random draw of the sampler in turn (thorough, structure and generic sensor: every pair of draws) forced to its minimum, maximum and median, over 3 "
          "(thorough: 8) base schedules of answers, plus schedules of slowly creeping answers, x both sensor types x compensated x steepest point x quality multipliers 1, 0.5, 0.01; each configuration is "
          "measured over its whole window; all invalid options; distortion parameters for all generator answers of a grid")
ASSUMPTIONS = ["the schedules' remaining draws follow a low-discrepancy sequence (rejection loops terminate)"]
GOLD = (5 ** .5 - 1) / 2
ND = statistics.NormalDist()


class Script:
    """quantiles: a low-discrepancy sequence (step: a slowly creeping one), single draws replaced by choices"""
    def __init__(self, ctx, offset, lo, hi, options, step=GOLD):
        self.ctx, self.o, self.lo, self.hi, self.options, self.i, self.step = ctx, offset, lo, hi, options, 0, step

    def u(self):
        i = self.i
        self.i += 1
        base = (self.o + i * self.step) % 1
        if self.lo <= i < self.hi:
            v = self.ctx.choose(f"draw{i}", [None] + self.options)
            if v is not None:
                return v
        return base


class Quantile(np.random.Generator):
    """answers every distribution with a scripted quantile"""
    def __new__(cls, script):
        return super().__new__(cls, np.random.PCG64(1))

    def __init__(self, script):
        super().__init__(np.random.PCG64(1))
        self.script = script

    def __deepcopy__(self, memo):
        return self

    def _a(self, size, f):
        if size is None:
            return f(self.script.u())
        n = int(np.prod(size))
        return np.array([f(self.script.u()) for _ in range(n)]).reshape(size)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._a(size, lambda u: min(u, 1 - 2 ** -53))

    def uniform(self, low=0., high=1., size=None):
        return self._a(size, lambda u: low + (high - low) * u)

    def normal(self, loc=0., scale=1., size=None):
        return self._a(size, lambda u: loc + scale * ND.inv_cdf(min(max(u, 1e-3), 1 - 1e-3)))

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self.normal(0., 1., size)

    def exponential(self, scale=1., size=None):
        return self._a(size, lambda u: -scale * math.log(1 - min(u, .9999)))

    def standard_exponential(self, size=None, dtype=np.float64, method="zig", out=None):
        return self.exponential(1., size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        low, high = (0, low) if high is None else (low, high)
        n = high - low + bool(endpoint)
        return self._a(size, lambda u: low + min(int(u * n), n - 1))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return self._a(size, lambda u: a[min(int(u * len(a)), len(a) - 1)])


@contextlib.contextmanager
def scripted(script):
    orig = np.random.default_rng
    np.random.default_rng = lambda *a, **k: Quantile(script)
    try:
        yield
    finally:
        np.random.default_rng = orig


def scenarios(tier):
    th = tier == "thorough"
    offs = [.123, .456, .789] + ([.05, .31, .62, .87, .99] if th else [])
    opts = [0., 1., .5] if th else [0., 1.]
    for o in offs:
        for lo in range(0, 18, 3):
            yield dict(k="cfg", o=o, lo=lo, hi=lo + 3, top=18, bound=2 if th else 1, kw={}, small=0, opts=[0., 1., .5])
        for q, comp in ((1., False), (.5, True), (.01, False), (1., True), (.5, False), (.01, True)):
            main = (q, comp) == (1., False)
            if th or main or o == offs[0]:
                for lo in range(12, 52, 8):
                    yield dict(k="cfg", o=o, lo=lo, hi=lo + 8, top=52, bound=2 if th and main else 1, small=1, opts=opts,
                               kw=dict(quality_multiplier=q, compensated_sensor=comp))
            if th or (o == offs[0] and (q == 1.) != comp):
                for lo in range(12, 132, 10):
                    yield dict(k="cfg", o=o, lo=lo, hi=lo + 10, top=132, bound=1, small=1, opts=opts,
                               kw=dict(quality_multiplier=q, compensated_sensor=comp, sensor_type="SensorScanSensorGeneric"))
            for lo in (range(12, 52, 8) if th else [30]):
                yield dict(k="cfg", o=o, lo=lo, hi=lo + (8 if th else 4), top=52, bound=1, small=1, opts=opts,
                           kw=dict(quality_multiplier=q, compensated_sensor=comp, set_sensor_potential_offset_to_steepest_point=True))
    for o in ([.02, .3, .6, .97] if not th else [i / 20 + .003 for i in range(20)]):
        for step in (5e-4, 5e-5, -5e-4, -5e-5) + ((2e-3, 2e-2, -2e-3, -2e-2) if th else ()):
            for kw in (dict(), dict(quality_multiplier=.5, compensated_sensor=True), dict(sensor_type="SensorScanSensorGeneric")):
                yield dict(k="creep", o=o, step=step, kw=kw)
    for o in offs:
        for j in (1, 2, 6):
            for axis in (0, 1):
                yield dict(k="jump", o=o, j=j, axis=axis)
    for q in (1., .7, .5, .1, .01):
        for st in ("SensorGeneric", "SensorScanSensorGeneric"):
            yield dict(k="quality", q=q, st=st)
    for i in range(9):
        yield dict(k="valid", i=i)
    for st in ("SensorGeneric", "SensorScanSensorGeneric"):
        yield dict(k="fresh", st=st)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


class Range:
    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, name, v, lo, hi, tol=1e-9):
        s = tol * max(abs(lo), abs(hi), 1e-300)
        self.ctx.check(lo - s <= v <= hi + s, "out-of-range:" + name, lambda: f"{name} = {v} is outside [{lo}, {hi}]")


def angle(a, b):
    return math.acos(max(-1., min(1., float(np.dot(a, b) / np.linalg.norm(a) / np.linalg.norm(b)))))


def check_structure(s, ctx, small):
    R = Range(ctx)
    P = [np.array(p, float) for p in s.tct_params]
    l0, l1, g0, g1, x0, y0, x2, y2 = P[0]
    R("slope 1", g0, .21429, .54688)
    R("slope 2", g1, -.44, -.07692)
    v0, v1 = np.array([1, g0]), np.array([1, g1])
    R("lead angle", angle(v0, v1), .43760867228, 1.6789624091)
    R("length 1", l0, .01, .025)
    R("length 2", l1, .01, .025)
    w = math.hypot(x2 - x0, y2 - y0)
    R("interdot width", w, .00043, .00814)
    ctx.check(np.allclose([x0, y0], refs.rot([-.14, -.14], math.pi / 4), atol=1e-12), "first-point", f"{x0} {y0}")
    ctx.check(np.allclose(np.array([x2 - x0, y2 - y0]) / w, np.array([1, (g0 + g1) / 2]) / math.hypot(1, (g0 + g1) / 2), atol=1e-9), "bezier-direction", f"{P[0]}")
    ctx.check(len(P) >= 2, "one-curve", "a single TCT cannot cover the window")
    d = P[1][4:6] - P[0][4:6]
    for a, b in zip(P, P[1:]):
        ctx.check(np.allclose(b[:4], a[:4], atol=0) and np.allclose(b[4:6] - a[4:6], d, atol=1e-9) and np.allclose(b[6:] - a[6:], d, atol=1e-9), "shift",
                  lambda: f"{a} -> {b}")
    iv = d + np.array([l1, l1 * g1])
    n = float(np.hypot(*iv))
    R("interdot length", n, .00261, .00987, 1e-6)
    R("length / width", n / w, .8692269873603532, 9.055385138137407, 1e-6)
    R("interdot angle", math.atan2(iv[1], iv[0]) - math.atan2(g0, 1), .58153916891, 1.396938844, 1e-6)
    back = refs.rot(iv, -math.pi / 4)
    ctx.check((back >= -1e-12).all(), "interdot-backwards", f"{back}")
    ref = refs.Structure(P, s.rotation, s.lut_entries, s.cdf_type, s.cdf_gamma_factor)
    vs = refs.grid([-.2, -.06], [-.2, -.06], [13, 13])
    h = ref.heights(vs)
    ctx.check((np.diff(h, axis=-1) < 1e-9).all(), "curves-order", "a transition curve lies below its predecessor")
    ctx.check((h[..., -1] <= ref.tol).all(), "window-not-covered", "a part of the window lies above the last curve")
    ctx.check(s.lut_entries == 1000 and abs(s.rotation + math.pi / 4) < 1e-12, "structure-options", f"{s.lut_entries} {s.rotation}")


def lever(ctx, ag, ad, q, comp):
    R = Range(ctx)
    lo, hi = (.0001, .0005) if comp else (.02805, .15093)
    R("alpha_gate 1", ag[0], lo, hi)
    R("alpha_gate 2", ag[1], .5 * ag[0], 2 * ag[0])
    m1, M1, m2, M2 = -.0007994, -.0000961, -.0005214, -.0000630
    R("alpha_dot 1", ad[0], m1, min(m1 + q * (M1 - m1), -.0006 * ag[0]))
    hi2 = min(m2 + q * (M2 - m2), -.0006 * ag[1], .5 * ad[0])
    if hi2 < m2:
        hi2 = m2 + q * (M2 - m2)
    R("alpha_dot 2", ad[1], max(m2, 2 * ad[0]), hi2)


def _lor(p, x):
    return p.offset + p.height * p.gamma ** 2 / (p.gamma ** 2 + (x - p.mu0) ** 2)


def _dlor(p, x):
    return -p.height * p.gamma ** 2 * 2 * (x - p.mu0) / (p.gamma ** 2 + (x - p.mu0) ** 2) ** 2


def check_generic(s, q, comp, steep, ctx):
    R = Range(ctx)
    ag, ad = np.array(s.alpha_gate, float), np.array(s.alpha_dot, float)
    lever(ctx, ag, ad, q, comp)
    pots = [o * ad.sum() + v * ag.sum() for o, v in ((0, -.2), (5, -.06))]
    # the potentials at the two ends of the window diagonal with 0 and 5 electrons
    pots = [0 + (ag * -.2).sum(), (ad * 5).sum() + (ag * -.06).sum()]
    lo, hi = min(pots), max(pots)
    ps = list(s.sensor_peak_function)
    ctx.check(3 <= len(ps) <= 6, "peak-count", f"{len(ps)}")
    R("height 0", ps[0].height, .02245, .19204)
    R("offset 0", ps[0].offset, -.42275, -.0838)
    for i, p in enumerate(ps):
        R("gamma", p.gamma, .0009636, .0029509)
        R("mu0", p.mu0, lo, hi)
        R("height", p.height, .8 * ps[0].height, 1.2 * ps[0].height)
        R("offset", p.offset, 1.2 * ps[0].offset, .8 * ps[0].offset)
        for r in ps[:i]:
            ctx.check(abs(p.mu0 - r.mu0) >= (hi - lo) / (2 * len(ps)) * (1 - 1e-9), "peak-spacing", lambda: f"{[x.mu0 for x in ps]} within {lo}..{hi}")
    if steep:
        x = np.linspace(lo - .2 * (hi - lo), hi + .2 * (hi - lo), 20001)
        x = np.concatenate([x] + [p.mu0 + p.gamma * np.linspace(-3, 3, 1201) for p in ps])
        x = x[(x >= lo - .2 * (hi - lo)) & (x <= hi + .2 * (hi - lo))]
        best = max(sum(_dlor(p, x) for p in ps))
        at = float(sum(_dlor(p, s.offset_mu_sens) for p in ps))
        ctx.check(at >= best - 2e-3 * abs(best), "not-steepest", lambda: f"slope {at} at the offset {s.offset_mu_sens}, largest slope {best}")
    else:
        ctx.check(s.offset_mu_sens == 0, "offset", f"{s.offset_mu_sens}")
    ctx.state(ag, ad, [p.mu0 for p in ps])


def check_scan(s, q, comp, ctx):
    R = Range(ctx)
    A, AG, AD = (np.atleast_2d(np.array(x, float)) for x in (s.alpha_sensor_gate, s.alpha_gate, s.alpha_dot))
    lever(ctx, AG[0], AD[0], q, comp)
    ctx.check(abs(A[0].max() - .1) < 1e-12 and (A[0] > 0).all(), "sensor-lever-arms", f"{A[0]}")
    R("lever arm ratio", A[0][0] / A[0][1], .5, 2.)
    ctx.check(A[1][0] == .99 and A[2][1] == .99, "barrier-lever-arms", f"{A}")
    R("cross talk 1", A[1][1], .1, .3)
    R("cross talk 2", A[2][0], .1, .3)
    ctx.check(len(s.barrier_functions) == 2, "barriers", "two barriers expected")
    for b in s.barrier_functions:
        R("barrier growth rate", b.growth_rate, 20, 40)
        R("barrier asymmetry", b.asymmetry, 1e-6, 1e-4)
        R("barrier shape", b.shape_factor, .01, 100)
        ctx.check(b.asymptote_left == 0 and abs(b.asymptote_right - .25 * q) < 1e-12 and b.denominator_offset == 1, "barrier-height", f"{b.asymptote_right}")
        ctx.check((b.pinch_off_percentage, b.fully_conductive_percentage) == (.001, .999) and b.pinch_off < b.fully_conductive, "barrier-percentages", f"{b.pinch_off} {b.fully_conductive}")
    # the barriers pinch off and the first peak starts at a common base point
    base = np.linalg.solve(A[1:], [float(b.pinch_off) for b in s.barrier_functions])
    for v in base:
        R("base point", v, -.688, -.509, 1e-5)
    ps = list(s.sensor_peak_function)
    ctx.check(abs(ps[0].mu0 - (A[0] @ base - .05)) < 1e-7, "first-peak", lambda: f"{ps[0].mu0} != {A[0] @ base - .05}")
    ctx.check(20 <= len(ps) <= 30, "peak-count", f"{len(ps)}")
    mus = np.array([p.mu0 for p in ps])
    ctx.check((np.diff(mus) > 0).all(), "peaks-sorted", f"{mus}")
    d = np.diff(mus)
    R("first distance", d[0], 0, 4 * .00367179654343025)
    rel = .09509839063162284 / 2
    for i in range(2, len(ps)):
        n = min(i, 10)
        mean = 1.0189427890611187 - .0374000174907983 / 4 * (n - 1)
        R("distance", d[i - 1] / d[0], mean - rel, mean + rel, 1e-6)
    for i, p in enumerate(ps):
        ctx.check(p.gamma > 0 and p.height >= 0 and p.offset == 0, "peak", f"{p}")
        if i:
            r = p.gamma / ps[i - 1].gamma
            ctx.check(.85 - 1e-9 <= r <= 1.5 + 1e-9 or (i > 1 and .0018 - 1e-12 <= p.gamma <= .0022 + 1e-12), "width", lambda: f"{[x.gamma for x in ps]}")
        ctx.check(p.gamma <= .0022 + 1e-12, "width", lambda: f"{[x.gamma for x in ps]}")
    f = s.final_rise
    x = np.concatenate([mus, (mus[:-1] + mus[1:]) / 2] + [p.mu0 + p.gamma * np.linspace(-2, 2, 81) for p in ps])
    top = max(sum(_lor(p, x) for p in ps))
    ctx.check(f.asymptote_left == 0 and abs(f.asymptote_right - 1.05 * top) <= 2e-3 * top, "final-rise-height", lambda: f"{f.asymptote_right} != 1.05 * {top}")
    ctx.check(f.fully_conductive_percentage == .95 and f.mu0 == 0, "final-rise", f"{f}")
    R("rise growth rate", f.growth_rate, 400, 600)
    R("rise asymmetry", f.asymmetry, .01, 1)
    R("rise shape", f.shape_factor, .01, 100)
    ctx.check(not s.sensor_peak_deformations, "deformations", f"{s.sensor_peak_deformations}")
    ctx.state(A, mus)


def _cfg(sc, ctx):
    ctx.bound = sc["bound"]
    hi = sc["hi"] if sc["bound"] == 1 else sc["top"]
    script = Script(ctx, sc["o"], sc["lo"], hi, sc["opts"])
    with scripted(script):
        c = sample_random_variations_v3_config(**sc["kw"])
    dev = [i for i, p in enumerate(ctx.points) if p[2]]
    if sc["bound"] == 2 and dev and int(ctx.points[dev[0]][0][4:]) >= sc["hi"]:
        raise Prune()          # this pair belongs to another scenario
    ctx.op()
    check_config(c, sc["kw"], ctx, sc["small"])


def _creep(sc, ctx):
    """neighbouring draws are almost equal: all parameters at the same end, rejection loops stop exactly at their border"""
    with scripted(Script(ctx, sc["o"], 0, 0, [], sc["step"])):
        c = sample_random_variations_v3_config(**sc["kw"])
    ctx.op()
    check_config(c, sc["kw"], ctx, False)


def check_config(c, kw, ctx, small):
    q, comp = kw.get("quality_multiplier", 1.), kw.get("compensated_sensor", False)
    ctx.check(np.array_equal(c["volt_limits_g1"], [-.2, -.06]) and np.array_equal(c["volt_limits_g2"], [-.2, -.06]) and
              np.array_equal(c["volt_limits_sensor_g1"], [-1, 0]) and np.array_equal(c["volt_limits_sensor_g2"], [-1, 0]), "windows", f"{c}")
    if not small:
        check_structure(c["ideal_csd_config"], ctx, small)
    scan = kw.get("sensor_type") == "SensorScanSensorGeneric"
    if scan:
        check_scan(c["sensor"], q, comp, ctx)
    else:
        check_generic(c["sensor"], q, comp, kw.get("set_sensor_potential_offset_to_steepest_point", False), ctx)
    names = [[type(d).__name__ for d in c[k]] for k in ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")]
    ctx.check(names == [["OccupationTransitionBlurringFermiDirac", "OccupationDotJumps", "OccupationDotJumps"], ["SensorPotentialPinkNoise", "SensorPotentialRTN"],
                        ["SensorResponseRTN", "SensorResponseWhiteNoise"]], "distortions", f"{names}")
    for d in c["occupation_distortions"][1:]:
        d.ratio = 0.          # dot jumps: see _jump
    sim = Simulation(**c)
    l = np.array([-.2, -.06])
    for a, b in ((l, l), (l[::-1], l)):
        csd, occ = sim.measure(a, b, resolution=np.array([12, 11]))[:2]
        ctx.check(csd.shape == (11, 12) and np.isfinite(csd).all() and np.isfinite(occ).all(), "measurement", "not finite")
        ctx.check((occ >= -1e-9).all() and occ[0, 0 if a[0] < a[1] else -1].sum() <= .5, "empty-corner", lambda: f"{occ[0]}")
    if scan:
        r = sim.measure_sensor_scan(np.array([-1., 0.]), np.array([-1., 0.]), -.2, -.06, resolution=np.array([6, 7]))[0]
        ctx.check(r.shape == (7, 6) and np.isfinite(r).all() and (r[0, 0] < .2), "sensor-scan", f"{r}")
    ctx.op(2)


def _jump(sc, ctx):
    """a dot jump during the measurement of the whole window"""
    with scripted(Script(ctx, sc["o"], 0, 0, [])):
        c = sample_random_variations_v3_config()
    for d in c["occupation_distortions"][1:]:
        d.ratio = float(d.axis == sc["axis"])
        d.rng = ScriptedRNG(act=[1], geometric=[2], poisson=[sc["j"]])
    sim = Simulation(**c)
    l = np.array([-.2, -.06])
    ctx.op()
    try:
        r = sim.measure(l, l, resolution=np.array([40, 40]))[0]
        ctx.check(np.isfinite(r).all(), "measurement", "not finite")
        ctx.state(r)
    except IndexError as e:
        ctx.fail("dot-jump-leaves-curves", f"measuring the announced window fails if a dot jump of {sc['j']} pixels acts: {str(e)[:200]}")


def sigma_of(d, e, script):
    """the standard deviation the distortion would use if the generator delivers the exponential quantile e"""
    script.o, script.i = 1 - math.exp(-e), 0
    return float(d.sigma.sample_parameter())


def _quality(sc, ctx):
    q = sc["q"]
    script = Script(ctx, .37, 0, 0, [])
    with scripted(script):
        c = sample_random_variations_v3_config(sensor_type=sc["st"], quality_multiplier=q)
    ctx.op()
    check_config(copy.deepcopy(c), dict(quality_multiplier=q, sensor_type=sc["st"]), ctx, False)
    occ, pot, resp = (c[k] for k in ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"))
    if isinstance(pot[0].sigma, object):
        for d in (pot[0], resp[1]):
            for e in (0., .1, .5, 1., 2., math.log(100.)):
                v = sigma_of(d, e, script)
                want = 1e-10 + (.0005 - 1e-10) * e * .6 * q / math.log(100)
                ctx.check(abs(v - want) <= 1e-6 * want + 1e-12, "noise-strength", lambda: f"{type(d).__name__}: {v} != {want} with multiplier {q}")
    ctx.check(abs(pot[1].ratio - q / 6) < 1e-12 and abs(resp[0].ratio - .01 * q) < 1e-12, "rtn-ratio", f"{pot[1].ratio} {resp[0].ratio} with multiplier {q}")
    px = .03 / 100
    ctx.check(abs(pot[1].scale - 74.56704 * px) < 1e-12 and abs(pot[1].std - 3.491734e-05) < 1e-15 and abs(pot[1].height - 2.53855325e-05) < 1e-15, "rtn", f"{pot[1]}")
    ctx.check(abs(resp[0].scale - 3) < 1e-12 and abs(resp[0].std - .0474537676) < 1e-9 and abs(resp[0].height - .0152373696) < 1e-12, "rtn", f"{resp[0]}")
    jumps = {d.axis: d for d in occ[1:]}
    ctx.check(set(jumps) == {0, 1} and abs(jumps[0].ratio - .01) < 1e-15 and abs(jumps[1].ratio - .01 / 6) < 1e-15, "dot-jumps", f"{occ}")
    for d in jumps.values():
        ctx.check(abs(d.scale - .03) < 1e-12 and abs(d.lam - .0018) < 1e-12, "dot-jumps", f"{d}")
    lo, hi = .25 * px, 2 * px
    for z in (.001, .1, .5, .9, .999):
        script.o, script.i = z, 0
        v = float(occ[0].sigma.sample_parameter())
        want = (lo + hi) / 2 + (hi - lo) / 6 * ND.inv_cdf(z)
        ctx.check(lo <= v <= hi and (not lo <= want <= hi or abs(v - want) < 1e-9), "blurring", f"{v} {want}")
    if sc["st"] == "SensorGeneric":
        # the height of the first peak: exponentially distributed below the maximum, with a scale proportional to the multiplier
        with scripted(Script(ctx, .37, 0, 0, [])):
            c1 = sample_random_variations_v3_config(sensor_type=sc["st"])
        h, h1 = c["sensor"].sensor_peak_function[0].height, c1["sensor"].sensor_peak_function[0].height
        if len(c1["sensor"].sensor_peak_function) == len(c["sensor"].sensor_peak_function):
            ctx.check(abs((.19204 - h) - q * (.19204 - h1)) < 1e-9, "peak-height", lambda: f"{h} with multiplier {q}, {h1} with 1")
    ctx.state(q, sc["st"])


def _valid(sc, ctx):
    kw = [dict(quality_multiplier=0.), dict(quality_multiplier=-.1), dict(quality_multiplier=1.0001), dict(quality_multiplier=2), dict(sensor_type="x"),
          dict(sensor_type=None), dict(sensor_type="sensorgeneric"), dict(quality_multiplier=float("nan")), dict(quality_multiplier=-1)][sc["i"]]
    ctx.op()
    with scripted(Script(ctx, .37, 0, 0, [])):
        try:
            sample_random_variations_v3_config(**kw)
        except ValueError:
            return
    ctx.fail("accepted", f"{kw} accepted")


def flat(o, seen, depth=0):
    """ids of all mutable objects reachable from a configuration (arrays, lists, dictionaries, objects of the package)"""
    if isinstance(o, (str, int, float, bool, type(None), np.number, type, np.random.Generator)) or id(o) in seen or depth > 8:
        return
    if isinstance(o, (list, tuple)):
        if isinstance(o, list):
            seen[id(o)] = o
        for x in o:
            flat(x, seen, depth + 1)
    elif isinstance(o, dict):
        seen[id(o)] = o
        for x in o.values():
            flat(x, seen, depth + 1)
    elif isinstance(o, np.ndarray):
        seen[id(o)] = o
    elif type(o).__module__.startswith("simcats") and hasattr(o, "__dict__"):
        seen[id(o)] = o
        for x in vars(o).values():
            flat(x, seen, depth + 1)


def _fresh(sc, ctx):
    before = copy.deepcopy(default_configs["GaAs_v1"]["ideal_csd_config"].tct_params), default_configs["GaAs_v1"]["ideal_csd_config"].lut_entries
    cs, ids = [], []
    for o in (.1, .4, .1):
        with scripted(Script(ctx, o, 0, 0, [])):
            cs.append(sample_random_variations_v3_config(sensor_type=sc["st"]))
        s = {}
        flat(cs[-1], s)
        ids.append(s)
        ctx.op()
    defaults = {}
    flat(dict(default_configs), defaults)
    for i in range(3):
        for j in range(i):
            shared = [ids[i][k] for k in ids[i] if k in ids[j]]
            ctx.check(not shared, "shared", lambda: f"configurations share {shared}")
        shared = [ids[i][k] for k in ids[i] if k in defaults]
        ctx.check(not shared, "shared-default", lambda: f"configuration shares {shared} with the defaults")
        arrs = [a for a in ids[i].values() if isinstance(a, np.ndarray)]
        darrs = [a for a in list(defaults.values()) + [x for j in range(3) if j != i for x in ids[j].values()] if isinstance(a, np.ndarray)]
        ctx.check(not any(np.shares_memory(a, b) for a in arrs for b in darrs), "shared", "configurations share array memory")
    after = default_configs["GaAs_v1"]["ideal_csd_config"]
    ctx.check(len(after.tct_params) == len(before[0]) and all(np.array_equal(a, b) for a, b in zip(after.tct_params, before[0])) and after.lut_entries == before[1],
              "default-changed", "the default configuration changed")
    check_config(cs[0], dict(sensor_type=sc["st"]), ctx, False)
