"""C27: plots; the voltage every drawn value claims is read back from the axes."""
import itertools, os, shutil, tempfile
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
from simcats import Simulation
from simcats.support_functions import plot_csd
from mc import configs as C
from mc.stubs import Lattice, Resp, pub
PROPERTY = "C27"
BOUNDS = ("2D: all four sweep directions x sorted / unsorted x 9 shapes incl. single lines and columns x tick counts x windows; 1D: all direction pairs incl. gates "
          "held constant x sorted / unsorted x lengths x tick counts; data of 15 number types, layouts and magnitudes, images of up to 9900 and lines of up to 70000 pixels, linear colour scale over the data; labels, units, titles, colour bar, saving; measurements plotted directly; sequences of plots")
ASSUMPTIONS = ["tick labels carry three decimals: voltages compared to 6e-4 (windows have 3 decimals)", "non-interactive back end"]
W = [([-.2, -.06], [-.19, -.05]), ([0., 2.], [-1., 3.]), ([-.5, .5], [1.25, 1.75])]
D = [(1, 1), (-1, 1), (1, -1), (-1, -1)]


def scenarios(tier):
    for w, d, srt in itertools.product(range(len(W)), range(4), (True, False)):
        for sh in ([2, 2], [3, 5], [5, 3], [7, 7], [4, 9], [2, 6], [1, 5], [5, 1], [40, 60]):
            for nx, ny in ((5, 5), (3, 4), (2, 2)):
                if (sh == [40, 60] or w) and (nx, ny) != (5, 5) and tier != "thorough":
                    continue
                yield dict(k="two", w=w, d=d, srt=srt, sh=sh, nx=nx, ny=ny)
    for w, srt in itertools.product(range(len(W)), (True, False)):
        for d1, d2 in itertools.product((1, -1, 0), repeat=2):
            for n, nx in itertools.product((2, 3, 8, 21), (5, 2, 3)) if tier == "thorough" else [(2, 5), (8, 5), (3, 2), (8, 3), (2500, 5)]:
                yield dict(k="one", w=w, srt=srt, d1=d1, d2=d2, n=n, nx=nx)
    for form in FORMS:
        for d in range(4):
            for sh in ([4, 7], [6, 5], 9):
                for srt in (True, False):
                    yield dict(k="form", form=form, d=d, sh=sh, srt=srt)
    for sh in ([3, 1200], [1100, 3], [90, 110], 70000):
        for d in (0, 3):
            yield dict(k="form", form="float", d=d, sh=sh, srt=True)
    for dim in (1, 2):
        for opt in range(8):
            yield dict(k="opts", dim=dim, opt=opt)
    for d in range(4):
        for dim in (1, 2):
            yield dict(k="measured", d=d, dim=dim)


FORMS = ["float", "float32", "int", "uint8", "bool", "read-only", "Fortran", "reversed", "strided", "negative", "tiny", "huge", "int-range", "view-range", "constant"]


def _form(sc, ctx):
    """data and ranges in every number type, layout and magnitude"""
    form, two = sc["form"], np.ndim(sc["sh"]) == 1
    d1, d2 = D[sc["d"]]
    l1, l2 = lim([-2, 3] if form == "int-range" else [-.5, .5], d1), lim([1, 4] if form == "int-range" else [1.25, 1.75], d2)
    sh = sc["sh"] if two else [sc["sh"]]
    n = int(np.prod(sh))
    x = ((np.arange(n) * 37) % 251).astype(float).reshape(sh)        # distinct values in an order that is no order
    if n > 251:
        x = np.sin(np.arange(n) * 1.7).reshape(sh) + np.arange(n).reshape(sh) * 1e-6
    x = {"float32": x.astype(np.float32), "int": x.astype(int) - 100, "uint8": x.astype(np.uint8), "bool": x % 3 == 0, "Fortran": np.asfortranarray(x), "negative": -x - 3.5,
         "tiny": x * 1e-12, "huge": x * 1e9 - 5e10, "reversed": x[::-1].copy()[::-1], "strided": np.repeat(x, 2, axis=-1)[..., ::2], "constant": np.full(sh, .25)}.get(form, x)
    if form == "read-only":
        x.flags.writeable = False
    if form == "int-range":
        l1, l2 = l1.astype(int), l2.astype(int)
    elif form == "view-range":
        l1, l2 = np.stack([l1, l2]).T[:, 0], np.stack([l2, l1])[0]
        l1.flags.writeable = False
    keep = x.copy(), l1.copy(), l2.copy()
    ctx.op()
    plot_csd(x, l1, l2, **({} if sc["srt"] else dict(sort_volts=False)))
    ctx.check(np.array_equal(x, keep[0]) and np.array_equal(l1, keep[1]) and np.array_equal(l2, keep[2]), "data-modified", "arguments modified")
    if n > 60000:
        got = np.asarray(main_axes(plt.gcf()).lines[0].get_ydata())
        ctx.check(np.array_equal(got, x if l1[0] < l1[1] else x[::-1]), "long-line", "the drawn line has not the measured values")
        return
    (check_2d(x, l1, l2, sc["srt"], 5, 5, ctx) if two else check_1d(x, l1, l2, sc["srt"], 5, ctx))


def run(sc, ctx):
    plt.close("all")
    try:
        globals()["_" + sc["k"]](sc, ctx)
    finally:
        plt.close("all")
    ctx.sample = {"scenario": sc}


def lim(r, d):
    return np.array(r if d > 0 else r[::-1] if d < 0 else [r[0], r[0]], float)


def val(v1, v2):
    """a value which identifies the voltages"""
    return 3.7 * v1 + 11.3 * v2 + .9 * v1 * v2


def main_axes(fig):
    return [a for a in fig.axes if a.images or a.lines][0]


def tick_map(pos, labels, j=None):
    """positions and the voltages the labels claim"""
    out = []
    for p, t in zip(pos, labels):
        s = t.get_text().replace("−", "-")
        if j is not None:
            s = s.strip("()").split(";")[j]
        out.append((float(p), float(s)))
    return out


def at(ticks, x):
    """voltage at position x, by the line through the outermost ticks"""
    (a, va), (b, vb) = ticks[0], ticks[-1]
    return va if a == b else va + (vb - va) * (x - a) / (b - a)


def check_ticks(ticks, n, ctx, name):
    ctx.check(len(ticks) == n, "tick-count", lambda: f"{name}: {len(ticks)} ticks, {n} requested")
    for p, v in ticks:
        ctx.check(abs(v - at(ticks, p)) <= 1.1e-3, "ticks-not-linear", lambda: f"{name}: {ticks}")


def image_pixels(ax, ctx):
    """(value, x, y) of every drawn pixel"""
    ctx.check(len(ax.images) == 1, "images", f"{len(ax.images)} images")
    im = ax.images[0]
    a = np.asarray(im.get_array())
    l, r, b, t = im.get_extent()
    if im.origin == "upper":
        b, t = t, b
    n, m = a.shape
    return a, [l + (r - l) * (j + .5) / m for j in range(m)], [b + (t - b) * (i + .5) / n for i in range(n)]


def check_2d(csd, l1, l2, srt, nx, ny, ctx):
    fig = plt.gcf()
    ax = main_axes(fig)
    a, xs, ys = image_pixels(ax, ctx)
    ctx.check(a.shape == csd.shape, "image-shape", f"{a.shape} != {csd.shape}")
    tx, ty = tick_map(ax.get_xticks(), ax.get_xticklabels()), tick_map(ax.get_yticks(), ax.get_yticklabels())
    check_ticks(tx, nx, ctx, "x")
    check_ticks(ty, ny, ctx, "y")
    n, m = csd.shape
    v1, v2 = np.linspace(l1[0], l1[1], m), np.linspace(l2[0], l2[1], n)
    for i in range(n):
        for j in range(m):
            gx = v1[np.argmin(np.abs(v1 - at(tx, xs[j])))] if m > 1 else v1[0]
            gy = v2[np.argmin(np.abs(v2 - at(ty, ys[i])))] if n > 1 else v2[0]
            ctx.check(m == 1 or abs(gx - at(tx, xs[j])) <= 1.1e-3, "axis-voltage", lambda: f"pixel {j} is drawn at {at(tx, xs[j])}, which is no measured g1 voltage {v1}")
            ctx.check(n == 1 or abs(gy - at(ty, ys[i])) <= 1.1e-3, "axis-voltage", lambda: f"pixel {i} is drawn at {at(ty, ys[i])}, which is no measured g2 voltage {v2}")
            jj, ii = int(np.argmin(np.abs(v1 - gx))), int(np.argmin(np.abs(v2 - gy)))
            ctx.check(a[i, j] == csd[ii, jj], "wrong-value", lambda: f"at ({gx}, {gy}) {a[i, j]} is drawn, {csd[ii, jj]} was measured there")
    # colours: every measured value has its own, larger values further up
    im = ax.images[0]
    u = np.unique(csd.astype(float))
    c = np.asarray(im.norm(u), float)
    ctx.check(len(u) == 1 or (abs(c[0]) < 1e-6 and abs(c[-1] - 1) < 1e-6 and np.allclose(c, (u - u[0]) / (u[-1] - u[0]), atol=1e-5)), "colours", lambda: f"values {u[:9]} have the colours {c[:9]}")
    ctx.check(im.get_interpolation() in ("none", "nearest", "auto", "antialiased"), "interpolated", lambda: f"values are interpolated: {im.get_interpolation()}")
    # the orientation: first labels left / bottom
    x0, x1 = ax.get_xlim()
    y0, y1 = ax.get_ylim()
    ctx.check(x0 < x1 and y0 < y1 and xs[0] <= xs[-1] and ys[0] <= ys[-1], "orientation", "inverted axes")
    if m > 1:
        ctx.check((tx[0][1] < tx[-1][1]) == (bool(srt) or l1[0] < l1[1]), "sorting", lambda: f"x ticks {tx}")
    if n > 1:
        ctx.check((ty[0][1] < ty[-1][1]) == (bool(srt) or l2[0] < l2[1]), "sorting", lambda: f"y ticks {ty}")
    # equal scale of both voltage axes
    asp = float(ax.get_aspect())
    px, py = abs(xs[1] - xs[0]) if m > 1 else 1, abs(ys[1] - ys[0]) if n > 1 else 1
    want = (abs(l2[1] - l2[0]) / (n * py)) / (abs(l1[1] - l1[0]) / (m * px))
    ctx.check(abs(asp - want) <= 1e-9 * want, "aspect", lambda: f"aspect {asp} != {want}")
    ctx.state(a, tx, ty)
    return ax


def make(l1, l2, sh):
    n, m = sh
    v1, v2 = np.meshgrid(np.linspace(l1[0], l1[1], m), np.linspace(l2[0], l2[1], n))
    return val(v1, v2)


def _two(sc, ctx):
    d1, d2 = D[sc["d"]]
    l1, l2 = lim(W[sc["w"]][0], d1), lim(W[sc["w"]][1], d2)
    csd = make(l1, l2, sc["sh"])
    keep = csd.copy(), l1.copy(), l2.copy()
    ctx.op()
    kw = {} if (sc["nx"], sc["ny"]) == (5, 5) else dict(num_xticks=sc["nx"], num_yticks=sc["ny"])
    if not sc["srt"]:
        kw["sort_volts"] = False
    plot_csd(csd, l1, l2, **kw)
    ctx.check(np.array_equal(csd, keep[0]) and np.array_equal(l1, keep[1]) and np.array_equal(l2, keep[2]), "data-modified", "arguments modified")
    check_2d(csd, l1, l2, sc["srt"], sc["nx"], sc["ny"], ctx)
    ax = main_axes(plt.gcf())
    ctx.check(len(plt.gcf().axes) == 2, "colorbar", "no colour bar")
    ctx.check(ax.get_xlabel() == "g1 [V]" and ax.get_ylabel() == "g2 [V]", "axis-labels", f"{ax.get_xlabel()} {ax.get_ylabel()}")


def check_1d(csd, l1, l2, srt, nx, ctx):
    ax = main_axes(plt.gcf())
    ctx.check(len(ax.lines) == 1, "lines", f"{len(ax.lines)} lines")
    x, y = ax.lines[0].get_data()
    n = len(csd)
    ctx.check(len(x) == n, "line-length", f"{len(x)} != {n}")
    t1, t2 = (tick_map(ax.get_xticks(), ax.get_xticklabels(), j) for j in (0, 1))
    for t, nm in ((t1, "g1"), (t2, "g2")):
        check_ticks(t, nx, ctx, nm)
    v1, v2 = np.linspace(l1[0], l1[1], n), np.linspace(l2[0], l2[1], n)
    order = []
    for xx, yy in zip(x, y):
        d = np.hypot(v1 - at(t1, float(xx)), v2 - at(t2, float(xx)))
        i = int(np.argmin(d))
        ctx.check(d[i] <= 1.6e-3, "axis-voltage", lambda: f"a value is drawn at ({at(t1, float(xx))}; {at(t2, float(xx))}) which was not measured")
        if l1[0] != l1[1] or l2[0] != l2[1]:
            ctx.check(csd[i] == yy, "wrong-value", lambda: f"at ({v1[i]}; {v2[i]}) {yy} is drawn, {csd[i]} was measured there")
        else:
            ctx.check(list(y) == list(csd), "wrong-value", "repeated measurement in another order")
    if l1[0] != l1[1]:
        ctx.check((t1[0][1] < t1[-1][1]) == (bool(srt) or l1[0] < l1[1]), "sorting", lambda: f"{t1}")
    x0, x1 = ax.get_xlim()
    ctx.check(x0 < x1, "orientation", "inverted axis")
    ctx.state(np.array(y), t1, t2)
    return ax


def _one(sc, ctx):
    l1, l2 = lim(W[sc["w"]][0], sc["d1"]), lim(W[sc["w"]][1], sc["d2"])
    n = sc["n"]
    csd = val(np.linspace(l1[0], l1[1], n), np.linspace(l2[0], l2[1], n)) + (1e-3 * np.arange(n) if sc["d1"] == 0 == sc["d2"] else 0)
    keep = csd.copy(), l1.copy(), l2.copy()
    ctx.op()
    kw = {} if sc["nx"] == 5 else dict(num_xticks=sc["nx"])
    if not sc["srt"]:
        kw["sort_volts"] = False
    plot_csd(csd, l1, l2, **kw)
    ctx.check(np.array_equal(csd, keep[0]) and np.array_equal(l1, keep[1]) and np.array_equal(l2, keep[2]), "data-modified", "arguments modified")
    ax = check_1d(csd, l1, l2, sc["srt"], sc["nx"], ctx)
    ty = [float(t) for t in ax.get_yticks()]
    ctx.check(len(ty) == 5 and abs(ty[0] - csd.min()) < 1e-9 and abs(ty[-1] - csd.max()) < 1e-9, "y-ticks", f"{ty}")
    ctx.check(ax.get_xlabel() == "(g1;g2) [V]" and ax.get_ylabel() == "Sensor signal [a.u.]", "axis-labels", f"{ax.get_xlabel()} {ax.get_ylabel()}")


def _opts(sc, ctx):
    """all combinations of the optional arguments"""
    o = sc["opt"]
    title, unit = "a title" if o & 1 else None, "mV" if o & 2 else "V"
    l1, l2 = np.array([.1, -.3]), np.array([-.2, .4])
    for labels, sl in itertools.product((None, ["P1", "P2"]), ("Sensor signal [a.u.]", "current", None)):
        if sl is None and sc["dim"] == 1:
            continue
        plt.close("all")
        save = bool(o & 4) and sl is not None and (ctx.tier == "thorough" or (labels is None and sl != "current"))
        csd = make(l1, l2, [4, 6]) if sc["dim"] == 2 else val(np.linspace(*l1, 6), np.linspace(*l2, 6))
        tmp = tempfile.mkdtemp(prefix="c27_")
        try:
            path = os.path.join(tmp, "plot.png") if save else None
            ctx.op()
            plot_csd(csd, l1, l2, title=title, voltage_unit=unit, gate_labels=labels, sensor_label=sl, save_path=path, num_yticks=3)
            ctx.check(not save or os.path.getsize(path) > 1000, "not-saved", "file not written")
            ctx.check(os.listdir(tmp) == (["plot.png"] if save else []), "files", f"{os.listdir(tmp)}")
        finally:
            shutil.rmtree(tmp)
        ax = check_2d(csd, l1, l2, True, 5, 3, ctx) if sc["dim"] == 2 else check_1d(csd, l1, l2, True, 5, ctx)
        a, b = labels or ["g1", "g2"]
        ctx.check(ax.get_title() == (title or ""), "title", ax.get_title())
        if sc["dim"] == 2:
            ctx.check((ax.get_xlabel(), ax.get_ylabel()) == (f"{a} [{unit}]", f"{b} [{unit}]"), "axis-labels", f"{ax.get_xlabel()} {ax.get_ylabel()}")
            bars = [x for x in plt.gcf().axes if x is not ax]
            ctx.check(len(bars) == (sl is not None), "colorbar", f"{len(bars)} colour bars")
            if bars:
                ctx.check(sl in (bars[0].get_ylabel(), bars[0].get_xlabel()), "colorbar-label", bars[0].get_ylabel())
        else:
            ctx.check((ax.get_xlabel(), ax.get_ylabel()) == (f"({a};{b}) [{unit}]", sl), "axis-labels", f"{ax.get_xlabel()} {ax.get_ylabel()}")


def _measured(sc, ctx):
    """a measurement and its plot, end to end"""
    d1, d2 = D[sc["d"]]
    l1, l2 = lim([-.2, -.08], d1), lim([-.19, -.07], d2)
    sim = Simulation(volt_limits_g1=np.array([-1., 1.]), volt_limits_g2=np.array([-1., 1.]), ideal_csd_config=C.structure("gaas"))
    res = [7, 9] if sc["dim"] == 2 else 9
    occ = sim.measure(l1, l2, resolution=np.array(res) if sc["dim"] == 2 else res)[1]
    img = occ[..., 0] + 100 * occ[..., 1]
    ctx.op()
    plot_csd(img, l1, l2)
    (check_2d(img, l1, l2, True, 5, 5, ctx) if sc["dim"] == 2 else check_1d(img, l1, l2, True, 5, ctx))
