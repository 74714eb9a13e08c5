"""C26: geometry helpers; all small configurations with exact rational oracles."""
import itertools, math
from fractions import Fraction as F
import numpy as np
from simcats.support_functions import (is_point_below_line, line_circle_intersection, line_line_intersection, pixel_to_volt_1d, rotate_points,
                                       signed_dist_points_line)
PROPERTY = "C26"
BOUNDS = ("rotation: all integer points of a 7x7 grid (in sets of every size up to the grid) x 25 angles of both signs incl. more than a turn; signed distance: all "
          "lines through two different points of a 5x5 integer grid x all points of a 7x7 grid; below-line, line-line: all lines with slopes / intercepts from 9 "
          "(thorough: 13) dyadic values and all vertical / horizontal numbers, int / float / numpy scalars, tuples / lists / arrays where documented; "
          "line-circle: all those lines x all centres of a 5x5 grid x 6 radii, plus Pythagorean tangents; pixel conversion: all pixels of 1..12 x ranges; all of it in four length units, points just on / above / below lines; large and non-contiguous point arrays; "
          "every invalid argument form")
ASSUMPTIONS = ["coordinates compared to 1e-9; exact rational arithmetic decides the number of intersections, except within 1e-9 of tangency for "
               "irrational configurations (not generated)"]
MB = [F(n, 4) for n in (-12, -8, -4, -2, 0, 1, 4, 6, 8)]
MORE = [F(n, 4) for n in (-20, -1, 3, 28)]


def vals(tier):
    return MB + (MORE if tier == "thorough" else [])


def scenarios(tier):
    for a in range(-12, 13):
        yield dict(k="rot", a=a)
    for x1, y1 in itertools.product(range(-2, 3), repeat=2):
        yield dict(k="dist", p=[x1, y1])
    for m in range(len(vals(tier))):
        yield dict(k="below", m=m)
        yield dict(k="lines", m=m)
        yield dict(k="circle", m=m)
    yield dict(k="vertical")
    yield dict(k="tangent")
    yield dict(k="pixel")
    for i in range(6):
        yield dict(k="valid", i=i)


def run(sc, ctx):
    globals()["_" + sc["k"]](sc, ctx)
    ctx.sample = {"scenario": sc}


def _rot(sc, ctx):
    pts = np.array([[x, y] for x in range(-3, 4) for y in range(-3, 4)], float)
    angle = sc["a"] * math.pi / 5 if sc["a"] % 2 else sc["a"] * math.pi / 4
    for n in [1, 2, 3, 7, len(pts)]:
        for s in range(0, len(pts) - n + 1):
            for arr in (pts[s:s + n], pts[s:s + n].astype(int)):
                keep = arr.copy()
                got = rotate_points(arr, angle)
                ctx.op()
                c, si = math.cos(angle), math.sin(angle)
                want = np.array([[c * x - si * y, si * x + c * y] for x, y in arr])
                ctx.check(got.shape == arr.shape and np.allclose(got, want, atol=1e-12), "rotate", lambda: f"{arr} by {angle}: {got}")
                ctx.check(np.array_equal(arr, keep), "argument-modified", "points modified")
                ctx.check(np.allclose(rotate_points(got, -angle), arr, atol=1e-12), "rotate-back", f"{angle}")
    c, si = math.cos(angle), math.sin(angle)
    want = np.stack([c * pts[:, 0] - si * pts[:, 1], si * pts[:, 0] + c * pts[:, 1]], -1)
    big = np.resize(np.arange(len(pts)), 70001)
    back = np.zeros((len(pts), 4))
    back[:, ::2] = pts
    ro = pts.copy()
    ro.flags.writeable = False
    for name, arr, w in (("70001 points", pts[big], want[big]), ("Fortran", np.asfortranarray(pts), want), ("view", back[:, ::2], want), ("reversed", pts[::-1], want[::-1]), ("read-only", ro, want)):
        ctx.check(np.allclose(rotate_points(arr, angle), w, atol=1e-12), "rotate-form", name)
    for s in SCALES:
        ctx.check(np.allclose(rotate_points(pts * s, angle) / s, want, atol=1e-12), "rotate", lambda: f"in units of {s}: {angle}")
    one = rotate_points(np.array([1., 2.]), angle)
    ctx.check(np.shape(one) == (2,) and np.allclose(one, [math.cos(angle) - 2 * math.sin(angle), math.sin(angle) + 2 * math.cos(angle)]), "rotate-single", f"{one}")
    ctx.check(np.allclose(rotate_points(pts), rotate_points(pts, math.pi / 4)) and rotate_points(np.array([[1., 0.]]))[0, 1] > 0, "rotate-default", "default angle")
    ctx.state(one)


def _dist(sc, ctx):
    a = np.array(sc["p"], float)
    pts = np.array([[x, y] for x in range(-3, 4) for y in range(-3, 4)], float)
    for b in itertools.product(range(-2, 3), repeat=2):
        b = np.array(b, float)
        if (a == b).all():
            continue
        line = np.array([a, b])
        for P, L in ((pts, line), (pts.astype(int), line.astype(int)), (pts[:1], line)):
            kp, kl = P.copy(), L.copy()
            got = signed_dist_points_line(P, L)
            ctx.op()
            d = b - a
            # positive to the right of the direction of travel
            want = np.array([(d[1] * (p[0] - a[0]) - d[0] * (p[1] - a[1])) / math.hypot(*d) for p in P])
            ctx.check(np.shape(got) == (len(P),) and np.allclose(got, want, atol=1e-12), "signed-distance", lambda: f"{a} {b}: {got} != {want}")
            for s in SCALES:
                ctx.check(np.allclose(signed_dist_points_line(P * s, L * s) / s, want, atol=1e-12), "signed-distance", lambda: f"in units of {s}: {a} {b}")
            ctx.check(np.array_equal(P, kp) and np.array_equal(L, kl), "argument-modified", "arguments modified")
        big = np.resize(np.arange(len(pts)), 70001)
        ref = signed_dist_points_line(pts, line)
        for name, arr, w in (("70001 points", pts[big], ref[big]), ("Fortran", np.asfortranarray(pts), ref), ("reversed", pts[::-1], ref[::-1])):
            ctx.check(np.allclose(signed_dist_points_line(arr, line), w, atol=1e-12), "distance-form", name)
        ctx.state(got)


def forms(q):
    """the number forms of a rational: float, numpy float, int where integral"""
    out = [float(q), np.float64(q)]
    return out + ([int(q), np.int64(q)] if q.denominator == 1 else [])


def _below(sc, ctx):
    V = vals(ctx.tier)
    m = V[sc["m"]]
    for b, x, y in itertools.product(V, [F(-2), F(-1, 2), F(0), F(3, 4), F(4)], V + [F(5, 8)]):
        ctx.op()
        want = y < m * x + b
        for fm, fb in zip(forms(m), forms(b)):
            got = is_point_below_line((float(x), float(y)), (fm, fb))
            ctx.check(bool(got) == want, "below-line", lambda: f"({x},{y}) {m}x+{b}: {got}")
        for e in (0., 2. ** -30, -2. ** -30, 1e-15):       # on the line (not below), just below, just above
            yl = float(m) * float(x) + float(b)
            got = is_point_below_line((float(x), yl - e), (float(m), float(b)))
            ctx.check(bool(got) == (yl - e < yl), "below-line", lambda: f"{e} below {m}x+{b} at {x}: {got}")
            got = is_point_below_line((float(x), float(b) - e), float(b))
            ctx.check(bool(got) == (float(b) - e < float(b)), "below-horizontal", lambda: f"{e} below {b}: {got}")
        want = y < b
        for fb in forms(b):
            got = is_point_below_line((float(x), float(y)), fb)
            ctx.check(bool(got) == want, "below-horizontal", lambda: f"({x},{y}) y={fb!r}: {got}")
        got = is_point_below_line(np.array([float(x), float(y)]), float(b))
        ctx.check(bool(got) == want, "below-array-point", lambda: f"({x},{y}) y={b}: {got}")


def lforms(m, b):
    m, b = float(m), float(b)
    out = [(m, b), [m, b], np.array([m, b])]
    if m == int(m) and b == int(b):
        out += [(int(m), int(b)), np.array([int(m), int(b)])]
    return out


def refused(f):
    try:
        return False, f()
    except ValueError:
        return True, None


def same_point(got, want):
    return np.shape(got) == (2,) and np.allclose(np.asarray(got, float), [float(w) for w in want], rtol=1e-12, atol=1e-12)


def _lines(sc, ctx):
    V = vals(ctx.tier)
    m1 = V[sc["m"]]
    for b1, m2, b2 in itertools.product(V, V, V):
        ctx.op()
        f1, f2 = lforms(m1, b1), lforms(m2, b2)
        for k in range(max(len(f1), len(f2))):
            l1, l2 = f1[k % len(f1)], f2[(k + 1) % len(f2)]
            r, got = refused(lambda: line_line_intersection(l1, l2))
            if m1 == m2:
                ctx.check(r, "parallel-accepted", lambda: f"{l1} {l2}: {got}")
            else:
                x = (b2 - b1) / (m1 - m2)
                ctx.check(not r and same_point(got, (x, m1 * x + b1)), "line-line", lambda: f"{l1} {l2}: {got}, ({x}, {m1 * x + b1}) expected")
        if m1 != m2:
            for s in SCALES:
                r, got = refused(lambda: line_line_intersection((float(m1), float(b1) * s), (float(m2), float(b2) * s)))
                ctx.check(not r and same_point(np.array(got) / s, (x, m1 * x + b1)), "line-line", lambda: f"in units of {s}: {m1}x+{b1} {m2}x+{b2}: {got}")
    for e in (F(1, 2 ** 20), F(-1, 2 ** 30), F(1, 2 ** 8)):      # nearly parallel lines do intersect
        for b1, b2 in itertools.product(V, V):
            ctx.op()
            m2 = m1 + e
            x = (b2 - b1) / (m1 - m2)
            for args in (((float(m1), float(b1)), (float(m2), float(b2))), (np.array([float(m2), float(b2)]), np.array([float(m1), float(b1)]))):
                r, got = refused(lambda: line_line_intersection(*args))
                ctx.check(not r and same_point(got, (x, m1 * x + b1)), "line-line", lambda: f"{args}: {got}, ({x}, {m1 * x + b1}) expected")
    for b1, v in itertools.product(V, V):
        ctx.op()
        for l1 in lforms(m1, b1):
            for fv in forms(v):
                for args in ((l1, fv), (fv, l1)):
                    r, got = refused(lambda: line_line_intersection(*args))
                    ctx.check(not r and same_point(got, (v, m1 * v + b1)), "line-vertical", lambda: f"{args}: {got}, ({v}, {m1 * v + b1}) expected")
    for v in V:
        for f1, f2 in itertools.product(forms(m1), forms(v)):
            r, got = refused(lambda: line_line_intersection(f1, f2))
            ctx.check(r, "parallel-accepted", lambda: f"vertical lines {f1} {f2}: {got}")


def isqrt(q):
    """exact square root of a rational or None"""
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return F(n, d) if n * n == q.numerator and d * d == q.denominator else None


SCALES = (2. ** -24, 2. ** -12, 2. ** 12)        # powers of two: scaled arguments are exact


def scaled(line, c, r, want, ctx, what):
    """the same configuration in other length units"""
    for s in SCALES:
        got = line_circle_intersection((line[0], line[1] * s) if isinstance(line, tuple) else line * s, (c[0] * s, c[1] * s), r * s)
        compare([(p[0] / s, p[1] / s) for p in got], want, ctx, f"in units of {s}: {what}")


def compare(got, want, ctx, what):
    ctx.check(isinstance(got, list) and len(got) == len(want), "count", lambda: f"{what}: {got}, {want} expected")
    if not want:
        return
    g = sorted((float(p[0]), float(p[1])) for p in got)
    w = sorted(want)
    ctx.check(np.allclose(g, w, rtol=1e-9, atol=1e-9) or np.allclose(g, sorted(w, key=lambda p: (round(p[0], 6), p[1])), rtol=1e-9, atol=1e-9),
              "points", lambda: f"{what}: {got}, {want} expected")


def _circle(sc, ctx):
    V = vals(ctx.tier)
    m = V[sc["m"]]
    for b, cx, cy, r in itertools.product(V, range(-2, 3), range(-2, 3), [F(1, 4), F(1), F(3, 2), F(2), F(5), F(13, 2)]):
        ctx.op()
        # foot point of the centre and half chord, exactly
        fx = (cx + m * (cy - b)) / (1 + m * m)
        fy = m * fx + b
        h2 = r * r - ((fx - cx) ** 2 + (fy - cy) ** 2)
        if h2 < 0:
            want = []
        elif h2 == 0:
            want = [(float(fx), float(fy))]
        else:
            dx = math.sqrt(h2 / (1 + m * m))
            want = [(float(fx) + s * dx, float(fy) + s * dx * float(m)) for s in (1, -1)]
        for fm in ((float(m), float(b)),) + (((int(m), int(b)),) if m == int(m) and b == int(b) else ()):
            compare(line_circle_intersection(fm, (float(cx), float(cy)), float(r)), want, ctx, f"{fm} ({cx},{cy}) {r}")
        scaled((float(m), float(b)), (cx, cy), float(r), want, ctx, f"{m}x+{b} ({cx},{cy}) {r}")
        ctx.state(want)


def _vertical(sc, ctx):
    for v, cx, cy, r in itertools.product(vals(ctx.tier), range(-2, 3), range(-2, 3), [F(1, 4), F(1), F(3, 2), F(2), F(5), F(13, 2)]):
        ctx.op()
        h2 = r * r - (v - cx) ** 2
        want = [] if h2 < 0 else [(float(v), float(cy))] if h2 == 0 else [(float(v), cy + s * math.sqrt(h2)) for s in (1, -1)]
        for fv in forms(v):
            compare(line_circle_intersection(fv, (cx, cy), float(r)), want, ctx, f"x={fv!r} ({cx},{cy}) {r}")
        scaled(float(v), (cx, cy), float(r), want, ctx, f"x={v} ({cx},{cy}) {r}")
        ctx.state(want)


def _tangent(sc, ctx):
    """lines touching a circle in exactly one point (exact in floating point)"""
    for m, cx, cy, r in ((m, cx, cy, r) for m in (F(3, 4), F(-3, 4), F(15, 8)) for cx in range(-2, 3) for cy in range(-2, 3) for r in (4, 8)):
        s = isqrt(1 + m * m)
        for sign in (1, -1):
            b = cy - m * cx + sign * r * s
            fx = (cx + m * (cy - b)) / (1 + m * m)
            ctx.op()
            got = line_circle_intersection((float(m), float(b)), (cx, cy), r)
            compare(got, [(float(fx), float(m * fx + b))], ctx, f"tangent {m}x+{b} ({cx},{cy}) {r}")
            scaled((float(m), float(b)), (cx, cy), r, [(float(fx), float(m * fx + b))], ctx, f"tangent {m}x+{b} ({cx},{cy}) {r}")
            ctx.state(got)


def _pixel(sc, ctx):
    for n in range(1, 13):
        for lim in ([0., 1.], [1., 0.], [-.2, -.06], [-.06, -.2], [3., 3.], [-1, 2]):
            for arr in (np.array(lim), lim):
                for p in range(0, n + 1):
                    ctx.op()
                    got = pixel_to_volt_1d(p, n, arr)
                    want = lim[0] + (lim[1] - lim[0]) * p / n
                    ctx.check(abs(got - want) <= 1e-12, "pixel-voltage", lambda: f"pixel {p} of {n}, {lim}: {got} != {want}")
                px = np.arange(n + 1)
                got = pixel_to_volt_1d(px, n, arr)
                ctx.check(np.allclose(got, lim[0] + (lim[1] - lim[0]) * px / n, atol=1e-12), "pixel-array", lambda: f"{got}")
                ctx.state(got)


def _valid(sc, ctx):
    bad = [lambda: [line_circle_intersection((1., 0.), (0, 0), r) for r in (0,)], lambda: line_circle_intersection(1., (0, 0), -1.),
           lambda: line_line_intersection((1, 2, 3), (1, 2)), lambda: line_line_intersection((1., 2.), [1.]),
           lambda: is_point_below_line((0, 0), (1, 2, 3)), lambda: is_point_below_line((0, 0), "x")]
    ctx.op()
    ctx.check(refused(bad[sc["i"]])[0], "invalid-accepted", f"invalid argument {sc['i']} accepted")
