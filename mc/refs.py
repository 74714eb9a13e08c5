"""Independent reference models (closed forms written from the documentation, no use of simcats code)."""
import math
import numpy as np


# ------------------------------------------------------------------------------------------------ plane geometry
def rot(p, a):
    p = np.asarray(p, float)
    c, s = math.cos(a), math.sin(a)
    return np.stack([c * p[..., 0] - s * p[..., 1], s * p[..., 0] + c * p[..., 1]], axis=-1)


def sdist(p, a, b):
    """signed distance of p from the line a->b, positive on the right hand side"""
    p, a, b = (np.asarray(v, float) for v in (p, a, b))
    d = b - a
    return (d[1] * (p[..., 0] - a[0]) - d[0] * (p[..., 1] - a[1])) / math.hypot(d[0], d[1])


# ------------------------------------------------------------------------------------------------ transition curves
class Tct:
    """Total charge transition: line / Bezier arcs, `peaks` maxima (None: unlimited)."""

    def __init__(self, par, peaks):
        lL, lR, gl, gr, x0, y0, x2, y2 = (float(v) for v in par)
        self.lL, self.lR, self.gl, self.gr, self.peaks = lL, lR, gl, gr, peaks
        self.L, self.R = np.array([x0, y0]), np.array([x2, y2])
        if x0 == x2 and y0 == y2:
            self.C = self.L.copy()
        else:
            cx = (y0 - y2 + x2 * gr - x0 * gl) / (gr - gl)
            self.C = np.array([cx, y0 + gl * (cx - x0)])
        self.dL, self.dR = self.C[0] - x0, x2 - self.C[0]
        self.period = np.array([lL + lR, lR * gr + lL * gl])

    def peak(self, k):
        s = k * self.period
        return self.L + s, self.C + s, self.R + s

    def valley(self, k):
        """valley to the right of peak k"""
        c = self.C + k * self.period + np.array([self.lR, self.lR * self.gr])
        return c - self.dR * np.array([1, self.gr]), c, c + self.dL * np.array([1, self.gl])

    def anchors(self):
        out = []
        for k in range(self.peaks):
            out.append(self.peak(k))
            if k < self.peaks - 1:
                out.append(self.valley(k))
        return np.array(out)

    @staticmethod
    def _bez(x, n):
        (a, ya), (b, yb), (c, yc) = n
        A, B, C = a - 2 * b + c, 2 * (b - a), a - x
        D = max(B * B - 4 * A * C, 0.0)
        den = B + math.sqrt(D)
        t = 0.0 if den == 0 else -2 * C / den
        t = min(max(t, 0.0), 1.0)
        return (1 - t) ** 2 * ya + 2 * t * (1 - t) * yb + t * t * yc

    def __call__(self, x):
        if np.ndim(x):
            return np.array([self(v) for v in np.ravel(x)]).reshape(np.shape(x))
        x = float(x)
        k = math.floor((x - self.L[0]) / self.period[0])
        if self.peaks is not None:
            if x <= self.L[0]:
                return self.L[1] + (x - self.L[0]) * self.gl
            last = self.peak(self.peaks - 1)[2]
            if x >= last[0]:
                return last[1] + (x - last[0]) * self.gr
            k = min(max(k, 0), self.peaks - 1)
        p, v = self.peak(k), self.valley(k)
        if x <= p[2][0]:
            return self._bez(x, p) if p[2][0] > p[0][0] else p[1][1]
        if x <= v[0][0]:
            return p[2][1] + (x - p[2][0]) * self.gr
        if x <= v[2][0]:
            return self._bez(x, v) if v[2][0] > v[0][0] else v[1][1]
        return v[2][1] + (x - v[2][0]) * self.gl


class Structure:
    def __init__(self, tct_params, rotation=-math.pi / 4, lut_entries=None, cdf_type="sigmoid", cdf_gamma_factor=None):
        self.tct = [Tct(p, i + 1) for i, p in enumerate(tct_params)]
        self.rotation, self.lut, self.cdf = rotation, lut_entries, cdf_type
        self.gf = cdf_gamma_factor if cdf_gamma_factor is not None else {"sigmoid": 2.2, "cauchy": 6.15}[cdf_type]
        self._anch = [rot(t.anchors(), rotation) for t in self.tct]
        # largest deviation of the lookup table from the exact curve (nearest entry): slope * half spacing
        self.tol = 1e-12 + (0 if not lut_entries else max(
            (max(t.dL, t.dR) * 2 / (lut_entries - 1)) * max(abs(t.gl), abs(t.gr)) for t in self.tct))

    def heights(self, v):
        """for voltages v (..., 2): height above every curve (..., n_tct)"""
        r = rot(v, -self.rotation)
        flat = r.reshape(-1, 2)
        h = np.array([[p[1] - t(p[0]) for t in self.tct] for p in flat])
        return h.reshape(r.shape[:-1] + (len(self.tct),))

    def total_interval(self, v, extra=0.0):
        """smallest and largest admissible total charge (they differ within the lookup tolerance of a curve)"""
        h = self.heights(v)
        lo = _count(h >= self.tol + extra)
        hi = _count(h >= -self.tol - extra)
        return lo, hi

    def occ1(self, v, n):
        """occupation of dot 1 at voltages v (..,2) in the region with n electrons (scalar n)"""
        v = np.asarray(v, float)
        if n == 0:
            return np.zeros(v.shape[:-1])
        a, b = self._anch[n - 1][0, 1], self._anch[n][1, 1]     # peak of TCT n -> first valley of TCT n+1
        d = sdist(v, a, b)
        out = np.zeros(d.shape)
        for i in range(0, 2 * n - 1, 2):
            lft, c, rgt = self._anch[n - 1][i]
            x0 = sdist(c, a, b)
            w = (sdist(rgt, a, b) - sdist(lft, a, b)) / self.gf
            z = d - x0
            if abs(w) < 1.0000001e-8:
                out += (z > 0)
            elif self.cdf == "sigmoid":
                out += 0.5 * (1 + np.tanh(z / w))
            else:
                out += np.arctan(z / w) / math.pi + 0.5
        return out

    def occ(self, v, n):
        o = self.occ1(v, n)
        return np.stack([o, n - o], axis=-1)


def _count(b):
    """number of leading True entries along the last axis (curves are ordered)"""
    return np.cumprod(b.astype(int), axis=-1).sum(axis=-1)


def grid(r1, r2, res):
    """voltages of all pixels: (rows, cols, 2) for two resolutions, (n, 2) for one"""
    if np.ndim(res) and len(res) == 2:
        a, b = lin(r1, int(res[0])), lin(r2, int(res[1]))
        g = np.empty((len(b), len(a), 2))
        g[..., 0], g[..., 1] = a[None, :], b[:, None]
        return g
    n = int(res) if not np.ndim(res) else int(res[0])
    return np.stack([lin(r1, n), lin(r2, n)], axis=-1)


def lin(r, n):
    if n == 1:
        return np.array([float(r[0])])
    i = np.arange(n)
    return r[0] + (r[1] - r[0]) * i / (n - 1)


# ------------------------------------------------------------------------------------------------ blurring
def blur(x, s, kind):
    """rows of x (.., n) convolved with a normalised kernel of width s pixels, borders mirrored"""
    x = np.asarray(x, float)
    n = x.shape[-1]
    rad = int(4.0 * s + 0.5) if kind == "gauss" else round(4.0 * s)
    k = np.arange(-rad, rad + 1)
    with np.errstate(all="ignore"):
        w = np.exp(-0.5 * (k / s) ** 2) if kind == "gauss" else 1 / np.cosh(k / s) ** 2
    w = w / w.sum()
    out = np.zeros_like(x)
    for kk, ww in zip(k, w):
        i = (np.arange(n) + kk) % (2 * n)
        out += ww * x[..., np.where(i < n, i, 2 * n - 1 - i)]
    return out
