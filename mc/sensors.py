"""Sensor configurations shared by the checks, and their independent reference model."""
import copy, math
import numpy as np
from simcats import default_configs
from simcats.sensor import (SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian, SensorScanSensorGeneric, SensorRiseGLF)
from simcats.sensor.barrier_function import BarrierFunctionGLF
from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear

_B1 = dict(pinch_off_percentage=0.01, fully_conductive_percentage=0.95, asymptote_left=0, asymptote_right=0.3, growth_rate=20,
           asymmetry=1.0, shape_factor=1.0, denominator_offset=1, offset=-0.5)
_B2 = dict(pinch_off_percentage=0.02, fully_conductive_percentage=0.9, asymptote_left=0, asymptote_right=0.4, growth_rate=25,
           asymmetry=0.5, shape_factor=2.0, denominator_offset=1, offset=-0.6)
_PK = [("lorentz", -0.15, 0.002, 0.2, 0.0), ("gauss", -0.13, 0.003, 0.25, 0.01), ("lorentz", -0.11, 0.004, 0.3, 0.0)]
_RISE = dict(mu0=0.03, asymptote_left=0, asymptote_right=0.2, growth_rate=200, asymmetry=0.5, shape_factor=2,
             fully_conductive_percentage=0.99)

TOY = dict(barriers=[_B1, _B2], peaks=_PK, asg=[[0.1, 0.12], [0.9, 0.2], [0.15, 1.1]], ag=[[.02, .03], [.1, .05], [.07, .12]],
           ad=[[-.003, -.005], [-.02, -.01], [-.015, -.03]], off=[0.001, 0.02, -0.03], rise=None, deform={})


def _v(**kw):
    d = copy.deepcopy(TOY)
    d.update(kw)
    return d


def _default():
    s = default_configs["GaAs_v2_extended_sensor"]["sensor"]
    names = ("pinch_off_percentage", "fully_conductive_percentage", "asymptote_left", "asymptote_right", "growth_rate",
             "asymmetry", "shape_factor", "denominator_offset", "offset")
    r = s.final_rise
    return dict(barriers=[{n: getattr(b, n) for n in names} for b in s.barrier_functions],
                peaks=[("lorentz", p.mu0, p.gamma, p.height, p.offset) for p in s.sensor_peak_function],
                asg=np.array(s.alpha_sensor_gate).tolist(), ag=np.array(s.alpha_gate).tolist(), ad=np.array(s.alpha_dot).tolist(),
                off=np.array(s.offset_mu_sens, float).tolist(),
                rise={n: getattr(r, n) for n in ("mu0", "asymptote_left", "asymptote_right", "growth_rate", "asymmetry",
                                                 "shape_factor", "fully_conductive_percentage")}, deform={})


SCAN = {
    "toy": TOY,
    "toy_rise": _v(rise=_RISE),
    "toy_onebar": _v(barriers=[_B1], ag=[.02, .03], ad=[-.003, -.005], off=0.01),
    "toy_noplunger": _v(ag=None, ad=None, off=[0.0, 0.0, 0.0]),
    "toy_nopeak": _v(peaks=None, off=[0.5, 0.02, -0.03]),
    "toy_unsorted": _v(peaks=[_PK[2], _PK[0], _PK[1]], rise=_RISE),
    "toy_axis": _v(asg=[[0.1, 0.12], [0.9, 0.0], [0.0, 1.1]], rise=_RISE),
    # the sensor dot couples to sensor gate 2 only
    "toy_vert": _v(asg=[[0.0, 0.22], [0.9, 0.2], [0.15, 1.1]], rise=_RISE),
    "default": _default(),
}
DEFORM = {
    "circ": {1: ("circle", 0.1)},
    "circ_neg_small": {0: ("circle", -0.01), 2: ("circle", 0.02)},
    "lin": {0: ("linear", 1.2), 1: ("linear", -1.3)},
    "mixed": {0: ("linear", 2.0), 2: ("circle", -0.05)},
}


def peak(kind, mu0, w, h, o):
    return (SensorPeakGaussian(mu0=mu0, sigma=w, height=h, offset=o) if kind == "gauss"
            else SensorPeakLorentzian(mu0=mu0, gamma=w, height=h, offset=o))


def build(cfg, deform=None):
    b = [BarrierFunctionGLF(**p) for p in cfg["barriers"]]
    d = {int(k): (SensorPeakDeformationCircle(v[1]) if v[0] == "circle" else SensorPeakDeformationLinear(v[1]))
         for k, v in cfg["deform"].items()} if deform is None else deform
    off = cfg["off"]
    return SensorScanSensorGeneric(
        barrier_functions=b[0] if len(b) == 1 else tuple(b),
        sensor_peak_function=None if cfg["peaks"] is None else [peak(*p) for p in cfg["peaks"]],
        alpha_sensor_gate=np.array(cfg["asg"]), alpha_gate=None if cfg["ag"] is None else np.array(cfg["ag"]),
        alpha_dot=None if cfg["ad"] is None else np.array(cfg["ad"]),
        offset_mu_sens=np.array(off) if isinstance(off, list) else off,
        final_rise=None if cfg["rise"] is None else SensorRiseGLF(**cfg["rise"]), sensor_peak_deformations=d)


def cfg(name, deform=None):
    c = copy.deepcopy(SCAN[name])
    if deform:
        c["deform"] = dict(DEFORM[deform] if isinstance(deform, str) else deform)
    return c


# ----------------------------------------------------------------------------------------------- reference model
def peak_ref(p, mu, mu0=None):
    kind, m0, w, h, o = p
    z = (np.asarray(mu, float) - (m0 if mu0 is None else mu0)) / w
    return o + h * (np.exp(-z * z) if kind == "gauss" else 1.0 / (1.0 + z * z))


def glf_ref(t, A, K, B, nu, Q, C, M):
    return A + (K - A) / (C + Q * np.exp(-B * (np.asarray(t, float) - M))) ** (1.0 / nu)


def glf_inv(y, A, K, B, nu, Q, C, M):
    return M - math.log((((K - A) / (y - A)) ** nu - C) / Q) / B


def _gp(b):
    return tuple(b[k] for k in ("asymptote_left", "asymptote_right", "growth_rate", "asymmetry", "shape_factor",
                                "denominator_offset", "offset"))


def barrier_value(b, t):
    return glf_ref(t, *_gp(b))


def barrier_threshold(b, which):
    A, K = b["asymptote_left"], b["asymptote_right"]
    return glf_inv(min(A, K) + abs(K - A) * b[which], *_gp(b))


class ScanRef:
    def __init__(self, c):
        self.c = c
        self.b = c["barriers"] if len(c["barriers"]) == 2 else c["barriers"] * 2

        def three(a):
            a = np.zeros((3, 2)) if a is None else np.array(a, float)
            return np.array([a, a, a]) if a.ndim == 1 else a
        self.S, self.G, self.D = np.array(c["asg"], float), three(c["ag"]), three(c["ad"])
        self.O = np.array(c["off"], float) if isinstance(c["off"], list) else np.full(3, float(c["off"]))
        self.po = np.array([barrier_threshold(b, "pinch_off_percentage") for b in self.b])
        self.fc = np.array([barrier_threshold(b, "fully_conductive_percentage") for b in self.b])

    def rest(self, vp, occ):
        """contribution of plunger gates, occupations and offset, (..., 3)"""
        return np.asarray(occ, float) @ self.D.T + np.asarray(vp, float) @ self.G.T + self.O

    def potentials(self, vs, vp, occ):
        p = np.asarray(vs, float) @ self.S.T + self.rest(vp, occ)
        return np.moveaxis(p, -1, 0)

    def point(self, targets, vp, occ):
        """sensor gate voltages at which the two barrier potentials have the given values"""
        t = np.asarray(targets, float) - self.rest(vp, occ)[..., 1:]
        (a, b), (c, d) = self.S[1], self.S[2]
        det = a * d - b * c
        return np.stack([(d * t[..., 0] - b * t[..., 1]) / det, (a * t[..., 1] - c * t[..., 0]) / det], axis=-1)

    def fc_potential(self, vp, occ):
        return self.point(self.fc, vp, occ) @ self.S[0] + self.rest(vp, occ)[..., 0]

    def dist(self, vs, vp, occ):
        d = np.asarray(vs, float) - self.point(self.po, vp, occ)
        u = self.S[0] / math.hypot(*self.S[0]) * math.copysign(1, self.S[0, 0])
        return u[1] * d[..., 0] - u[0] * d[..., 1]

    def moved(self, idx, dist):
        """centre of peak idx at signed distance dist"""
        mu0 = self.c["peaks"][idx][1]
        d = self.c["deform"].get(idx)
        dist = np.asarray(dist, float)
        if d is None:
            return np.full(dist.shape, mu0)
        n = math.hypot(*self.S[0])
        if d[0] == "linear":
            return mu0 + dist * n / math.tan(d[1])
        R, s = abs(d[1]) / n, math.copysign(1, d[1])
        a = np.minimum(np.abs(dist), R)
        return mu0 - s * (R - np.sqrt(R * R - a * a))

    def peaks(self, mu, dist=None):
        """dist None: undeformed"""
        if self.c["peaks"] is None:
            return np.asarray(mu, float)
        out = 0.0
        for i, p in enumerate(self.c["peaks"]):
            out = out + (peak_ref(p, mu) if dist is None else peak_ref(p, mu, self.moved(i, dist)))
        return out

    def rise(self, mu, fcpot):
        r = self.c["rise"]
        A, K = r["asymptote_left"], r["asymptote_right"]
        g = (A, K, r["growth_rate"], r["asymmetry"], r["shape_factor"], 1.0)
        own = glf_inv(A + (K - A) * r["fully_conductive_percentage"], *g, 0.0)
        return glf_ref(np.asarray(mu) - fcpot + own, *g, 0.0)

    def combine(self, s, pot):
        b1, b2 = barrier_value(self.b[0], pot[1]), barrier_value(self.b[1], pot[2])
        num = s * b1 * b2
        den = b1 * b2 + s * b1 + s * b2
        with np.errstate(all="ignore"):
            return np.where(den != 0, num / np.where(den == 0, 1, den), 0.0), b1, b2

    def response(self, vs, vp, occ, dist=None, rise=True):
        pot = self.potentials(vs, vp, occ)
        s = self.peaks(pot[0], dist)
        if self.c["rise"] is not None and rise:
            s = np.maximum(s, self.rise(pot[0], self.fc_potential(vp, occ)))
        r, b1, b2 = self.combine(s, pot)
        return r, s, b1, b2


# ----------------------------------------------------------------------------------------------- CSD sensors
GENERIC = {
    "none": dict(peaks=None, ad=[-.4, -.3], ag=[.2, .1], off=1.5),
    "one": dict(peaks=[("lorentz", -0.3, 0.2, 1.5, 0.1)], ad=[-.4, -.3], ag=[.2, .1], off=0),
    "gauss": dict(peaks=[("gauss", -0.5, 0.25, 2.0, -0.1), ("lorentz", -1.0, 0.1, 1.0, 0.05), ("gauss", 0.1, 0.5, -1.0, 0.3)],
                  ad=[-.25, -.35], ag=[-.3, .7], off=-0.2),
}


def build_generic(c):
    pk = None if c["peaks"] is None else [peak(*p) for p in c["peaks"]]
    if pk is not None and len(pk) == 1:
        pk = pk[0]
    return SensorGeneric(sensor_peak_function=pk, alpha_dot=np.array(c["ad"]), alpha_gate=np.array(c["ag"]), offset_mu_sens=c["off"])


def generic_ref(c, v, occ):
    mu = np.asarray(occ, float) @ np.array(c["ad"], float) + np.asarray(v, float) @ np.array(c["ag"], float) + c["off"]
    return mu, (mu if c["peaks"] is None else sum(peak_ref(p, mu) for p in c["peaks"]))


def pix(r1, r2, res):
    from .refs import grid
    return grid(r1, r2, res)
