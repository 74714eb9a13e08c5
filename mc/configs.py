"""Configurations shared by the checks (structures, sensors), built from public constructors."""
import math
import numpy as np
from simcats import default_configs
from simcats.ideal_csd import IdealCSDGeometric
from . import refs

_G = [np.array(p) for p in default_configs["GaAs_v1"]["ideal_csd_config"].tct_params]


def gaas_params():
    return [p.copy() for p in _G]


def toy_params(n=6, scale=100.0, coupling=1.0):
    """GaAs-like structure in other units, with other slopes per curve and (coupling=0) without Bezier arcs"""
    out = []
    for k in range(n):
        p = _G[k].copy()
        p[[0, 1, 4, 5, 6, 7]] *= scale
        if coupling != 1.0:
            w = (p[6] - p[4])
            # shrink the arc around its centre anchor
            c = (p[5] - p[7] + p[6] * p[3] - p[4] * p[2]) / (p[3] - p[2])
            cy = p[5] + p[2] * (c - p[4])
            l, r = c + (p[4] - c) * coupling, c + (p[6] - c) * coupling
            p[4], p[5], p[6], p[7] = l, cy + p[2] * (l - c), r, cy + p[3] * (r - c)
            if coupling == 0:
                p[6], p[7] = p[4], p[5]
        out.append(p)
    return out


STRUCT = {
    "gaas": dict(tct_params=gaas_params(), rotation=-math.pi / 4, lut_entries=1000),
    "gaas_cauchy": dict(tct_params=gaas_params(), rotation=-math.pi / 4, lut_entries=1000, cdf_type="cauchy"),
    "gaas_gf": dict(tct_params=gaas_params(), rotation=-math.pi / 4, lut_entries=500, cdf_type="sigmoid",
                    cdf_gamma_factor=5.0),
    "toy": dict(tct_params=toy_params(), rotation=-0.7, lut_entries=400),
    "toy_nc": dict(tct_params=toy_params(coupling=0.0), rotation=-math.pi / 4, lut_entries=200),
    "toy_exact": dict(tct_params=toy_params(n=4), rotation=-0.85, lut_entries=None, cdf_type="cauchy",
                      cdf_gamma_factor=3.0),
}

# very narrow interdot transitions
for _n, _f in (("gaas_sharp", 3000.0), ("gaas_sharper", 2e5)):
    STRUCT[_n] = dict(tct_params=gaas_params(), rotation=-math.pi / 4, lut_entries=1000, cdf_type="cauchy" if _f > 1e4 else "sigmoid", cdf_gamma_factor=_f)

# nearly rectangular corners: the visible part of a charge region is often not convex
STRUCT["corner"] = dict(tct_params=[np.array([.1, .1, .9, -.9, -.005 - .1 * k, .1 * k - .0045, .005 - .1 * k, .1 * k - .0045]) for k in range(4)],
                        rotation=-math.pi / 4, lut_entries=1000)

# every part asymmetric: slopes, distances to the previous curve, direction of the interdot transitions, rotation
STRUCT["skew"] = dict(tct_params=[np.array([.1, .05, .3, -.95, -.05 * k - .006, .12 * k - .3 * .006, -.05 * k + .006, .12 * k - .95 * .006]) for k in range(5)],
                      rotation=-.6, lut_entries=1000)
STRUCT["toy_rot"] = dict(STRUCT["toy"], rotation=-1.2)

# toy_nc moved so that zero volts on both gates lies inside region 3
_c = refs.Structure(**STRUCT["toy_nc"]).tct
_c = (_c[2].anchors()[0][1] + _c[3].anchors()[1][1]) / 2 + np.array([.3, .2])
STRUCT["toy_zero"] = dict(STRUCT["toy_nc"], tct_params=[p - np.array([0, 0, 0, 0, _c[0], _c[1], _c[0], _c[1]]) for p in toy_params(coupling=0.0)])


def structure(name):
    d = dict(STRUCT[name])
    d["tct_params"] = [p.copy() for p in d["tct_params"]]
    return IdealCSDGeometric(**d)


def ref(name):
    return refs.Structure(**STRUCT[name])


# ------------------------------------------------------------------------------------------------ windows
def unit(name):
    """half a period of the structure in volts (length scale of a charge region)"""
    p = STRUCT[name]["tct_params"][0]
    return float(p[0] + p[1]) / 2


def centre(name, n, i, where="anchor"):
    """gate voltages of Bezier arc i of curve n (0-based arc: even = peak, odd = valley), or of special places"""
    r = ref(name)
    t = r.tct[n - 1]
    if where == "anchor":
        p = t.anchors()[i][1]
    elif where == "line":      # middle of the straight part to the right of arc i
        a, b = t.anchors()[i], t.anchors()[i + 1]
        p = (a[2] + b[0]) / 2
    elif where == "left":      # outer line, far left
        a = t.anchors()[0][0]
        p = a - np.array([1, t.gl]) * t.period[0] * 2
    elif where == "right":
        a = t.anchors()[-1][2]
        p = a + np.array([1, t.gr]) * t.period[0] * 2
    elif where == "mid":       # inside region n, between curve n and n+1
        a, b = t.anchors()[0][1], r.tct[n].anchors()[1][1]
        p = (a + b) / 2
    return refs.rot(p, r.rotation)


def window(name, place, half):
    """not exactly centred: no pixel lies on a place where rounding decides (sharp interdot steps, kinks)"""
    c, u = centre(name, *place), unit(name)
    c = c + np.array([1.37e-4, -.91e-4]) * u
    return [float(c[0] - half[0] * u), float(c[0] + half[0] * u)], [float(c[1] - half[1] * u), float(c[1] + half[1] * u)]


def directions(r1, r2, d):
    """d: bit 0 reverses g1, bit 1 reverses g2"""
    return (list(r1[::-1]) if d & 1 else list(r1)), (list(r2[::-1]) if d & 2 else list(r2))
