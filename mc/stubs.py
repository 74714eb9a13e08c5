"""Transparent distortions used to observe the simulation (implement the public interfaces) and public-state fingerprints."""
import numpy as np
from simcats.ideal_csd import IdealCSDInterface
from .refs import grid
from simcats.distortions import (OccupationDistortionInterface, SensorPotentialDistortionInterface, SensorResponseDistortionInterface)


class Occ(OccupationDistortionInterface):
    def __init__(self, shift=0.0):
        self.shift = shift

    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd, freeze=False):
        occupations += self.shift
        return occupations, lead_transitions


class Pot(SensorPotentialDistortionInterface):
    def __init__(self, shift=0.0):
        self.shift = shift

    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        return mu_sens + self.shift


class Resp(SensorResponseDistortionInterface):
    def __init__(self, shift=0.0):
        self.shift = shift

    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        return sensor_response + self.shift


def pub(o, depth=0):
    """canonical value of the public state of an object (public attributes and properties only)"""
    if depth > 8:
        raise RuntimeError("cyclic")
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, tuple(o.astype(float).ravel().tolist()))
    if isinstance(o, np.random.Generator):
        return ("rng", repr(o.bit_generator.state))
    if o is None or isinstance(o, (bool, int, float, str, np.generic)):
        return float(o) if isinstance(o, (int, float, np.generic)) and not isinstance(o, bool) else o
    if isinstance(o, (list, tuple)):
        return ("seq",) + tuple(pub(x, depth + 1) for x in o)
    if isinstance(o, dict):
        return ("map",) + tuple((repr(k), pub(v, depth + 1)) for k, v in sorted(o.items(), key=lambda kv: repr(kv[0])))
    if callable(o) and not hasattr(o, "__dict__"):
        return ("fn", getattr(o, "__qualname__", str(type(o))))
    out = []
    for n in sorted(set(dir(type(o))) | set(vars(o)) if hasattr(o, "__dict__") else dir(type(o))):
        if n.startswith("_") or n == "sensor":        # `sensor`: back reference of deformations
            continue
        v = getattr(o, n)
        if callable(v):
            continue
        out.append((n, pub(v, depth + 1)))
    return (type(o).__name__,) + tuple(out)


class Lattice(IdealCSDInterface):
    """Structure whose occupations and labels identify the voltages of a pixel: occupations are two independent linear functions of
    the voltages, labels number the points of the pixel grid of a window."""

    def __init__(self, r1, r2, step1, step2):
        self.o, self.s = (float(min(r1)), float(min(r2))), (float(step1), float(step2))

    def at(self, v):
        v = np.asarray(v, float)
        occ = np.stack([3.1 * v[..., 0] + 0.7 * v[..., 1] + 2, -0.4 * v[..., 0] + 2.3 * v[..., 1] + 5], axis=-1)
        i = np.rint((v[..., 0] - self.o[0]) / self.s[0]).astype(int)
        j = np.rint((v[..., 1] - self.o[1]) / self.s[1]).astype(int)
        return occ, 1000000 + 1000 * i + j

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        return self.at(grid(volt_limits_g1, volt_limits_g2, resolution))
