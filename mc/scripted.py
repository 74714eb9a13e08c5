"""A numpy Generator whose answers are scripted: the random environment of the code under test becomes a choice of the explorer.

Every distribution answers from its own stream (a list; the last entry repeats).  Streams of continuous distributions hold unit
values (standard normal z, uniform u in [0, 1), ...) which are scaled with the requested parameters, so that drawing
standard_normal()*s instead of normal(0, s), or one by one instead of at once, gives the same answers.  All requests are logged.
"""
import math
import numpy as np


class ScriptedRNG(np.random.Generator):
    def __new__(cls, **streams):
        return super().__new__(cls, np.random.PCG64(1))

    def __init__(self, **streams):
        super().__init__(np.random.PCG64(1))
        self.streams = {k: list(v) for k, v in streams.items()}
        self.pos = {}
        self.log = []

    def __deepcopy__(self, memo):      # the copies made by the simulation share the script and the log
        return self

    __copy__ = lambda self: self

    def __reduce__(self):
        raise TypeError("scripted generators cannot be pickled")

    def next(self, name):
        s = self.streams.get(name)
        i = self.pos.get(name, 0)
        self.pos[name] = i + 1
        if not s:
            raise RuntimeError(f"the code asked for an unscripted random value: {name}")
        return s[min(i, len(s) - 1)]

    def used(self, name):
        return self.pos.get(name, 0)

    def _fill(self, name, size, *params):
        """(array of unit answers, broadcast parameters)"""
        if size is None:
            shape = np.broadcast_shapes(*(np.shape(p) for p in params)) if params else ()
        else:
            shape = tuple(size) if np.ndim(size) else (int(size),)
        v = np.array([self.next(name) for _ in range(int(np.prod(shape)))], float).reshape(shape)
        return v

    @staticmethod
    def _out(v):
        return v if v.ndim else v[()].item()

    def binomial(self, n, p, size=None):
        self.log.append(("binomial", n, p))
        if size is not None and int(np.prod(size)) != 1:
            raise RuntimeError("unscripted request: binomial with size")
        a = (0 if p <= 0 else n if p >= 1 else int(self.next("act")) * n)
        return a if size is None else np.full(size, a)

    def random(self, size=None, dtype=np.float64, out=None):
        self.log.append(("random",))
        name = "random" if "random" in self.streams else "act01"
        if name == "act01":            # used for the decision to act: a small number means yes
            self.streams.setdefault("act01", [0.0 if a else 1 - 2 ** -53 for a in self.streams.get("act", [])])
            self.pos["act"] = self.pos.get("act", 0) + 1
        return self._out(self._fill(name, size))

    def uniform(self, low=0.0, high=1.0, size=None):
        self.log.append(("uniform", low, high))
        if "uniform" not in self.streams and (low, high) == (0.0, 1.0):
            return self.random(size)
        return self._out(low + (np.asarray(high) - low) * self._fill("uniform", size, low, high))

    def geometric(self, p, size=None):
        self.log.append(("geometric", float(p), size))
        if not 0 < p <= 1:
            raise ValueError("p <= 0, p > 1 or p contains NaNs")
        v = self._fill("geometric", size).astype(int)
        return v if v.ndim else int(v)

    def poisson(self, lam=1.0, size=None):
        self.log.append(("poisson", float(lam), size))
        if lam < 0:
            raise ValueError("lam < 0")
        v = self._fill("poisson", size).astype(int)
        return v if v.ndim else int(v)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.log.append(("normal", loc, scale, size))
        if np.any(np.asarray(scale) < 0):
            raise ValueError("scale < 0")
        return self._out(np.asarray(loc + np.asarray(scale) * self._fill("normal", size, loc, scale)))

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        self.log.append(("normal", 0.0, 1.0, size))
        return self._out(self._fill("normal", size))

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        self.log.append(("lognormal", mean, sigma))
        return self._out(np.exp(mean + sigma * self._fill("normal", size, mean, sigma)))

    def exponential(self, scale=1.0, size=None):
        self.log.append(("exponential", scale))
        return self._out(scale * self._fill("exponential", size, scale))

    def standard_exponential(self, size=None, dtype=np.float64, method="zig", out=None):
        self.log.append(("exponential", 1.0))
        return self._out(self._fill("exponential", size))


def blocks(ctx, n, lengths, heights=None, burst_first=False):
    """choose block lengths covering n pixels and a height for every shifted (odd) block: (lengths, heights)"""
    ls, hs, covered = [], [], 0
    while covered < n:
        l = ctx.choose(f"len{len(ls)}", lengths)
        ls.append(l)
        covered += l
        if len(ls) % 2 == 0 and heights is not None:
            hs.append(ctx.choose(f"height{len(hs)}", heights))
    return ls, hs


def per_pixel(ls, hs, n):
    """offset of every pixel: blocks alternate between 0 and the next height, starting with 0"""
    out = []
    for i, l in enumerate(ls):
        out += [hs[i // 2] if i % 2 else 0] * l
    return np.array(out[:n])
