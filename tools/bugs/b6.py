import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b5.py"))
for _k, _v in _b.items():
    if _k.isupper() and isinstance(_v, str): globals()[_k] = _v
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, count=1):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=PRE + demo, count=count))
LOR = "simcats/sensor/_sensor_peak_lorentzian.py"; GAU = "simcats/sensor/_sensor_peak_gaussian.py"; CDF = "simcats/support_functions/_cumulative_distribution_functions.py"
FF = "simcats/support_functions/_fermi_filter1d.py"; RES = "simcats/support_functions/_reset_offset_mu_sens.py"


bug("c06-small-width-sharp", "C06", "a structure with very narrow interdot transitions (large gamma factor)", "transitions narrower than 0.1 mV become steps",
    [(CDF, "    if np.isclose(gam, 0.0):\n        result = x - x0\n        result[result > 0] = 1\n        result[result < 0] = 0\n        return result\n    return 0.5 * (1 + np.tanh((x - x0) / gam))",
      "    if np.isclose(gam, 0.0, atol=1e-4):\n        result = x - x0\n        result[result > 0] = 1\n        result[result < 0] = 0\n        return result\n    return 0.5 * (1 + np.tanh((x - x0) / gam))")],
'''from simcats.support_functions._cumulative_distribution_functions import sigmoid_cdf
x = np.array([-3e-5, 0.0, 3e-5])
y = sigmoid_cdf(x, 0.0, 3e-5)
done(near(y, 0.5 * (1 + np.tanh([-1.0, 0.0, 1.0]))), "narrow transition: %s" % y)
''')

bug("c05-lut-capped", "C05", "a lookup table with more than 2000 entries", "lookup tables have at most 2000 entries",
    [(TCT, "        t = np.linspace(0, 1, lut_entries)", "        t = np.linspace(0, 1, min(lut_entries, 2000))")],
'''from simcats.ideal_csd.geometric import tct_bezier
p = np.array([3.0, 2.0, 0.8, -0.8, -1.0, 5.0, 1.0, 5.0])
x = np.linspace(-0.99, 0.99, 201)
a = tct_bezier(p, x.copy(), 200001, 1); b = tct_bezier(p, x.copy(), None, 1)
done(np.abs(a - b.astype(float)).max() < 2e-5, "deviation with 200001 entries: %s" % np.abs(a - b.astype(float)).max())
''')

bug("c20-lorentz-tail-cut", "C20", "a potential more than 1000 widths away from a Lorentzian peak", "the tails of Lorentzian peaks are cut",
    [(LOR, "    return offset + height * gamma**2 / (gamma**2 + (mu_sens - mu0) ** 2)",
      "    return offset + np.where(np.abs(mu_sens - mu0) > 1000 * gamma, 0.0, height * gamma**2 / (gamma**2 + (mu_sens - mu0) ** 2))")],
'''y = SensorPeakLorentzian(mu0=0.0, gamma=1e-4, height=10.0).sensor_function(np.array([0.2]))
done(abs(y[0] / (10.0 * 1e-8 / (1e-8 + 0.04)) - 1) < 1e-9, "tail of a Lorentzian peak: %s" % y)
''')

bug("c23-exponent-clipped", "C23", "potentials far below the rise of a barrier", "the exponent of the logistic function is limited, so that closed barriers keep a small conductance",
    [(GLFN, "        np.power(denominator_offset + shape_factor * np.exp(-growth_rate * (potential - offset)), (1 / asymmetry))))",
      "        np.power(denominator_offset + shape_factor * np.exp(np.minimum(-growth_rate * (potential - offset), 20)), (1 / asymmetry))))")],
'''b = BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0, asymptote_right=1, growth_rate=100, asymmetry=4, shape_factor=1, offset=0)
y = b.get_value(np.array([-1.0]))[0]
done(abs(y / np.exp(-25.0) - 1) < 1e-6, "closed barrier: %s" % y)
''')

bug("c26-steep-line-vertical", "C26", "a very steep line", "lines that are nearly parallel count as parallel",
    [(LA, "        if m1 == m2:\n", "        if np.isclose(m1, m2):\n")],
'''try:
    p = line_line_intersection((1.0, 0.0), (1.000001, -1.0))
    ok = abs(p[0] / 1e6 - 1) < 1e-6
except ValueError as e:
    p, ok = e, False
done(ok, "intersection of nearly parallel lines: %s" % p)
''')


bug("c22-peak-of-row-sorted", "C22", "the second of two peaks lies outside of the scan", "a peak beyond the end of the scan is labelled at its border",
    [(SSG, "is_boundary = (min_indices == 0) | (min_indices == conductive_mask.shape[1] - 1)", "is_boundary = min_indices == 0")],
'''s = Simulation(ideal_csd_config=structure(), sensor=scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=5.0, sigma=0.05, height=1)]))
_, c, p, _ = s.measure_sensor_scan(np.array([-0.5, 0.6]), np.array([-0.5, 0.6]), -0.2, -0.2, np.array([40, 40]))
done(p.max() == 0 and (c == 1).any(), "labels of a peak that is not reached: %d" % (p > 0).sum())
''')

bug("c07-limits-rounded", "C07", "a sweep ending one float outside of the limits", "limits are compared with a tolerance",
    [(SIM, "                or np.max(sweep_range_g1) > self.__volt_limits_g1[1]\n        )\n                or (\n                self.__volt_limits_g2", "                or np.max(sweep_range_g1) > self.__volt_limits_g1[1] + 1e-9\n        )\n                or (\n                self.__volt_limits_g2")],
'''s = Simulation(volt_limits_g1=np.array([-0.3, -0.1]), ideal_csd_config=structure(), sensor=sensor())
try:
    s.measure(np.array([-0.2, np.nextafter(-0.1, 0)]), np.array([-0.2, -0.15]), resolution=4); ok = False
except ValueError: ok = True
done(ok, "a voltage just outside of the limits is refused")
''')


bug("c18-mean-rounded", "C18", "a normal distribution with an explicit mean of zero", "an explicit mean of zero is taken as no mean",
    [(PS, "        if mean is not None:\n            self.__mean = mean", "        if mean:\n            self.__mean = mean")],
'''class R(np.random.Generator):
    def __init__(self): super().__init__(np.random.PCG64(0))
    def normal(self, loc=0.0, scale=1.0, size=None): return loc
s = NormalSamplingRange((-1.0, 3.0), std=1.0, mean=0, rng=R())
done(s.sample_parameter() == 0, "sample of a distribution around zero")
''')


bug("c27-long-line-thinned", "C27", "a 1D plot of more than 1000 points", "long 1D sweeps are drawn with every second point only",
    [(PLOT, "    plt.plot(csd)", "    plt.plot(csd[:: 1 + csd.size // 1000])")],
'''import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
plot_csd(np.sin(np.arange(2500.0)), np.array([0.0, 1.0]), np.array([0.0, 1.0]))
done(len(plt.gca().lines[0].get_ydata()) == 2500, "points of a long sweep")
''')

bug("c14-rtn-density-kept", "C14", "one telegraph noise used for two 2D windows of different width", "the pixels per volt of the first 2D window are used for all later ones",
    [(RTN, "scale *= np.maximum(\n                    resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),\n                    resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),\n                )\n",
      "scale *= self.__dict__.setdefault('density', np.maximum(\n                    resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),\n                    resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),\n                ))\n")],
'''class R(np.random.Generator):
    def __init__(self): super().__init__(np.random.PCG64(0)); self.asked = []
    def binomial(self, n, p, size=None): return 1
    def geometric(self, p, size=None):
        self.asked.append(1 / p); return super().geometric(p, size)
r = R()
n = SensorPotentialRTN(scale=0.02, std=0.0, height=0.1, rng=r)
g = np.array([-0.2, -0.1])
n.noise_function(np.zeros((100, 100)), g, g); a = r.asked[0]; r.asked.clear()
n.noise_function(np.zeros((100, 100)), np.array([-0.2, 0.0]), np.array([-0.2, 0.0])); b = r.asked[0]
done(abs(a - 20) < 1e-9 and abs(b - 10) < 1e-9, "mean lengths in pixels: %s %s" % (a, b))
''')
