import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b4.py"))
for _k, _v in _b.items():
    if _k.isupper() and isinstance(_v, str): globals()[_k] = _v
SIM = "simcats/_simulation.py"; CLS = "simcats/ideal_csd/geometric/_ideal_csd_geometric_class.py"; GEO = "simcats/ideal_csd/geometric/_ideal_csd_geometric.py"
OCC = "simcats/ideal_csd/geometric/_get_electron_occupation.py"; TCT = "simcats/ideal_csd/geometric/_tct_bezier.py"; LEAD = "simcats/ideal_csd/geometric/_generate_lead_transition_mask.py"
DJ = "simcats/distortions/_dot_jumps.py"; RTN = "simcats/distortions/_random_telegraph_noise.py"; TB = "simcats/distortions/_transition_blurring.py"
WN = "simcats/distortions/_white_noise.py"; PN = "simcats/distortions/_pink_noise.py"; PS = "simcats/support_functions/_parameter_sampling.py"
SSG = "simcats/sensor/_sensor_scan_sensor_generic.py"; SGEN = "simcats/sensor/_sensor_generic.py"; PLOT = "simcats/support_functions/_plotting.py"
LA = "simcats/support_functions/_linear_algebra.py"; GLFN = "simcats/support_functions/_generalized_logistic_function.py"
ANC = "simcats/ideal_csd/geometric/_calculate_all_bezier_anchors.py"; INI = "simcats/ideal_csd/geometric/_initialize_tct_functions.py"
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, count=1):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=PRE + demo, count=count))

bug("c10-last-window-kept", "C10", "the rotation of a structure is changed between two requests of the same window",
    "the structure reuses its last result for the same window although its orientation changed",
    [(CLS, "        return ideal_csd_geometric(\n            tct_params=self.__tct_params,\n            volt_limits_g1=volt_limits_g1,",
      "        key = (tuple(volt_limits_g1), tuple(volt_limits_g2), str(resolution), id(self.__tct_params), self.__lut_entries, self.__cdf_type, self.__cdf_gamma_factor)\n"
      "        last = getattr(self, '_last', None)\n        if last is None or last[0] != key:\n            last = self._last = (key, self._generate(volt_limits_g1, volt_limits_g2, resolution))\n"
      "        return tuple(np.copy(x) for x in last[1])\n\n"
      "    def _generate(self, volt_limits_g1, volt_limits_g2, resolution):\n"
      "        return ideal_csd_geometric(\n            tct_params=self.__tct_params,\n            volt_limits_g1=volt_limits_g1,")],
'''s = structure(); g1 = np.array([-0.2, -0.12]); g2 = np.array([-0.2, -0.12])
s.get_csd_data(g1, g2, np.array([20, 20]))
s.rotation = -np.pi / 3
a = s.get_csd_data(g1, g2, np.array([20, 20]))
b = structure(rotation=-np.pi / 3).get_csd_data(g1, g2, np.array([20, 20]))
done(near(a[0], b[0]) and near(a[1], b[1]), "a rotated structure gives the data of its new orientation")
''')

bug("c10-params-in-place", "C10", "one curve of the list of a structure is edited in place between two measurements",
    "the curve functions are remembered per structure and do not follow edited parameters",
    [(TCT, "    # nodes as fortran array\n    nodes = np.asfortranarray([x_vals, y_vals])\n\n    # initialize bezier curve\n    bezier_curve = bezier.Curve.from_nodes(nodes)\n",
      "    # nodes as fortran array\n    nodes = np.asfortranarray([x_vals, y_vals])\n\n    # initialize bezier curve\n    key = (x_vals[0], x_vals[2], tct_params[2], tct_params[3])\n    if key not in _CURVES:\n        _CURVES[key] = bezier.Curve.from_nodes(nodes)\n    bezier_curve = _CURVES[key]\n"),
     (TCT, "import sympy\n", "import sympy\n\n_CURVES = {}\n")],
'''p = [np.array(x) for x in D1["ideal_csd_config"].tct_params]
s = structure(tct_params=p)
g1 = np.array([-0.2, -0.15]); g2 = np.array([-0.2, -0.15])
s.get_csd_data(g1, g2, np.array([12, 12]))
from simcats.ideal_csd.geometric import tct_bezier
q = np.array(p[0]); q[5] += 0.01; q[7] += 0.01
x = np.linspace(q[4], q[6], 7)
done(near(tct_bezier(q, x, 1000, 1), tct_bezier(p[0], x, 1000, 1) + 0.01), "a curve moved upwards by 10 mV")
''')


bug("c11-two-potentials-of-three", "C11", "a sensor scan with potential distortions of the second barrier", "in sensor scans the potential of the second barrier is not distorted",
    [(SIM, "                    for pot_num in range(potential.shape[0]):\n                        potential[pot_num] = i.noise_function(\n                            mu_sens=potential[pot_num],\n                            volt_limits_g1=sweep_range_sensor_g1,",
      "                    for pot_num in range(potential.ndim):\n                        potential[pot_num] = i.noise_function(\n                            mu_sens=potential[pot_num],\n                            volt_limits_g1=sweep_range_sensor_g1,")],
'''class P(SensorPotentialDistortionInterface):
    n = 0
    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        P.n += 1
        return mu_sens + 0.01
s = Simulation(ideal_csd_config=structure(), sensor=scan_sensor(), sensor_potential_distortions=[P()])
s.measure_sensor_scan(np.array([0.0, 0.5]), np.array([0.2, 0.2]), -0.2, -0.2, 6)
n1 = P.n
s.measure_sensor_scan(np.array([0.0, 0.5]), np.array([0.2, 0.4]), -0.2, -0.2, np.array([6, 5]))
done((n1, P.n) == (3, 6), "distorted potentials of a 1D and a 2D sensor scan: %s" % ((n1, P.n),))
''')

bug("c23-pinch-off-remembered", "C23", "the offset of a barrier is changed after its pinch-off was read", "the pinch-off potential is only recalculated if the shape of the barrier changes",
    [(BGLF, "        return inverse_glf(\n            value=np.abs(self.asymptote_right - self.asymptote_left) * self.pinch_off_percentage + np.min(",
      "        key = (self.pinch_off_percentage, self.asymptote_left, self.asymptote_right, self.growth_rate, self.asymmetry, self.shape_factor, self.denominator_offset)\n"
      "        if getattr(self, '_pinch', (None,))[0] != key:\n            self._pinch = (key, self._inverse_pinch_off())\n        return self._pinch[1]\n\n"
      "    def _inverse_pinch_off(self) -> float:\n"
      "        return inverse_glf(\n            value=np.abs(self.asymptote_right - self.asymptote_left) * self.pinch_off_percentage + np.min(")],
'''b = BarrierFunctionGLF(0.01, 0.99, 0, 1, 20, 1, 1, 1, 0.1)
p = b.pinch_off
b.offset = 0.3
done(near(b.pinch_off, p + 0.2) and near(b.get_value(b.pinch_off), 0.01), "pinch-off of a moved barrier")
''')

bug("c22-threshold-signed", "C22", "a sensor scan swept from high to low voltages with a peak at the edge of the image", "peaks at the edge of a descending scan are not labelled",
    [(SSG, "                diffs = np.diff(sensor_pot)\n                average_diff = np.mean(diffs)\n                threshold = np.abs(average_diff)", "                diffs = np.diff(sensor_pot)\n                average_diff = np.mean(diffs)\n                threshold = average_diff")],
'''s = scan_sensor(alpha_sensor_gate=np.array([[1.0, 0.0], [0.9, 0.2], [0.1, 0.8]]), alpha_dot=None, alpha_gate=None, offset_mu_sens=0.0,
                sensor_peak_function=[SensorPeakGaussian(mu0=0.101, sigma=0.05, height=1)],
                barrier_functions=BarrierFunctionGLF(0.01, 0.999, 0, 1, 20, 1, 1, 1, 0.0))
sim = Simulation(sensor=s)
a = sim.measure_sensor_scan(np.array([0.1, 0.2]), np.array([0.1, 0.1]), None, None, 11)[2]
b = sim.measure_sensor_scan(np.array([0.2, 0.1]), np.array([0.1, 0.1]), None, None, 11)[2]
done(near(a, b[::-1]) and a.sum() == 1, "labels of both directions: %s %s" % (a, b))
''')

bug("c15-frozen-zero-resampled", "C15", "a blurring whose sampled strength is zero, followed by dot jumps", "a frozen blurring of strength 0 draws a new strength for the data beyond the image",
    [(TB, "        if freeze:\n            sigma = self.latest_sigma\n", "        if freeze and self.latest_sigma:\n            sigma = self.latest_sigma\n")],
'''class S(ParameterSamplingInterface):
    n = 0
    def sample_parameter(self):
        S.n += 1
        return 0.0 if S.n == 1 else 0.02
    def last_sample(self): return None
from simcats.support_functions import ParameterSamplingInterface
b = OccupationTransitionBlurringGaussian(sigma=S())
o = np.zeros((4, 8, 2)); o[:, 4:, 0] = 1; l = np.zeros((4, 8))
r = np.array([0.0, 0.1])
b.noise_function(o.copy(), l, r, r)
x, _ = b.noise_function(o.copy(), l, r, r, freeze=True)
done(near(x, o) and S.n == 1, "a frozen blurring of strength 0")
''', count=2)

bug("c17-pink-along-columns", "C17", "pink noise of a 2D scan", "the noise runs along the columns instead of the order of the measurement",
    [(PN, "    noise = np.reshape(noise, original.shape)\n", "    noise = np.reshape(noise, original.shape, order=\"F\")\n")],
'''import colorednoise as cn
from simcats.distortions._pink_noise import pink_gaussian_noise
x = pink_gaussian_noise(np.zeros((6, 8)), 1.0, 0.0, np.random.default_rng(3))
y = pink_gaussian_noise(np.zeros(48), 1.0, 0.0, np.random.default_rng(3))
done(near(x.ravel(), y), "noise of a 2D scan follows its rows")
''')


bug("c05-lut-not-nearest", "C05", "a lookup table with few entries", "the entry right of the position is used instead of the closest one",
    [(TCT, "                    y_res[x_id] = bezier_lut[1, np.argmin(np.abs(bezier_lut[0, :] - (x_mod_per + offset_x)))]",
      "                    y_res[x_id] = bezier_lut[1, min(np.searchsorted(bezier_lut[0, :], x_mod_per + offset_x), lut_entries - 1)]")],
'''from simcats.ideal_csd.geometric import tct_bezier
p = np.array(D1["ideal_csd_config"].tct_params[0])
x = np.linspace(p[4], p[6], 41)
a, b = tct_bezier(p, x, 60, 1), tct_bezier(p, x, None, 1)
c = tct_bezier(p, x, 20000, 1)
step = np.abs(np.diff(c)).max()
import bezier
m = (p[5] - p[7] + p[6] * p[3] - p[4] * p[2]) / (p[3] - p[2])
lut = bezier.Curve.from_nodes(np.asfortranarray([[p[4], m, p[6]], [p[5], p[5] + p[2] * (m - p[4]), p[7]]])).evaluate_multi(np.linspace(0, 1, 60))
e = np.array([lut[1, np.argmin(np.abs(lut[0] - v))] for v in x])
done(np.abs(a - e).max() < 1e-9, "closest entry of the table: %g" % np.abs(a - e).max())
''')


bug("c21-warnings-negative-clipped", "C21", "a peak function with slightly negative response", "negative responses are clipped to zero",
    [(SSG, "            denominator = barrier1_resp * barrier2_resp + sens_resp * barrier1_resp + sens_resp * barrier2_resp",
      "            sens_resp = np.maximum(sens_resp, 0)\n            denominator = barrier1_resp * barrier2_resp + sens_resp * barrier1_resp + sens_resp * barrier2_resp")],
'''s = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.2, sigma=0.05, height=1, offset=-0.2)])
sim = Simulation(sensor=s)
r = sim.measure_sensor_scan(np.array([0.0, 0.5]), np.array([0.2, 0.5]), None, None, 20)[0]
mu = s.sensor_potential(np.zeros((20, 2)), None, None, np.array([0.0, 0.5]), np.array([0.2, 0.5]))
a = s.sensor_peak_function[0].sensor_function(mu[0]); b, c = s.barrier_functions[0].get_value(mu[1]), s.barrier_functions[1].get_value(mu[2])
done(near(r, 1 / (1 / a + 1 / b + 1 / c)), "series circuit with negative response")
''')

bug("c20-scalar-peak-tail", "C20", "a list of more than one peak of which two are equal", "equal peaks are only counted once",
    [(SGEN, "            return np.sum([p.sensor_function(mu_sens) for p in self.__sensor_peak_function], axis=0)",
      "            return np.sum([p.sensor_function(mu_sens) for p in {repr(p): p for p in self.__sensor_peak_function}.values()], axis=0)")],
'''s = SensorGeneric(sensor_peak_function=[SensorPeakGaussian(0, 0.3, 1), SensorPeakGaussian(0, 0.3, 1)], alpha_dot=np.array([-0.05, -0.03]), alpha_gate=np.array([0.9, 1.1]))
done(near(s.sensor_response(np.array([0.0])), [2.0]), "two peaks at the same position")
''')

bug("c18-reduced-range-rounded", "C18", "a reduced range that is almost as wide as the total range", "the reduced range may reach beyond the total range",
    [(PS, "            if np.greater_equal(sampling_range, total_range[1] - total_range[0]):\n                warnings.warn(\n                    \"The given reduced sampling range is equal or larger than the given total range. As \"\n                    \"default the given total sampling range is taken.\",\n                    stacklevel=2,\n                )\n                self.__range = total_range\n            else:\n                sampled = self.__rng.uniform(\n                    total_range[0] + 0.5 * sampling_range,\n                    total_range[1] - 0.5 * sampling_range,\n                )",
      "            if np.greater_equal(sampling_range, total_range[1] - total_range[0]):\n                warnings.warn(\n                    \"The given reduced sampling range is equal or larger than the given total range. As \"\n                    \"default the given total sampling range is taken.\",\n                    stacklevel=2,\n                )\n                self.__range = total_range\n            else:\n                sampled = self.__rng.uniform(\n                    total_range[0] + 0.5 * sampling_range,\n                    total_range[1],\n                )")],
'''class G(np.random.Generator):
    def __init__(self): super().__init__(np.random.PCG64(1)); self.k = 0
    def uniform(self, low=0.0, high=1.0, size=None): return high
    def lognormal(self, mean=0.0, sigma=1.0, size=None): self.k += 1; return 4.0 + 0.05 * self.k
g = G()
v = LogNormalSamplingRange(total_range=(1.0, 5.0), sampling_range=1.0, rng=g, mean=1, sigma=1)
done(max(v.sample_parameter() for _ in range(20)) <= 5.0, "samples of a reduced range stay in the total range") if False else None
w = [v.sample_parameter()]
done(w[0] <= 5.0 and "range=(4.0, 5.0)" in repr(v), "reduced range: %r" % v)
''')

bug("c12-ratio-one-shortcut", "C12", "an activation ratio of one that is lowered later", "the activation is only drawn until it was active once",
    [(RTN, "        if not bool(self.rng.binomial(1, self.ratio)):\n            self.__activated = False\n            return original\n", "        if not self.__activated and not bool(self.rng.binomial(1, self.ratio)):\n            self.__activated = False\n            return original\n")],
'''n = SensorPotentialRTN(scale=0.02, std=0.1, height=1, ratio=1, rng=np.random.default_rng(1))
r = np.array([0.0, 0.1])
n.noise_function(np.zeros((5, 5)), r, r)
n.ratio = 0
done(near(n.noise_function(np.zeros((5, 5)), r, r), np.zeros((5, 5))) and n.activated is False, "deactivated telegraph noise")
''')

bug("c19-sampler-own-rng", "C19", "a sampling range with a reduced range and an own generator", "the position of the reduced range is drawn from an unseeded generator",
    [(PS, "        if rng:\n            self.__rng = rng\n        else:\n            self.__rng = np.random.default_rng()\n        self.__mean: float = mean", "        if rng and sampling_range is None:\n            self.__rng = rng\n        else:\n            self.__rng = np.random.default_rng()\n        self.__mean: float = mean")],
'''f = lambda: [LogNormalSamplingRange(total_range=(0.1, 5.0), sampling_range=1.0, rng=np.random.default_rng(4)).sample_parameter() for _ in range(3)]
done(f() == f(), "the same seed gives the same samples")
''')

bug("c26-point-on-vertical", "C26", "two intersecting lines of nearly equal slope", "lines of almost the same slope are reported as parallel",
    [(LA, "        if m1 == m2:\n", "        if np.isclose(m1, m2):\n")],
'''try:
    p = line_line_intersection((1.0, 0.0), (1.000001, -1e-6)); ok = near(p, [1.0, 1.0], 1e-4)
except ValueError: ok = False
done(ok, "intersection of lines of similar slope")
''')

bug("c27-limits-order-1d", "C27", "a 1D plot of a sweep in which only g2 is swept from high to low voltages", "the tick labels of g2 are sorted on their own",
    [(PLOT, "    g2_voltages = np.linspace(volt_limits_g2[0], volt_limits_g2[1], num_xticks).round(3)", "    g2_voltages = np.linspace(np.min(volt_limits_g2), np.max(volt_limits_g2), num_xticks).round(3)")],
'''import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from simcats.support_functions import plot_csd
plt.show = lambda *a, **k: None
plot_csd(np.arange(5.0), np.array([0.1, 0.2]), np.array([0.4, 0.3]))
t = [x.get_text() for x in plt.gca().get_xticklabels()]
done(t[0] == "(0.100;0.400)" and t[-1] == "(0.200;0.300)", "tick labels: %s" % t)
''')

bug("c28-reset-first-of-range", "C28", "a reset with a descending range", "the offset refers to the smaller voltages instead of the first ones",
    [(RST, "    occupations, _ = dqd_sim.ideal_csd_config.get_csd_data(volt_limits_g1=sweep_range_g1,\n                                                           volt_limits_g2=sweep_range_g2,",
      "    sweep_range_g1, sweep_range_g2 = np.sort(sweep_range_g1), np.sort(sweep_range_g2)\n    occupations, _ = dqd_sim.ideal_csd_config.get_csd_data(volt_limits_g1=sweep_range_g1,\n                                                           volt_limits_g2=sweep_range_g2,")],
'''s = Simulation(ideal_csd_config=structure(), sensor=sensor())
a, b = np.array([-0.1, -0.2]), np.array([-0.12, -0.2])
reset_offset_mu_sens(s, 0.3, a, b)
o, _ = s.ideal_csd_config.get_csd_data(a, b, 2)
done(near(s.sensor.sensor_potential(o, a, b)[0], 0.3), "potential of the first point")
''')

bug("c24-linear-right-angle", "C24", "a negative angle of a linear deformation", "the wavefront is always tilted to the same side",
    [(LIN, "        m = 1 / math.tan(self.angle)", "        m = 1 / abs(math.tan(self.angle))")],
'''s = scan_sensor(sensor_peak_deformations={0: SensorPeakDeformationLinear(angle=-1.2)})
d = s.sensor_peak_deformations[0]
done(d.calc_mu(0.1, 0.2) < 0.2 < SensorPeakDeformationLinear.calc_mu(d, -0.1, 0.2), "side of the tilt")
''')

bug("c04-upper-region-2d", "C04", "a window in which a curve only touches the corner so that a region has a single pixel", "the region of an area is determined at its centre of mass instead of one of its pixels",
    [(OCC, "            temp_point = np.array([col_values[indices[1][0]], row_values[indices[0][0]]])", "            temp_point = np.array([np.mean(col_values[indices[1]]), np.mean(row_values[indices[0]])])")],
'''p = [np.array([0.1, 0.1, 0.9, -0.9, -0.005 - 0.1 * k, 0.1 * k - 0.0045, 0.005 - 0.1 * k, 0.1 * k - 0.0045]) for k in range(4)]
s = IdealCSDGeometric(p, -np.pi / 4, 1000)
g1, g2 = np.array([-0.1004, 0.0615]), np.array([-0.2086, 0.2618])
o, l = s.get_csd_data(g1, g2, np.array([40, 40]))
x, y = np.linspace(*g1, 40), np.linspace(*g2, 40)
ok = True
for i in range(40):
    for j in range(40):
        if l[i, j] == 0:
            ok &= abs(o[i, j].sum() - s.get_csd_data(np.array([x[j], x[j]]), np.array([y[i], y[i]]), 1)[0].sum()) < 0.5
done(ok, "total charge of all pixels")
''')

bug("c03-label-wraps-sorted", "C03", "more than one curve between two neighbouring pixels of a 1D sweep from high to low charge", "a falling 1D sweep is labelled with the smaller of the two charges",
    [(LEAD, "            csd_result[_id] = csd_total_occ[_id]\n", "            csd_result[_id] = csd_total_occ[_id + 1] + 1\n")],
'''s = structure(); a = np.array([-0.1, -0.25])
o, l = s.get_csd_data(a, a, 8)
o2, l2 = s.get_csd_data(a[::-1], a[::-1], 8)
done(near(l, l2[::-1]), "labels of both directions: %s %s" % (l, l2))
''')

bug("c02-fixed-gate-1d-2d", "C02", "a 1D sweep with more than 256 pixels", "the voltages of long 1D sweeps are rounded to single precision",
    [(OCC, "    row_values = np.linspace(volt_limits_g2[0], volt_limits_g2[1], csd.shape[0])", "    row_values = np.linspace(volt_limits_g2[0], volt_limits_g2[1], csd.shape[0], endpoint=csd.shape[0] < 256)")],
'''s = structure(); g = np.array([-0.2, -0.11])
a, _ = s.get_csd_data(g, g, 301)
b, _ = s.get_csd_data(np.array([g[1], g[1]]), np.array([g[1], g[1]]), 1)
done(near(a[-1], b[0], 1e-9), "last point of a long sweep: %s %s" % (a[-1], b[0]))
''')

bug("c09-config-distortions-iterated", "C09", "a distortion list passed as one object that is changed afterwards", "the response distortions of a simulation stay connected to the objects of the caller",
    [(SIM, "        self.__sensor_response_distortions = deepcopy(sensor_response_distortions)", "        self.__sensor_response_distortions = sensor_response_distortions and list(sensor_response_distortions)")],
'''w = SensorResponseWhiteNoise(sigma=0.0, rng=np.random.default_rng(1))
s = Simulation(ideal_csd_config=structure(), sensor=sensor(), sensor_response_distortions=[w])
w.sigma = 5.0
done(s.sensor_response_distortions[0].sigma == 0.0, "a distortion of the simulation is private")
''')
