import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py"))
PRE = _b["PRE"]
for _k, _v in _b.items():
    if _k.isupper() and isinstance(_v, str) and _k != "PRE": globals()[_k] = _v
LIN="simcats/sensor/deformation/_sensor_peak_deformation_linear.py"; CIR="simcats/sensor/deformation/_sensor_peak_deformation_circle.py"
BGLF="simcats/sensor/barrier_function/_barrier_function_glf.py"; BM="simcats/sensor/barrier_function/_barrier_function_multi_glf.py"
RISE="simcats/sensor/_sensor_rise_glf.py"; RST="simcats/support_functions/_reset_offset_mu_sens.py"
PKG="simcats/sensor/_sensor_peak_gaussian.py"; PKL="simcats/sensor/_sensor_peak_lorentzian.py"
SAMP="simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"
PX="simcats/support_functions/_pixel_volt_transformation.py"; SD="simcats/support_functions/_signed_dist_points_line.py"
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, count=1):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=PRE + demo, count=count))

bug("c20-peak-list-shared", "C20", "two sensors made from one list of peaks, then one of them is changed",
    "the sensor keeps the peak objects of the caller",
    [(SG, "            self.__sensor_peak_function = deepcopy(sensor_peak_function)\n", "            self.__sensor_peak_function = list(sensor_peak_function)\n")],
'''p = [SensorPeakGaussian(mu0=0, sigma=0.3, height=1), SensorPeakLorentzian(mu0=0.3, gamma=0.1, height=2)]
a = SensorGeneric(sensor_peak_function=p, alpha_dot=np.array([-0.05, -0.03]), alpha_gate=np.array([0.9, 1.1]), offset_mu_sens=0.1)
b = SensorGeneric(sensor_peak_function=p, alpha_dot=np.array([-0.05, -0.03]), alpha_gate=np.array([0.9, 1.1]), offset_mu_sens=0.1)
mu = np.linspace(-1, 1, 11)
x = a.sensor_response(mu)
b.sensor_peak_function[0].mu0 = 0.7
p[1].height = 5
done(near(x, a.sensor_response(mu)), "a sensor does not change with another one")
''')

bug("c20-lorentz-offset", "C20", "a Lorentzian peak with an offset", "the offset is scaled with the height of the peak",
    [(PKL, "return offset + height * gamma**2 / (gamma**2 + (mu_sens - mu0) ** 2)",
      "return height * (offset + gamma**2 / (gamma**2 + (mu_sens - mu0) ** 2))")],
'''p = SensorPeakLorentzian(mu0=0.1, gamma=0.2, height=3, offset=0.5)
v = p.sensor_function(np.array([0.1, 0.3, 1e6]))
done(near(v, [3.5, 2.0, 0.5], 1e-6), "peak, half width and floor: %s" % v)
''')

bug("c20-1d-voltages-swapped", "C20", "a 1D sweep of a sensor with different lever-arms of the two gates",
    "the gate lever-arms are applied to the other gate in 1D",
    [(SG, "            voltages = [[voltages_g1[i], voltages_g2[i]] for i in range(len(voltages_g1))]",
      "            voltages = [[voltages_g1[i], voltages_g1[i] + voltages_g2[i] - voltages_g1[0]] for i in range(len(voltages_g1))]")],
'''s = sensor()
mu = s.sensor_potential(np.zeros((4, 2)), np.array([0.2, 0.5]), np.array([1.0, 1.0]))
done(near(mu, 0.9 * np.linspace(0.2, 0.5, 4) + 1.1 + 0.1), "potential along a 1D sweep: %s" % mu)
''')

bug("c20-single-peak-cached", "C20", "peak positions far from each other and a broad potential range",
    "peaks are cut off at five widths although their sum is reported",
    [(PKG, "    return offset + height * np.exp(-((mu_sens - mu0) / sigma) ** 2)",
      "    return offset + height * np.exp(-np.minimum(((mu_sens - mu0) / sigma) ** 2, 9.0))")],
'''p = SensorPeakGaussian(mu0=0, sigma=0.1, height=1)
done(near(p.sensor_function(np.array([0.5])), [np.exp(-25)], 1e-6), "tail of the peak")
''')

bug("c21-missing-voltage-remembered", "C21", "a potential without sensor voltages after one with sensor voltages",
    "a missing voltage is taken from the previous call instead of zero",
    [(SSG, "                volt_limits_list[i] = np.array([0, 0])\n",
      "                last = (getattr(self, '_volt_limits_sensor_g1', None), getattr(self, '_volt_limits_sensor_g2', None))\n"
      "                last = last[i - 2] if i > 1 else None\n"
      "                volt_limits_list[i] = np.array([0, 0]) if last is None or last[0] != last[-1] else last\n")],
'''s = scan_sensor(); t = scan_sensor()
o = np.zeros((3, 2)); g = np.array([0.0, 0.3])
s.sensor_potential(o, g, g, 0.4, 0.5)
done(near(s.sensor_potential(o, g, g), t.sensor_potential(o, g, g)), "missing voltages are zero")
''')

bug("c21-mixed-sweep-accepted", "C21", "one plunger gate and one sensor gate given as sweeps",
    "sweeping one plunger and one sensor gate together is accepted",
    [(SSG, "        if (isinstance(volt_limits_g1, np.ndarray) or isinstance(volt_limits_g2, np.ndarray)) and (\n",
      "        if (isinstance(volt_limits_g1, np.ndarray) and isinstance(volt_limits_g2, np.ndarray)) and (\n")],
'''s = scan_sensor()
try:
    s.sensor_potential(np.zeros((3, 2)), np.array([0., .1]), 0.2, np.array([0., .1]), 0.2)
except ValueError:
    done(True, "refused")
done(False, "mixed sweep accepted")
''')

bug("c21-min-of-three", "C21", "barrier conductance far below the sensor response",
    "the product of the smallest two responses is used where one response dominates",
    [(SSG, "            return np.divide(numerator, denominator, out=np.zeros_like(numerator), where=denominator != 0)",
      "            return np.divide(numerator, denominator, out=np.zeros_like(numerator), where=denominator > 1e-9)")],
'''s = scan_sensor(sensor_peak_function=None)
mu = np.array([[1e-3], [-1.0], [-1.0]])
r = s.sensor_response(mu)
b = [f.get_value(-1.0) for f in s.barrier_functions]
want = 1 / (1 / 1e-3 + 1 / b[0] + 1 / b[1])
s.sensor_potential(np.zeros((1, 2)), 0.0, 0.0, 0.0, 0.0)
done(abs(r[0] / want - 1) < 1e-6, "series circuit %s %s" % (r, want)) 
'''.replace("r = s.sensor_response(mu)", "s.sensor_potential(np.zeros((1, 2)), 0.0, 0.0, 0.0, 0.0)\nr = s.sensor_response(mu)"))

bug("c21-barrier2-offset", "C21", "different potential offsets of sensor dot and barriers",
    "barrier 2 uses the offset of barrier 1 in scans",
    [(SSG, "                            voltages_sensor.dot(self.alpha_sensor_gate[2]) + self.offset_mu_sens[2])",
      "                            voltages_sensor.dot(self.alpha_sensor_gate[2]) + self.offset_mu_sens[-1 if occupations.ndim == 2 else 1])")],
'''s = scan_sensor()
a = np.array([0., .3]); b = np.array([0.1, .3])
p = s.sensor_potential(np.zeros((3, 3, 2)), 0., 0., a, b)
done(near(p[2, 0, 0], 0.8 * 0.1 - 0.03), "potential of barrier 2: %s" % p[2, 0, 0])
''')

bug("c21-single-barrier-alias", "C21", "one barrier function for both barriers, one of them changed later",
    "both barriers share one object",
    [(SSG, "            self.__barrier_functions = [deepcopy(barrier_functions), deepcopy(barrier_functions)]",
      "            self.__barrier_functions = [deepcopy(barrier_functions)] * 2")],
'''b = BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0, asymptote_right=1, growth_rate=20,
                       asymmetry=1, shape_factor=1, offset=0.1)
s = scan_sensor(barrier_functions=b)
s.barrier_functions[0].offset = 0.5
done(s.barrier_functions[1].offset == 0.1, "the second barrier keeps its offset")
''')

bug("c22-left-boundary", "C22", "a scan whose first column lies beyond the Coulomb peak",
    "pixels of the first column are labelled although the peak lies outside of the scan",
    [(SSG, "                is_boundary = (min_indices == 0) | (min_indices == conductive_mask.shape[1] - 1)",
      "                is_boundary = min_indices == conductive_mask.shape[1] - 1")],
'''s = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.4, sigma=0.05, height=1)])
s.sensor_peak_function[0].mu0 = 0.2
a = np.array([0.2, 0.5]); b = np.array([0.25, 0.5])
p = s.sensor_potential(np.zeros((9, 9, 2)), 0., 0., a, b)
c, k = s.get_sensor_scan_labels(0., 0., a, b, p)
print(p[0].min())
done(p[0].min() > 0.22 and c.max() > 0 and not k.any(), "no pixel of the peak is in the scan: %d labelled, conductive %s" % (k.sum(), np.unique(c)))
''')

bug("c22-threshold-axis", "C22", "a 2D scan with very different lever-arms of the two sensor gates",
    "the boundary threshold is the step along the other axis",
    [(SSG, "                diffs = np.diff(sensor_pot, axis=1)\n", "                diffs = np.diff(sensor_pot, axis=0)\n")],
'''s = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.4, sigma=0.05, height=1)],
                alpha_sensor_gate=np.array([[0.05, 1.0], [0.9, 0.2], [0.1, 0.8]]))
a = np.array([0.2, 0.4]); b = np.array([0.3, 0.6])
p = s.sensor_potential(np.zeros((9, 9, 2)), 0., 0., a, b)
c, k = s.get_sensor_scan_labels(0., 0., a, b, p)
d = np.abs(p[0] - 0.4)[k == 1]
done(d.size == 0 or d.max() < 0.05 * 0.2 / 8 * 1.01, "labelled pixels lie within a step of the peak: %s" % (d.max() if d.size else None))
''')

bug("c22-label-order", "C22", "peaks that are not given in ascending order",
    "peak labels follow the sorted order of the peaks instead of their position in the configuration",
    [(SSG, "coulomb_peak_mask[min_index] = peak_id + 1\n\n", "coulomb_peak_mask[min_index] = idx + 1\n\n")],
'''s = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.2, sigma=0.05, height=1), SensorPeakGaussian(mu0=0.1, sigma=0.05, height=1)])
a = np.array([-0.1, 0.5]); b = np.array([-0.1, 0.5])
p1 = s.sensor_potential(np.zeros((30, 2)), 0., 0., a, b)
c1, k1 = s.get_sensor_scan_labels(0., 0., a, b, p1)
w = np.abs(p1[0][k1 == 1] - 0.2)
done(w.size == 1 and w[0] < 0.03, "label 1 belongs to the first peak: %s" % w)
''')


bug("c23-fully-conductive-falling", "C23", "a barrier whose conductance falls with the potential",
    "the fully conductive point of falling barriers is measured from the left asymptote",
    [(BGLF, "            value=np.abs(self.asymptote_right - self.asymptote_left) * self.fully_conductive_percentage + np.min(\n                [self.asymptote_left, self.asymptote_right]),",
      "            value=(self.asymptote_right - self.asymptote_left) * self.fully_conductive_percentage + self.asymptote_left,")],
'''b = BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=2, asymptote_right=0.5, growth_rate=20,
                       asymmetry=1, shape_factor=1, offset=0.1)
done(near(b.get_value(b.fully_conductive), 0.5 + 1.5 * 0.99, 1e-9), "conductance at the fully conductive point %s" % b.get_value(b.fully_conductive))
''')

bug("c23-inverse-asymmetry", "C23", "asymmetry and denominator offset both different from one",
    "the inverse adds the denominator offset before the power",
    [(GLF, "            asymptote_left - value)) ** asymmetry - denominator_offset) / shape_factor)) / growth_rate",
      "            asymptote_left - value)) ** asymmetry - denominator_offset ** asymmetry) / shape_factor)) / growth_rate")],
'''from simcats.support_functions import glf, inverse_glf
a = dict(asymptote_left=0.2, asymptote_right=1.5, growth_rate=3, asymmetry=1.7, shape_factor=0.8, denominator_offset=1.2, offset=0.3)
x = np.linspace(-1, 1, 9)
done(near(inverse_glf(glf(x, **a), **a), x, 1e-9), "inverse of the GLF")
''')

bug("c23-multi-glf-last", "C23", "a multi GLF made of three or more functions",
    "the middle functions of a multi GLF are left out",
    [(GLF, "    return sum([glf(potential, *params[i: i + 7]) for i in range(0, len(params), 7)])",
      "    return sum([glf(potential, *params[i: i + 7]) for i in sorted({0, max(len(params) - 7, 0)}) if params])")],
'''from simcats.support_functions import glf, multi_glf
p = [(0, 1, 5, 1, 1, 1, 0.1), (0, 2, 4, 1, 1, 1, 0.4), (0, 3, 3, 1, 1, 1, 0.9)]
x = np.linspace(-1, 1, 5)
done(near(multi_glf(x, *sum(p, ())), sum(glf(x, *q) for q in p)), "sum of three functions")
''')

bug("c23-multi-params-length", "C23", "a multi GLF barrier with an incomplete group of parameters",
    "an incomplete group of parameters is accepted if it has at least one full group",
    [(BM, "        if len(params) % 7 != 0:\n", "        if len(params) < 7 and len(params) % 7 != 0:\n")],
'''try:
    b = BarrierFunctionMultiGLF(0.1, 0.9, *([1.0] * 9))
except ValueError:
    done(True, "refused")
done(False, "nine parameters accepted")
''')

bug("c23-negative-shift", "C23", "a growth rate that is negative together with an offset",
    "the offset of mirrored functions is applied with the wrong sign in the inverse",
    [(GLF, "    return (growth_rate * offset - np.log((((asymptote_left", "    return (abs(growth_rate) * offset - np.log((((asymptote_left")],
'''from simcats.support_functions import glf, inverse_glf
a = dict(asymptote_left=0.2, asymptote_right=1.5, growth_rate=-3, asymmetry=1.7, shape_factor=0.8, offset=0.3)
x = np.linspace(-1, 1, 9)
done(near(inverse_glf(glf(x, **a), **a), x, 1e-9), "inverse of the mirrored GLF")
''')




bug("c24-mu0-restored", "C24", "two deformed scans one after the other",
    "the position of a deformed peak is not restored if the response is zero",
    [(SSG, "                    resp_sum += p.sensor_function(mu_sens)\n                    p.mu0 = old_mu0\n",
      "                    resp_sum += p.sensor_function(mu_sens)\n                    if np.any(resp_sum > 1e-12):\n                        p.mu0 = old_mu0\n")],
'''d = {0: SensorPeakDeformationLinear(angle=np.pi / 3)}
s = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.5, sigma=0.02, height=1)], sensor_peak_deformations=d)
a = np.array([-0.5, 0.8]); b = np.array([-0.5, 0.8])
s.sensor_response(s.sensor_potential(np.zeros((5, 5, 2)), 0., 0., a, b))
done(s.sensor_peak_function[0].mu0 == 0.5, "the peak keeps its position: %s" % s.sensor_peak_function[0].mu0)
''')

bug("c26-below-on-line", "C26", "a point that lies exactly on a sloped line",
    "points on a sloped line count as below",
    [(LA, "        return y < y_line\n", "        return y <= y_line\n")],
'''from simcats.support_functions import is_point_below_line
done(not is_point_below_line((2.0, 5.0), (2.0, 1.0)) and is_point_below_line((2.0, 4.9), (2.0, 1.0)), "a point on the line is not below it")
''')

bug("c26-vertical-second", "C26", "the first line vertical, the second sloped",
    "the intersection of a vertical line with a line of negative slope",
    [(LA, "        m2, b2 = line2\n        return np.array([line1, m2 * line1 + b2])", "        m2, b2 = line2\n        return np.array([line1, abs(m2) * line1 + b2])")],
'''from simcats.support_functions import line_line_intersection
done(near(line_line_intersection(0.5, (-2.0, 3.0)), [0.5, 2.0]), "vertical line first")
''')

bug("c26-vertical-circle", "C26", "a vertical line and a circle whose centre is not at height zero",
    "vertical lines meet circles at the wrong height",
    [(LA, "        C = center_y ** 2 + (c - center_x) ** 2 - radius ** 2\n", "        C = center_y ** 2 + c ** 2 - center_x ** 2 - radius ** 2\n")],
'''from simcats.support_functions import line_circle_intersection
r = line_circle_intersection(1.5, (1.0, 2.0), 1.0)
done(len(r) == 2 and all(abs((x - 1) ** 2 + (y - 2) ** 2 - 1) < 1e-9 for x, y in r), "points on the circle: %s" % r)
''')


bug("c27-1d-sorted-g2", "C27", "a 1D plot with descending gate 1 voltages",
    "the voltages of gate 2 keep their order when the plot is sorted",
    [(PL, "        volt_limits_g1 = volt_limits_g1[::-1]\n        volt_limits_g2 = volt_limits_g2[::-1]\n",
      "        volt_limits_g1 = volt_limits_g1[::-1]\n        volt_limits_g2 = np.sort(volt_limits_g2)\n")],
'''import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from simcats.support_functions import plot_csd
plt.show = lambda *a, **k: None
plot_csd(np.arange(5.), np.array([0.4, 0.0]), np.array([0.0, 0.8]))
t = [x.get_text() for x in plt.gca().get_xticklabels()]
done(t[0] == "(0.000;0.800)" and t[-1] == "(0.400;0.000)", "tick labels %s" % t)
''')

bug("c27-ticks-unsorted", "C27", "an unsorted 2D plot with a descending gate 2 sweep",
    "the y ticks are always ascending",
    [(PL, '        ["%.3f" % x for x in np.linspace(volt_limits_g2[0], volt_limits_g2[1], num_yticks).round(3)],',
      '        ["%.3f" % x for x in np.linspace(np.min(volt_limits_g2), np.max(volt_limits_g2), num_yticks).round(3)],')],
'''import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from simcats.support_functions import plot_csd
plt.show = lambda *a, **k: None
plot_csd(np.arange(20.).reshape(4, 5), np.array([0.0, 0.4]), np.array([0.8, 0.0]), sort_volts=False)
t = [x.get_text() for x in plt.figure(1).axes[0].get_yticklabels()]
done(t[0] == "0.800" and t[-1] == "0.000", "y ticks %s" % t)
''')

bug("c27-aspect", "C27", "a 2D plot whose two axes have different numbers of pixels",
    "the aspect ratio ignores the number of pixels",
    [(PL, "    aspect = (y_extent / csd.shape[0]) / (x_extent / csd.shape[1])\n", "    aspect = (y_extent / csd.shape[1]) / (x_extent / csd.shape[0])\n")],
'''import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from simcats.support_functions import plot_csd
plt.show = lambda *a, **k: None
plot_csd(np.zeros((4, 8)), np.array([0.0, 0.4]), np.array([0.0, 0.8]))
done(abs(float(plt.figure(1).axes[0].get_aspect()) - 4.0) < 1e-9, "aspect %s" % plt.figure(1).axes[0].get_aspect())
''')

bug("c28-first-sweep-point", "C28", "a sweep in which both gates start at non-zero voltages, measured at the end point",
    "the offset is reset for the last instead of the first point of the sweep of gate 2",
    [(RST, "    potentials = dqd_sim.sensor.sensor_potential(occupations, sweep_range_g1, sweep_range_g2)\n",
      "    potentials = dqd_sim.sensor.sensor_potential(occupations, sweep_range_g1, np.sort(sweep_range_g2))\n")],
'''from simcats.support_functions import reset_offset_mu_sens
sim = Simulation(ideal_csd_config=structure(), sensor=sensor())
a = np.array([-0.2, -0.1]); b = np.array([-0.1, -0.2])
reset_offset_mu_sens(sim, 0.25, a, b)
o, _ = sim.ideal_csd_config.get_csd_data(a, b, 5)
p = sim.sensor.sensor_potential(o, a, b)
done(near(p[0], 0.25), "potential at the initial point %s" % p[0])
''')

bug("c28-charge-of-end", "C28", "a sweep along which the charge state changes",
    "the charge of the end of the sweep is used for the reset",
    [(RST, "volt_limits_g2=sweep_range_g2,\n                                                           resolution=2)",
      "volt_limits_g2=sweep_range_g2,\n                                                           resolution=2)\n    occupations = occupations[::-1]")],
'''from simcats.support_functions import reset_offset_mu_sens
sim = Simulation(ideal_csd_config=structure(), sensor=sensor())
a = np.array([-0.2, -0.11]); b = np.array([-0.2, -0.11])
reset_offset_mu_sens(sim, 0.25, a, b)
o, _ = sim.ideal_csd_config.get_csd_data(a, b, 5)
p = sim.sensor.sensor_potential(o, a, b)
done(near(p[0], 0.25), "potential at the initial point %s" % p[0])
''')

bug("c18-normal-resampled-std", "C18", "a normal sampler whose first draws lie outside its range",
    "rejected draws narrow the distribution instead of being repeated",
    [(PS, "        while sampled < self.__range[0] or sampled > self.__range[1]:\n            sampled = self.__rng.normal(loc=self.__mean, scale=self.__std)",
      "        while sampled < self.__range[0] or sampled > self.__range[1]:\n            sampled = self.__rng.normal(loc=self.__mean, scale=0.5 * self.__std)")],
'''class R:
    def __init__(s): s.v = iter([5.0, 1.0]); 
    def normal(s, loc=0, scale=1, size=None): return loc + scale * next(s.v)
    def uniform(s, a=0, b=1, size=None): return (a + b) / 2
n = NormalSamplingRange(total_range=(-2, 2), std=1.0, rng=R())
v = n.sample_parameter()
done(v == 1.0, "second draw of the same distribution: %s" % v)
''')

bug("c18-exponential-clipped", "C18", "an exponential draw beyond the range of the sampler",
    "values beyond the range are moved to its end instead of being drawn again",
    [(PS, "        while sampled < np.min(self.__range) or sampled > np.max(self.__range):\n            sampled = self.__range[0] + self.__rng.exponential(scale=self.__scale) * (self.__range[1] - self.__range[0])",
      "        if sampled < np.min(self.__range) or sampled > np.max(self.__range):\n            sampled = self.__range[1]")],
'''class R:
    def __init__(s): s.v = iter([5.0, 0.5])
    def exponential(s, scale=1, size=None): return next(s.v)
n = ExponentialSamplingRange(total_range=(1, 2), scale=0.2, rng=R())
v = n.sample_parameter()
done(v == 1.5, "draws beyond the range are repeated: %s" % v)
''')

bug("c18-last-sample", "C18", "the last sample asked for after a sample at a range edge",
    "last_sample reports an older value if the new one equals zero",
    [(PS, "        sampled = self.__rng.uniform(self.__range[0], self.__range[1])\n        self.__last_sample = sampled\n        return sampled",
      "        sampled = self.__rng.uniform(self.__range[0], self.__range[1])\n        self.__last_sample = sampled or self.__last_sample\n        return sampled")],
'''u = UniformSamplingRange(total_range=(0, 1), rng=np.random.default_rng(3))
u.sample_parameter()
class R:
    def uniform(s, a, b): return 0.0
u = UniformSamplingRange(total_range=(0, 1), rng=R())
class Q:
    def __init__(s): s.v = iter([0.7, 0.0])
    def uniform(s, a, b): return next(s.v)
u = UniformSamplingRange(total_range=(0, 1), rng=Q())
u.sample_parameter(); v = u.sample_parameter()
done(u.last_sample() == v == 0.0, "last sample %s" % u.last_sample())
''')
