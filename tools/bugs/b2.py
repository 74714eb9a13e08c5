PRE = '''import copy, sys, warnings
import numpy as np
from simcats import Simulation, default_configs
from simcats.ideal_csd import IdealCSDGeometric
from simcats.sensor import *
from simcats.sensor.barrier_function import *
from simcats.sensor.deformation import *
from simcats.distortions import *
from simcats import distortions
from simcats.support_functions import *
warnings.simplefilter("ignore")
D1 = default_configs["GaAs_v1"]
D2 = default_configs["GaAs_v2_extended_sensor"]


def structure(**kw):
    a = dict(tct_params=[np.array(p) for p in D1["ideal_csd_config"].tct_params], rotation=-np.pi / 4,
             lut_entries=1000, cdf_type="sigmoid", cdf_gamma_factor=None)
    a.update(kw)
    return IdealCSDGeometric(**a)


def sensor():
    return SensorGeneric(sensor_peak_function=[SensorPeakGaussian(mu0=0, sigma=0.3, height=1)],
                         alpha_dot=np.array([-0.05, -0.03]), alpha_gate=np.array([0.9, 1.1]), offset_mu_sens=0.1)


def scan_sensor(**kw):
    a = dict(barrier_functions=(BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0,
                                                   asymptote_right=1, growth_rate=20, asymmetry=1, shape_factor=1, offset=0.1),
                                BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0,
                                                   asymptote_right=1.3, growth_rate=30, asymmetry=1, shape_factor=1, offset=0.2)),
             sensor_peak_function=[SensorPeakGaussian(mu0=0.2, sigma=0.05, height=1),
                                   SensorPeakGaussian(mu0=0.5, sigma=0.05, height=1)],
             alpha_dot=np.array([[-0.05, -0.03], [-0.02, -0.01], [-0.01, -0.02]]),
             alpha_gate=np.array([[0.2, 0.3], [0.1, 0.05], [0.04, 0.12]]),
             alpha_sensor_gate=np.array([[0.5, 0.6], [0.9, 0.2], [0.1, 0.8]]),
             offset_mu_sens=np.array([0.0, 0.02, -0.03]), final_rise=None)
    a.update(kw)
    return SensorScanSensorGeneric(**a)


def near(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, atol=tol, rtol=0)


def done(ok, msg):
    print(("ok: " if ok else "BROKEN: ") + msg)
    sys.exit(0 if ok else 1)


'''
SIM="simcats/_simulation.py"; CSD="simcats/ideal_csd/geometric/_ideal_csd_geometric.py"
MASK="simcats/ideal_csd/geometric/_generate_lead_transition_mask.py"; OCC="simcats/ideal_csd/geometric/_get_electron_occupation.py"
TCT="simcats/ideal_csd/geometric/_tct_bezier.py"; ANC="simcats/ideal_csd/geometric/_calculate_all_bezier_anchors.py"
SSG="simcats/sensor/_sensor_scan_sensor_generic.py"; SG="simcats/sensor/_sensor_generic.py"
DJ="simcats/distortions/_dot_jumps.py"; BL="simcats/distortions/_transition_blurring.py"; RTN="simcats/distortions/_random_telegraph_noise.py"
WN="simcats/distortions/_white_noise.py"; PN="simcats/distortions/_pink_noise.py"; PS="simcats/support_functions/_parameter_sampling.py"
LA="simcats/support_functions/_linear_algebra.py"; PL="simcats/support_functions/_plotting.py"; GLF="simcats/support_functions/_generalized_logistic_function.py"
RIS="simcats/sensor/_sensor_rise_glf.py"; CIR="simcats/sensor/deformation/_sensor_peak_deformation_circle.py"; LIN="simcats/sensor/deformation/_sensor_peak_deformation_linear.py"
CDF="simcats/support_functions/_cumulative_distribution_functions.py"; FER="simcats/support_functions/_fermi_filter1d.py"; RST="simcats/support_functions/_reset_offset_mu_sens.py"
CFG="simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"; BG="simcats/sensor/barrier_function/_barrier_function_glf.py"
SPG="simcats/sensor/_sensor_peak_gaussian.py"; SPL="simcats/sensor/_sensor_peak_lorentzian.py"; SDL="simcats/support_functions/_signed_dist_points_line.py"
BUGS=[]
def bug(id, prop, needs, breaks, edits, demo, count=1):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=PRE+demo, count=count))

bug("c01-label-mask-1d-descending", "C01", "a 1D sweep from high to low charge",
    "in a descending step the label is put on the pixel after the transition",
    [(MASK, "            csd_result[_id] = csd_total_occ[_id]\n", "            csd_result[_id + 1] = csd_total_occ[_id]\n")],
'''s = structure()
a = np.array([-0.2, -0.1]); b = np.array([-0.2, -0.08])
o, t = s.get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=200)
o2, t2 = s.get_csd_data(volt_limits_g1=a[::-1], volt_limits_g2=b[::-1], resolution=200)
done(near(t[::-1], t2) and t.max() > 1, "labels of the reversed sweep are the reversed labels")
''')

bug("c04-label-overwrite-order", "C04", "a resolution so coarse that two curves pass the same pixel",
    "where two curves share a pixel the label of the lower one wins",
    [(MASK, "    for tct_value, tct_func in tct_functions.items():\n        # generate", "    for tct_value, tct_func in sorted(tct_functions.items(), reverse=True):\n        # generate")],
'''s = structure()
for n in (3, 4, 5):
    x = np.linspace(-0.2, -0.1, n)
    o, t = s.get_csd_data(volt_limits_g1=np.array([-0.2, -0.1]), volt_limits_g2=np.array([-0.2, -0.1]), resolution=np.array([n, n]))
    tot = np.rint(o.sum(axis=-1)).astype(int)
    for i in range(n):
        for j in range(n):
            o1, _ = s.get_csd_data(volt_limits_g1=np.array([x[j], x[j]]), volt_limits_g2=np.array([x[i], x[i]]), resolution=1)
            if tot[i, j] < round(o1.sum()):
                done(False, "pixel (%d, %d) of %d has %d electrons, at its voltages there are %d" % (i, j, n, tot[i, j], round(o1.sum())))
done(True, "no pixel has less charge than its voltages")
''')


bug("c06-cauchy-default", "C06", "Cauchy steps with the default factor",
    "the default factor of the sigmoid is used for Cauchy steps",
    [(OCC, "            cdf_gamma_factor = 6.15", "            cdf_gamma_factor = 2.2")],
'''a = np.array([-0.2, -0.08]); b = np.array([-0.08, -0.2])
o, t = structure(cdf_type="cauchy").get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=80)
o2, t = structure(cdf_type="cauchy", cdf_gamma_factor=6.15).get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=80)
done(near(o, o2), "the default factor for Cauchy steps is 6.15")
''')


bug("c07-fixed-at-upper-limit", "C07", "a 1D sweep with gate 2 fixed exactly at its upper limit",
    "a gate that stays at the upper limit is refused",
    [(SIM, "                        or np.min(sweep_range_g2) > self.__volt_limits_g2[1]\n", "                        or np.min(sweep_range_g2) >= self.__volt_limits_g2[1]\n")],
'''sim = Simulation(ideal_csd_config=structure(), volt_limits_g1=np.array([-0.2, -0.1]), volt_limits_g2=np.array([-0.2, -0.1]))
try:
    sim.measure(np.array([-0.2, -0.1]), np.array([-0.1, -0.1]), resolution=5)
    done(True, "limits are inclusive")
except ValueError as e:
    done(False, str(e)[:80])
''')

bug("c07-one-sensor-voltage", "C07", "only one of two sensor voltages and a sensor without sensor gates",
    "a request with one sensor voltage is accepted if the sensor ignores sensor voltages",
    [(SIM, "        if (volt_sensor_g1 is None) != (volt_sensor_g2 is None):\n", "        if isinstance(self.__sensor, SensorScanSensorInterface) and (volt_sensor_g1 is None) != (volt_sensor_g2 is None):\n")],
'''sim = Simulation(ideal_csd_config=structure(), sensor=sensor())
try:
    sim.measure(np.array([-0.2, -0.1]), np.array([-0.2, -0.1]), None, 0.1, 5)
    done(False, "request with a single sensor voltage accepted")
except ValueError:
    done(True, "request with a single sensor voltage refused")
''')

bug("c08-plunger-limit-without-structure", "C08", "plunger limits but no ideal structure",
    "plunger voltages are not compared to the limits if there is no structure",
    [(SIM, "                volt_g2 is not None\n                and self.__volt_limits_g2 is not None\n", "                volt_g2 is not None\n                and self.__ideal_csd_config is not None\n                and self.__volt_limits_g2 is not None\n")],
'''sim = Simulation(sensor=scan_sensor(), volt_limits_g2=np.array([-0.2, -0.1]))
try:
    sim.measure_sensor_scan(np.array([0, 0.1]), np.array([0, 0.1]), 0.0, 0.0, 5)
    done(False, "plunger voltage outside of its limits accepted")
except ValueError:
    done(True, "refused")
''')

bug("c08-zero-plunger-voltage", "C08", "a plunger voltage of exactly zero",
    "a plunger voltage of zero counts as missing and the dots count as empty",
    [(SIM, "        if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:\n", "        if self.ideal_csd_config is None or not volt_g1 or not volt_g2:\n")],
'''p = [np.array(q) for q in D1["ideal_csd_config"].tct_params]
for q in p:  # shift the structure so that zero volts lie in its middle
    q[[4, 6]] += 0.0
    q[[5, 7]] += 0.1 * np.sqrt(2)
s = structure(tct_params=p)
sen = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.2, sigma=0.4, height=1)])
sim = Simulation(ideal_csd_config=s, sensor=sen)
a = np.array([0.1, 0.5])
x = sim.measure_sensor_scan(a, a, 0.0, 0.0, 5)[0]
y = sim.measure_sensor_scan(a, a, 1e-12, 1e-12, 5)[0]
o, _ = s.get_csd_data(volt_limits_g1=np.array([0., 0.]), volt_limits_g2=np.array([0., 0.]), resolution=1)
print("charge", o.sum())
done(o.sum() > 0.5 and near(x, y), "scan at zero plunger voltages uses the structure there")
''')


bug("c09-limit-not-copied", "C09", "changing the array handed over as sensor gate limit",
    "the limit of sensor gate 2 is the caller's array",
    [(SIM, "        self.__volt_limits_sensor_g2 = deepcopy(volt_limits_sensor_g2)", "        self.__volt_limits_sensor_g2 = volt_limits_sensor_g2")],
'''l = np.array([0., 1.])
sim = Simulation(sensor=scan_sensor(), volt_limits_sensor_g2=l)
l[1] = 0.1
try:
    sim.measure_sensor_scan(np.array([0, 0.5]), np.array([0, 0.5]), None, None, 4)
    done(True, "limits are copied")
except ValueError:
    done(False, "caller's array is still in use")
''')

bug("c09-metadata-range-alias", "C09", "the caller reuses the array of a sensor sweep range",
    "the metadata of sensor scans hold the caller's sweep range",
    [(SIM, '            "sweep_range_sensor_g2": deepcopy(sweep_range_sensor_g2),\n', '            "sweep_range_sensor_g2": np.asarray(sweep_range_sensor_g2),\n')],
'''sim = Simulation(sensor=scan_sensor())
a = np.array([0., 0.5]); b = np.array([0., 0.6])
m = sim.measure_sensor_scan(a, b, None, None, 4)[3]
b[1] = 3
done(near(m["sweep_range_sensor_g2"], [0, 0.6]), "metadata are copies")
''')

bug("c10-scan-occupation-cache", "C10", "a sensor scan after the structure has been replaced, at the plunger voltages of the scan before",
    "the occupation at the plunger voltages is remembered although the structure changed",
    [(SIM, """            occupations_csd, lead_transitions = generate_csd(
                volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
            )
""", """            if getattr(self, "_scan_point", None) != (volt_g1, volt_g2):
                self._scan_point = (volt_g1, volt_g2)
                self._scan_occ, lead_transitions = generate_csd(
                    volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
                )
            occupations_csd = self._scan_occ
""")],
'''s = structure()
s2 = structure(tct_params=[np.array(p) - np.array([0, 0, 0, 0, 0, .05, 0, .05]) for p in s.tct_params])
sen = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.2, sigma=0.4, height=1)])
a = np.array([0.1, 0.5])
sim = Simulation(ideal_csd_config=s, sensor=sen)
sim.measure_sensor_scan(a, a, -0.12, -0.1, 4)
sim.ideal_csd_config = s2
x = sim.measure_sensor_scan(a, a, -0.12, -0.1, 4)[0]
y = Simulation(ideal_csd_config=s2, sensor=sen).measure_sensor_scan(a, a, -0.12, -0.1, 4)[0]
done(near(x, y, 1e-14), "scan equals that of a new simulation")
''')

bug("c11-scan-ranges-swapped", "C11", "potential distortions in a sensor scan with different ranges",
    "the distortions of the potentials get the ranges of the two sensor gates in the wrong order",
    [(SIM, """                            mu_sens=potential[pot_num],
                            volt_limits_g1=sweep_range_sensor_g1,
                            volt_limits_g2=sweep_range_sensor_g2
""", """                            mu_sens=potential[pot_num],
                            volt_limits_g1=sweep_range_sensor_g2,
                            volt_limits_g2=sweep_range_sensor_g1
""")],
'''seen = []
class P(distortions.SensorPotentialDistortionInterface):
    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        seen.append((tuple(volt_limits_g1), tuple(volt_limits_g2))); return mu_sens
    def __deepcopy__(self, memo): return self
P.__abstractmethods__ = frozenset()
sim = Simulation(sensor=scan_sensor(), sensor_potential_distortions=[P.__new__(P)])
sim.measure_sensor_scan(np.array([0., 0.5]), np.array([0.1, 0.6]), None, None, np.array([3, 4]))
done(seen == [((0., .5), (.1, .6))] * 3, "distortions get the ranges of the scan %s" % seen[:1])
''')

bug("c11-not-frozen", "C11", "a later occupation distortion that asks for data outside of the window",
    "the earlier distortions draw anew when they are re-applied to the data outside of the window",
    [(SIM, "volt_limits_g1, volt_limits_g2, generate_csd,\n                                   freeze=True)", "volt_limits_g1, volt_limits_g2, generate_csd,\n                                   freeze=generate_csd is not None and bool(np.ptp(volt_limits_g2)))")],
'''flags = []
class A(distortions.OccupationDistortionInterface):
    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd, freeze=False):
        flags.append(freeze); return occupations, lead_transitions
    def __deepcopy__(self, memo): return self
class B(A):
    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd, freeze=False):
        generate_csd(np.array([-0.2, -0.19]), np.array([-0.15, -0.15]), np.array([4])); return occupations, lead_transitions
for c in (A, B): c.__abstractmethods__ = frozenset()
sim = Simulation(ideal_csd_config=structure(), occupation_distortions=[A.__new__(A), B.__new__(B)])
sim.measure(np.array([-0.2, -0.1]), np.array([-0.15, -0.15]), resolution=5)
done(flags == [False, True], "re-application is frozen %s" % flags)
''')


bug("c16-height-per-pixel", "C16", "telegraph noise with a spread of the burst height",
    "every pixel of a burst has its own height",
    [(RTN, "            noise = np.concatenate((noise, np.array([bi] * int(length[i])) * rng.normal(height, std)))\n", "            noise = np.concatenate((noise, np.array([bi] * int(length[i])) * rng.normal(height, std, size=int(length[i]))))\n")],
'''d = SensorPotentialRTN(scale=0.02, std=0.3, height=1, rng=np.random.default_rng(5))
v = d.noise_function(np.zeros(400), np.array([0, 0.4]), np.array([0, 0.4]))
runs = sum(1 for a, b in zip(v[:-1], v[1:]) if a != b)
done(runs < 60, "offset is piecewise constant (%d changes in 400 pixels)" % runs)
''')



bug("c17-pink-per-row", "C17", "pink noise on a 2D potential",
    "every line gets its own sequence",
    [(PN, "np.prod(original.shape), fmin=fmin", "original.shape, fmin=fmin")],
'''a = SensorPotentialPinkNoise(sigma=1, fmin=0.01, rng=np.random.default_rng(5)).noise_function(np.zeros((20, 30)), np.array([0, 1]), np.array([0, 1]))
b = SensorPotentialPinkNoise(sigma=1, fmin=0.01, rng=np.random.default_rng(5)).noise_function(np.zeros(600), np.array([0, 1]), np.array([0, 1]))
done(near(a.ravel(), b), "noise depends on the number of pixels only")
''')

bug("c17-exponent", "C17", "spectrum of the pink noise",
    "the power falls off as 1/f^2",
    [(PN, "cn.powerlaw_psd_gaussian(1, ", "cn.powerlaw_psd_gaussian(2, ")],
'''n = 4096; p = 0
for k in range(20):
    v = SensorPotentialPinkNoise(sigma=1, fmin=1 / n, rng=np.random.default_rng(k)).noise_function(np.zeros(n), np.array([0, 1]), np.array([0, 1]))
    p = p + np.abs(np.fft.rfft(v)[1:]) ** 2
f = np.fft.rfftfreq(n)[1:]
s = np.polyfit(np.log(f), np.log(p), 1)[0]
done(abs(s + 1) < 0.1, "power falls off with exponent %g" % s)
''')
DJPRE = '''class R:
    """random generator with given block lengths and heights"""
    def __init__(self, widths, heights): self.w, self.h = widths, heights
    def binomial(self, n, p): return 1
    def geometric(self, p, size=None): return np.array((list(self.w) + [1000] * (size or 1))[:size])
    def poisson(self, lam, size=None):
        k = getattr(self, "k", -1) + 1; self.k = k
        return self.h[min(k, len(self.h) - 1)]
    def __deepcopy__(self, memo): return R(self.w, self.h)
'''
bug("c13-large-jump-clipped", "C13", "a jump that is higher than the swept range",
    "jumps beyond the length of the sweep are clipped to it",
    [(DJ, "    noise = noise[:size]\n    noise = noise.astype(int)\n    return noise\n", "    noise = np.clip(noise[:size], 0, size - 1)\n    noise = noise.astype(int)\n    return noise\n")],
DJPRE + '''from simcats.distortions._dot_jumps import generate_dot_jumps_blockwise
n = 6
s = structure()
sim = Simulation(ideal_csd_config=s, occupation_distortions=[OccupationDotJumps(scale=0.01, lam=0.01, axis=0, rng=R([2], [0, 9]))])
a = np.array([-0.15, -0.1]); b = np.array([-0.12, -0.1])
o = sim.measure(a, b, resolution=np.array([5, n]))[1]
st = (b[1] - b[0]) / (n - 1)
r = structure().get_csd_data(volt_limits_g1=a, volt_limits_g2=np.array([b[0] - 9 * st, b[1]]), resolution=np.array([5, n + 9]))[0]
done(near(o[2:], r[2:n], 1e-6) and np.ptp(r) > 0.5, "shifted lines are those nine pixels further down")
''')

bug("c13-extension-stretched", "C13", "a jump along g2 by more than one pixel in a 2D scan",
    "the data below the window are taken from a grid with a wrong spacing",
    [(DJ, """                        volt_limits_g2[0] - max_jump * step_size,
                        volt_limits_g2[0] - step_size,
                    ),
                    resolution=(occupation.shape[1], max_jump)""", """                        volt_limits_g2[0] - (max_jump + 1) * step_size,
                        volt_limits_g2[0] - step_size,
                    ),
                    resolution=(occupation.shape[1], max_jump)""")],
DJPRE + '''n = 20; k = 10
s = structure()
sim = Simulation(ideal_csd_config=s, occupation_distortions=[OccupationDotJumps(scale=0.01, lam=0.01, axis=0, rng=R([3], [0, k]))])
a = np.array([-0.15, -0.1]); b = np.array([-0.14, -0.1])
o = sim.measure(a, b, resolution=np.array([7, n]))[1]
st = (b[1] - b[0]) / (n - 1)
r = s.get_csd_data(volt_limits_g1=a, volt_limits_g2=np.array([b[0] - k * st, b[1]]), resolution=np.array([7, n + k]))[0]
done(near(o[3:].sum(axis=-1), r[3:n].sum(axis=-1), 1e-6), "shifted lines are those %d pixels further down" % k)
''')


bug("c12-frozen-inactive", "C12", "two occupation distortions, the first an inactive jump, the second a jump that asks for data below",
    "a frozen jump acts with its last jump although it was not active",
    [(DJ, "        if freeze and not self.__activated:\n            return occupations, lead_transitions\n", "        if freeze and self.__activated is None:\n            return occupations, lead_transitions\n")],
'''class R:
    def __init__(self, acts): self.a = acts; self.k = 0
    def binomial(self, n, p): self.k += 1; return self.a[self.k - 1]
    def geometric(self, p, size=None): return np.array(([2] + [1000] * (size or 1))[:size])
    def poisson(self, lam, size=None): return 3
    def __deepcopy__(self, memo): return R(self.a)
s = structure()
a = np.array([-0.15, -0.1]); b = np.array([-0.13, -0.1])
two = Simulation(ideal_csd_config=s, occupation_distortions=[OccupationDotJumps(scale=0.01, lam=0.01, axis=1, rng=R([1, 0])),
                                                             OccupationDotJumps(scale=0.01, lam=0.01, axis=0, rng=R([0, 1]))])
one = Simulation(ideal_csd_config=s, occupation_distortions=[OccupationDotJumps(scale=0.01, lam=0.01, axis=0, rng=R([1]))])
two.measure(a, b, resolution=np.array([20, 20]))
done(near(two.measure(a, b, resolution=np.array([20, 20]))[1], one.measure(a, b, resolution=np.array([20, 20]))[1]),
     "an inactive jump in front changes nothing")
''')


bug("c14-gauss-1d-g2", "C14", "a 1D sweep of gate 2 alone with the Gaussian blurring and a range below one volt",
    "in sweeps of g2 alone the width is not divided by the range",
    [(BL, """                    sigma *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
                elif volt_limits_g2[0] == volt_limits_g2[1]:
                    sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                else:
                    sigma *= np.maximum(
                        resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
                        resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
                    )
                occupations[:, 0] = gaussian_filter1d(""", """                    sigma *= (resolution[1] - 1) / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
                elif volt_limits_g2[0] == volt_limits_g2[1]:
                    sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                else:
                    sigma *= np.maximum(
                        resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
                        resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
                    )
                occupations[:, 0] = gaussian_filter1d(""")],
'''o = np.zeros((40, 2)); o[20:] = 1
p = o.copy(); q = o.copy()
g = OccupationTransitionBlurringGaussian(sigma=0.02)
g.noise_function(p, None, np.array([0.3, 0.3]), np.array([0, 0.4]))
g.noise_function(q, None, np.array([0, 0.4]), np.array([0.3, 0.3]))
done(near(p, q), "sweeps of either gate are blurred alike")
''')


bug("c15-gauss-2d-rows", "C15", "2D scans with data that vary from line to line",
    "the Gaussian blurring of dot 2 mixes lines",
    [(BL, "                occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)\n", "                occupations[:, :, 1] = gaussian_filter1d(gaussian_filter1d(occupations[:, :, 1], sigma=sigma), sigma=0.3, axis=0)\n")],
'''o = np.zeros((6, 40, 2)); o[3:] = 1
p = o.copy()
OccupationTransitionBlurringGaussian(sigma=0.05).noise_function(p, None, np.array([0, 0.4]), np.array([0, 0.4]))
done(near(o, p), "lines do not mix")
''')

bug("c15-fermi-mode", "C15", "a transition near the end of a line",
    "lines are mirrored about the centre of the last pixel by default",
    [(FER, '    mode: str = "reflect",\n', '    mode: str = "mirror",\n')],
'''o = np.zeros((40, 2)); o[1:] = 1
p = o.copy()
OccupationTransitionBlurringFermiDirac(sigma=0.03).noise_function(p, None, np.array([0, 0.4]), np.array([0, 0.4]))
done(abs(p.sum() - o.sum()) < 1e-9, "blurring with mirrored ends preserves the total")
''')

bug("c18-mean-of-total-range", "C18", "a normal sampler with narrowing where the first draw is out of range",
    "an out-of-range draw is clipped instead of repeated",
    [(PS, """        while sampled < self.__range[0] or sampled > self.__range[1]:
            sampled = self.__rng.lognormal(mean=self.__mean, sigma=self.__sigma)
""", """        while sampled < self.__range[0]:
            sampled = self.__rng.lognormal(mean=self.__mean, sigma=self.__sigma)
        sampled = min(sampled, self.__range[1])
""")],
'''s = LogNormalSamplingRange((0.5, 1.5), rng=np.random.default_rng(1))
v = [s.sample_parameter() for _ in range(200)]
done(len(set(v)) == 200, "no value is clipped to the end of the range (%d equal values)" % (200 - len(set(v))))
''')

bug("c18-narrow-edge", "C18", "a uniform sampler whose sub-range is drawn at the end of the total range",
    "the narrowed range may reach beyond the total range",
    [(PS, """                sampled = self.__rng.uniform(
                    total_range[0] + 0.5 * sampling_range, total_range[1] - 0.5 * sampling_range
                )
                self.__range = (sampled - 0.5 * sampling_range, sampled + 0.5 * sampling_range)
        self.__last_sample = None

    def sample_parameter(self):
        sampled = self.__rng.uniform(""", """                sampled = self.__rng.uniform(
                    total_range[0] + 0.5 * sampling_range, total_range[1] - 0.25 * sampling_range
                )
                self.__range = (sampled - 0.5 * sampling_range, sampled + 0.5 * sampling_range)
        self.__last_sample = None

    def sample_parameter(self):
        sampled = self.__rng.uniform(""")],
'''bad = 0
for k in range(300):
    s = UniformSamplingRange((1, 2), sampling_range=0.8, rng=np.random.default_rng(k))
    for _ in range(20):
        bad += not 1 <= s.sample_parameter() <= 2
done(bad == 0, "samples lie in the total range (%d do not)" % bad)
''')
