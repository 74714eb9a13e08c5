PRE = '''import copy, sys, warnings
import numpy as np
from simcats import Simulation, default_configs
from simcats.ideal_csd import IdealCSDGeometric
from simcats.sensor import *
from simcats.sensor.barrier_function import *
from simcats.sensor.deformation import *
from simcats.distortions import *
from simcats import distortions
from simcats.support_functions import *
warnings.simplefilter("ignore")
D1 = default_configs["GaAs_v1"]
D2 = default_configs["GaAs_v2_extended_sensor"]


def structure(**kw):
    a = dict(tct_params=[np.array(p) for p in D1["ideal_csd_config"].tct_params], rotation=-np.pi / 4,
             lut_entries=1000, cdf_type="sigmoid", cdf_gamma_factor=None)
    a.update(kw)
    return IdealCSDGeometric(**a)


def sensor():
    return SensorGeneric(sensor_peak_function=[SensorPeakGaussian(mu0=0, sigma=0.3, height=1)],
                         alpha_dot=np.array([-0.05, -0.03]), alpha_gate=np.array([0.9, 1.1]), offset_mu_sens=0.1)


def scan_sensor(**kw):
    a = dict(barrier_functions=(BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0,
                                                   asymptote_right=1, growth_rate=20, asymmetry=1, shape_factor=1, offset=0.1),
                                BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0,
                                                   asymptote_right=1.3, growth_rate=30, asymmetry=1, shape_factor=1, offset=0.2)),
             sensor_peak_function=[SensorPeakGaussian(mu0=0.2, sigma=0.05, height=1),
                                   SensorPeakGaussian(mu0=0.5, sigma=0.05, height=1)],
             alpha_dot=np.array([[-0.05, -0.03], [-0.02, -0.01], [-0.01, -0.02]]),
             alpha_gate=np.array([[0.2, 0.3], [0.1, 0.05], [0.04, 0.12]]),
             alpha_sensor_gate=np.array([[0.5, 0.6], [0.9, 0.2], [0.1, 0.8]]),
             offset_mu_sens=np.array([0.0, 0.02, -0.03]), final_rise=None)
    a.update(kw)
    return SensorScanSensorGeneric(**a)


def near(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, atol=tol, rtol=0)


def done(ok, msg):
    print(("ok: " if ok else "BROKEN: ") + msg)
    sys.exit(0 if ok else 1)


'''
SIM="simcats/_simulation.py"; CSD="simcats/ideal_csd/geometric/_ideal_csd_geometric.py"
MASK="simcats/ideal_csd/geometric/_generate_lead_transition_mask.py"; OCC="simcats/ideal_csd/geometric/_get_electron_occupation.py"
TCT="simcats/ideal_csd/geometric/_tct_bezier.py"; ANC="simcats/ideal_csd/geometric/_calculate_all_bezier_anchors.py"
SSG="simcats/sensor/_sensor_scan_sensor_generic.py"; SG="simcats/sensor/_sensor_generic.py"
DJ="simcats/distortions/_dot_jumps.py"; BL="simcats/distortions/_transition_blurring.py"; RTN="simcats/distortions/_random_telegraph_noise.py"
WN="simcats/distortions/_white_noise.py"; PN="simcats/distortions/_pink_noise.py"; PS="simcats/support_functions/_parameter_sampling.py"
LA="simcats/support_functions/_linear_algebra.py"; PL="simcats/support_functions/_plotting.py"; GLF="simcats/support_functions/_generalized_logistic_function.py"
RIS="simcats/sensor/_sensor_rise_glf.py"; CIR="simcats/sensor/deformation/_sensor_peak_deformation_circle.py"; LIN="simcats/sensor/deformation/_sensor_peak_deformation_linear.py"
CDF="simcats/support_functions/_cumulative_distribution_functions.py"; FER="simcats/support_functions/_fermi_filter1d.py"; RST="simcats/support_functions/_reset_offset_mu_sens.py"
CFG="simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"; BG="simcats/sensor/barrier_function/_barrier_function_glf.py"
SPG="simcats/sensor/_sensor_peak_gaussian.py"; SPL="simcats/sensor/_sensor_peak_lorentzian.py"; SDL="simcats/support_functions/_signed_dist_points_line.py"
BUGS=[]
def bug(id, prop, needs, breaks, edits, demo, count=1):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=PRE+demo, count=count))

bug("c01-label-grid-descending", "C01", "a 2D sensor scan with a gate swept from high to low and deformed peaks",
    "labels of deformed peaks are placed with the distances of an ascending sweep",
    [(SSG, "            y_values = np.linspace(volt_limits_sensor_g2[0], volt_limits_sensor_g2[-1], sensor_pot.shape[0])",
           "            y_values = np.linspace(np.min(volt_limits_sensor_g2), np.max(volt_limits_sensor_g2), sensor_pot.shape[0])")],
'''sen = scan_sensor(sensor_peak_deformations={0: SensorPeakDeformationLinear(np.pi / 3), 1: SensorPeakDeformationLinear(np.pi / 2.5)})
sim = Simulation(sensor=sen)
a = np.array([0.0, 0.6]); b = np.array([0.0, 0.7])
m = sim.measure_sensor_scan(a, b, None, None, np.array([61, 45]))[2]
m2 = sim.measure_sensor_scan(a, b[::-1], None, None, np.array([61, 45]))[2]
d = np.argwhere(m == 1); e = np.argwhere(m2[::-1] == 1)
bad = [p for p in e if not np.any(np.all(np.abs(d - p) <= 1, axis=1))]
done(len(e) > 2 and not bad, "labels of the reversed sweep mirror those of the sweep (%d of %d differ)" % (len(bad), len(e)))
''')

bug("c02-sensor-scan-occ-swap", "C02", "a 2D sensor scan with plunger voltages at which the two dots hold different charge",
    "the occupation of dot 2 is taken from dot 1 in 2D sensor scans",
    [(SIM, "occupations[:, :, 1] = occupations[:,:,1] * occupations_csd[0, 1]", "occupations[:, :, 1] = occupations[:,:,0] * occupations_csd[0, 1]")],
'''sim = Simulation(ideal_csd_config=structure(), sensor=scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.2, sigma=0.4, height=1)]))
for v1, v2 in ((-0.1, -0.2), (-0.2, -0.05), (-0.2, -0.1)):
    s2 = sim.measure_sensor_scan(np.array([0.1, 0.5]), np.array([0.1, 0.5]), v1, v2, np.array([3, 3]))[0]
    s1 = sim.measure_sensor_scan(np.array([0.1, 0.5]), np.array([0.1, 0.1]), v1, v2, 3)[0]
    if not near(s2[0], s1):
        done(False, "2D scan differs from the 1D scan along its first row at %s %s" % (v1, v2))
done(True, "2D scans contain their 1D scans")
''')

bug("c03-label-of-double-step", "C03", "a coarse 1D sweep in which the total charge changes by more than one between two pixels",
    "the 1D label holds a wrong transition number",
    [(MASK, "            csd_result[_id + 1] = csd_total_occ[_id + 1]", "            csd_result[_id + 1] = csd_total_occ[_id] + 1")],
'''s = structure()
o, t = s.get_csd_data(volt_limits_g1=np.array([-0.2, -0.1]), volt_limits_g2=np.array([-0.2, -0.09]), resolution=5)
n = np.rint(o.sum(axis=1))
ids = np.where(n[1:] > n[:-1])[0] + 1
done(len(ids) > 1 and np.array_equal(t[ids], n[ids]), "labels hold the charge of the region: %s %s" % (t, n))
''')

bug("c04-1d-touching-curve", "C04", "a 1D sweep that exactly starts on a transition curve or crosses several curves from high to low charge",
    "1D sweeps use the curves in ascending order, so that later curves overwrite lower regions",
    [(OCC, "csd_mask[region_pixels] = tct_value - 1", "csd_mask[region_pixels] = min(tct_value - 1, 6)")],
'''s = structure()
o, t = s.get_csd_data(volt_limits_g1=np.array([-0.12, -0.09]), volt_limits_g2=np.array([-0.12, -0.06]), resolution=60)
o2, t2 = s.get_csd_data(volt_limits_g1=np.array([-0.12, -0.09]), volt_limits_g2=np.array([-0.12, -0.06]), resolution=np.array([60, 60]))
d = np.diagonal(o2.sum(axis=2)); w = np.diagonal(t2) == 0
done(np.array_equal(np.rint(o.sum(axis=1))[w], np.rint(d)[w]), "diagonal 1D sweep has the charge of the 2D scan: max %s" % o.sum(axis=1).max())
''')

bug("c05-anchor-of-valley", "C05", "a curve whose arc is not symmetric around its centre anchor",
    "the left anchor of every valley arc uses the left instead of the right distance",
    [(ANC, "                left_anchor_x = center_anchor_x - x_dist_right\n", "                left_anchor_x = center_anchor_x - x_dist_left\n")],
'''from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
p = np.array([0.04, 0.05, 0.5, -0.2, 0.0, 0.3, 0.008, 0.3026])
c = calculate_all_bezier_anchors([p], max_peaks=3, rotation=0)[3]
done(all(near(m[0] - l[0], (0.006, 0.002)[i % 2]) and near(r[0] - m[0], (0.002, 0.006)[i % 2]) for i, (l, m, r) in enumerate(c)),
     "arcs of peaks and valleys are point mirrored: %s" % (c[1] - c[1, 1]).tolist())
''')

bug("c06-gamma-zero-half", "C06", "a structure without interdot coupling region, sampled exactly on the interdot line or slightly beside it",
    "the step of the sigmoid without width is placed at a distance",
    [(CDF, "    if np.isclose(gam, 0.0):\n        result = x - x0\n        result[result > 0] = 1\n        result[result < 0] = 0\n        return result\n    return 0.5 * (1 + np.tanh((x - x0) / gam))",
           "    if np.isclose(gam, 0.0):\n        result = x - x0\n        result[result > x0] = 1\n        result[result < x0] = 0\n        return result\n    return 0.5 * (1 + np.tanh((x - x0) / gam))")],
'''from simcats.support_functions import sigmoid_cdf
x = np.array([0.5, 0.9, 1.1, 1.5, 2.5])
done(near(sigmoid_cdf(x.copy(), 1.0, 0.0), [0, 0, 1, 1, 1]), "step function at x0: %s" % sigmoid_cdf(x.copy(), 1.0, 0.0))
''')

bug("c07-limits-first-voltage-only", "C07", "a sweep from an allowed voltage of gate 2 beyond the lower limit",
    "a sweep range below the lower limit of gate 2 is accepted if it starts inside",
    [(SIM, "                        np.min(sweep_range_g2) < self.__volt_limits_g2[0]\n", "                        sweep_range_g2[0] < self.__volt_limits_g2[0]\n")],
'''sim = Simulation(volt_limits_g1=np.array([-0.2, -0.1]), volt_limits_g2=np.array([-0.2, -0.1]), ideal_csd_config=structure(), sensor=sensor())
try:
    sim.measure(np.array([-0.19, -0.15]), np.array([-0.15, -0.25]), resolution=4)
except ValueError:
    done(True, "sweep below the limit is refused")
done(False, "sweep below the limit was accepted")
''')

bug("c08-limits-sensor-g2-upper", "C08", "different limits for the sensor gates and a sweep of sensor gate 2 between the two upper limits",
    "the upper limit of sensor gate 1 is used for sensor gate 2",
    [(SIM, "                        or np.max(sweep_range_sensor_g2) > self.__volt_limits_sensor_g2[1]", "                        or np.max(sweep_range_sensor_g2) > max(self.__volt_limits_sensor_g2[1], np.max(sweep_range_sensor_g2[1:]))")],
'''sim = Simulation(volt_limits_sensor_g2=np.array([0.0, 0.4]), sensor=scan_sensor())
try:
    sim.measure_sensor_scan(np.array([0.0, 0.5]), np.array([0.0, 0.5]), None, None, 4)
except ValueError:
    done(True, "sweep above the limit is refused")
done(False, "sweep above the limit was accepted")
''')

bug("c09-metadata-sensor-shared", "C09", "changing the sensor of the simulation after a sensor scan",
    "the metadata of sensor scans holds the live sensor object",
    [(SIM, '            "resolution": deepcopy(resolution),\n            "ideal_csd_config": deepcopy(self.ideal_csd_config),\n            "sensor": deepcopy(self.sensor),\n            "occupation_distortions": deepcopy(self.occupation_distortions),\n            "sensor_potential_distortions": deepcopy(self.sensor_potential_distortions),\n            "sensor_response_distortions": deepcopy(self.sensor_response_distortions),\n        }\n\n        return scan,',
           '            "resolution": deepcopy(resolution),\n            "ideal_csd_config": deepcopy(self.ideal_csd_config),\n            "sensor": self.sensor,\n            "occupation_distortions": deepcopy(self.occupation_distortions),\n            "sensor_potential_distortions": deepcopy(self.sensor_potential_distortions),\n            "sensor_response_distortions": deepcopy(self.sensor_response_distortions),\n        }\n\n        return scan,')],
'''sim = Simulation(sensor=scan_sensor())
m = sim.measure_sensor_scan(np.array([0.0, 0.5]), np.array([0.0, 0.5]), None, None, 4)[3]
sim.sensor.offset_mu_sens = 7.0
done(near(m["sensor"].offset_mu_sens, [0.0, 0.02, -0.03]), "metadata keeps the sensor of the measurement")
''')

bug("c09-shallow-list-copy", "C09", "the caller changes a distortion object after handing it to the simulation",
    "the list of response distortions is copied but not its elements",
    [(SIM, "        self.__sensor_response_distortions = deepcopy(sensor_response_distortions)", "        self.__sensor_response_distortions = None if sensor_response_distortions is None else list(sensor_response_distortions)")],
'''w = SensorResponseWhiteNoise(sigma=0.0)
sim = Simulation(ideal_csd_config=structure(), sensor=sensor(), sensor_response_distortions=[w])
w.sigma = 5.0
done(sim.sensor_response_distortions[0].sigma == 0.0, "distortion of the simulation is private")
''')

bug("c10-occupations-kept", "C10", "a sensor scan with plunger voltages, then one without on the same simulation (deformed sensor)",
    "the scan sensor keeps the voltages of the previous measurement for gates without a voltage",
    [(SSG, "            if volt_limits_list[i] is None:\n                volt_limits_list[i] = np.array([0, 0])",
           "            if volt_limits_list[i] is None:\n                volt_limits_list[i] = (np.array([0, 0]) if i < 2 or not hasattr(self, '_volt_limits_sensor_g1') else\n                                       np.array([1, 1]) * [self._volt_limits_sensor_g1, self._volt_limits_sensor_g2][i - 2][0])")],
'''sim = Simulation(ideal_csd_config=structure(), sensor=scan_sensor())
r = (np.array([-0.2, -0.1]), np.array([-0.2, -0.1]))
a = sim.measure(*r, resolution=6)[0]
sim.measure_sensor_scan(np.array([0.3, 0.5]), np.array([0.2, 0.5]), None, None, 4)
b = sim.measure(*r, resolution=6)[0]
done(near(a, b), "same measurement before and after a sensor scan")
''')

bug("c10-peak-left-moved", "C10", "a sensor scan with a deformed peak followed by any other measurement",
    "the deformed peak keeps its moved centre after the last pixel",
    [(SSG, "                    resp_sum += p.sensor_function(mu_sens)\n                    p.mu0 = old_mu0\n                else:", "                    resp_sum += p.sensor_function(mu_sens)\n                    if idx + 1 < len(self.__sensor_peak_function):\n                        p.mu0 = old_mu0\n                else:")],
'''sim = Simulation(sensor=scan_sensor(sensor_peak_deformations={1: SensorPeakDeformationCircle(0.5)}))
sim.measure_sensor_scan(np.array([0.0, 0.5]), np.array([0.0, 0.6]), None, None, 7)
done(sim.sensor.sensor_peak_function[1].mu0 == 0.5, "peak centre after a scan: %s" % sim.sensor.sensor_peak_function[1].mu0)
''')

bug("c11-frozen-chain-rebinds", "C11", "two occupation distortions, the second of which asks for data outside of the window",
    "data generated for later distortions contains the distortion twice",
    [(SIM, "                    occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)\n                    noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,\n                                   freeze=True)",
           "                    occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)\n                    i.noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,\n                                     freeze=True)")],
'''log = []
class T(OccupationDistortionInterface):
    def __init__(self, name): self.name = name
    def __deepcopy__(self, memo): return self
    def __repr__(self): return self.name
    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        log.append((self.name, freeze))
        if not freeze and self.name == "c":
            generate_csd(volt_limits_g1=np.array([-0.21, -0.2]), volt_limits_g2=volt_limits_g2, resolution=np.array([3, 4]))
        return occupations, lead_transitions
sim = Simulation(ideal_csd_config=structure(), sensor=sensor(), occupation_distortions=[T("a"), T("b"), T("c")])
sim.measure(np.array([-0.2, -0.1]), np.array([-0.2, -0.1]), resolution=np.array([4, 4]))
done(log == [("a", False), ("b", False), ("c", False), ("a", True), ("b", True)], "distortions applied: %s" % log)
''')

bug("c11-potential-distortion-first-only", "C11", "a scan-capable sensor with potential distortions in a 1D sensor scan",
    "1D sensor scans distort only the sensor dot potential",
    [(SIM, "                            mu_sens=potential[pot_num],\n                            volt_limits_g1=sweep_range_sensor_g1,", "                            mu_sens=potential[pot_num if potential.ndim == 3 else -1 - pot_num],\n                            volt_limits_g1=sweep_range_sensor_g1,")],
'''class T(SensorPotentialDistortionInterface):
    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2): return mu_sens * 1.0
    def __repr__(self): return "T"
r = (np.array([0.0, 0.5]), np.array([0.0, 0.5]))
a = Simulation(sensor=scan_sensor()).measure_sensor_scan(*r, None, None, 6)[0]
b = Simulation(sensor=scan_sensor(), sensor_potential_distortions=[T()]).measure_sensor_scan(*r, None, None, 6)[0]
done(near(a, b), "a neutral potential distortion changes nothing")
''')

bug("c12-activation-remembered", "C12", "an inactive dot jump in a 2D measurement that follows an active one, with a later distortion that asks for data",
    "dot jumps that are inactive in this measurement appear in data generated for later distortions",
    [(DJ, "        if freeze and not self.__activated:\n            return occupations, lead_transitions", "        if freeze and self.__previous_noise is None:\n            return occupations, lead_transitions")],
'''class R:
    def __init__(self): self.on = 1
    def binomial(self, n, p): return self.on
    def geometric(self, p, size): return np.array([2] * size)
    def poisson(self, lam): return 2
    def __deepcopy__(self, m): return self
r = R()
d = OccupationDotJumps(scale=0.02, lam=0.02, axis=1, ratio=0.5, rng=r)
o = np.random.default_rng(0).random((4, 8, 2))
d.noise_function(o.copy(), np.zeros((4, 8)), np.array([0, 0.1]), np.array([0, 0.1]), None)
r.on = 0
d.noise_function(o.copy(), np.zeros((4, 8)), np.array([0, 0.1]), np.array([0, 0.1]), None)
p, _ = d.noise_function(o.copy(), np.zeros((4, 8)), np.array([0, 0.1]), np.array([0, 0.1]), None, freeze=True)
done(near(o, p), "frozen data of an inactive measurement is unchanged")
''')

bug("c13-labels-not-jumped-1d", "C13", "a 1D sweep with jumps along g2 and no out-of-window data",
    "the label mask of 1D sweeps follows a newly drawn jump pattern",
    [(DJ, "            if self.axis == 0:\n                lead_transitions_2d = dot_jumps_blockwise(\n                    lead_transitions_2d,\n                    scale,\n                    lam,\n                    np.concatenate((np.zeros(added_pixels, dtype=int), noise)),",
          "            if self.axis == 0:\n                lead_transitions_2d = dot_jumps_blockwise(\n                    lead_transitions_2d,\n                    scale,\n                    lam,\n                    np.concatenate((noise, np.zeros(added_pixels, dtype=int))),")],
'''class R:
    def binomial(self, n, p): return 1
    def geometric(self, p, size): return np.array([3] * size)
    def poisson(self, lam): return 2
    def __deepcopy__(self, m): return self
s = structure()
g = lambda volt_limits_g1, volt_limits_g2, resolution: s.get_csd_data(volt_limits_g1=volt_limits_g1, volt_limits_g2=volt_limits_g2, resolution=resolution)
a, b = np.array([-0.15, -0.15]), np.array([-0.19, -0.08])
o, t = g(a, b, 30)
u = t.astype(float).copy(); st = 0.11 / 29
d = OccupationDotJumps(scale=0.02, lam=0.01, axis=0, ratio=1, rng=R())
d.noise_function(o, u, a, b, g)
n = np.zeros(30, dtype=int)
for k in range(30): n[k] = 2 if (k // 3) % 2 else 0
_, low = g(a, b - 2 * st, 30)
exp = np.where(n > 0, low, t)
done(near(u, exp), "labels jump with the occupations")
''')

bug("c14-blur-grid-dependence", "C14", "a 1D sweep of both gates over different voltage ranges with a Fermi-Dirac blurring",
    "the blurring strength of diagonal sweeps adds up the densities of the two gates",
    [(BL, "                    sigma *= np.maximum(\n                        resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),\n                        resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),\n                    )\n                occupations[:, 0] = fermi_filter1d",
          "                    sigma *= resolution[0] / np.hypot(\n                        np.max(volt_limits_g1) - np.min(volt_limits_g1),\n                        resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),\n                    )\n                occupations[:, 0] = fermi_filter1d")],
'''from simcats.support_functions import fermi_filter1d
o = np.zeros((40, 2)); o[20:] = 1
d = OccupationTransitionBlurringFermiDirac(0.01)
p, _ = d.noise_function(o.copy(), np.zeros(40), np.array([0, 0.2]), np.array([0, 0.2]), None)
done(near(p[:, 0], fermi_filter1d(o[:, 0], sigma=0.01 * 40 / 0.2)), "blurring of a diagonal sweep")
''')


bug("c15-fermi-kernel-half", "C15", "Fermi-Dirac blurring with a sigma that is no multiple of the pixel size",
    "the kernel of the Fermi filter is cut to one side more than to the other",
    [(FER, "x=np.arange(-radius, radius + 1), x0=0", "x=np.arange(-radius, radius + 1), x0=0.5 - 0.5 * (round(sigma) == sigma or radius == round(4 * sigma) == int(4 * sigma))")],
'''o = np.zeros(41); o[20] = 1
for s in (0.9, 1.0, 1.3, 1.7, 2.2, 2.9):
    k = fermi_filter1d(o, sigma=s)
    if not near(k, k[::-1]):
        done(False, "kernel for sigma %s is not symmetric" % s)
done(True, "kernels are symmetric")
''')

bug("c15-blur-2d-second-dot", "C15", "2D scan with a Gaussian blurring where the data varies along g2",
    "the occupation of dot 2 is blurred along g2",
    [(BL, "                occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)", "                occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma, axis=-2 if occupations.shape[0] > 4 * occupations.shape[1] else -1)")],
'''o = np.zeros((50, 8, 2)); o[25:] = 1
d = OccupationTransitionBlurringGaussian(0.01)
p, _ = d.noise_function(o.copy(), np.zeros((50, 8)), np.array([0, 0.1]), np.array([0, 0.1]), None)
done(near(o, p), "a step along g2 is not blurred")
''')

bug("c16-burst-shared-rows", "C16", "telegraph noise on a 2D potential",
    "bursts run along the columns instead of in measurement order",
    [(RTN, "    noise = noise[0:size].reshape(original.shape)\n    return original + noise\n\n\ndef _random", "    noise = noise[0:size].reshape(original.shape, order=\"F\" if original.shape[0] == 1 or original.ndim > 1 and original.shape[1] < original.shape[0] else \"C\")\n    return original + noise\n\n\ndef _random")],
'''class R:
    def binomial(self, n, p): return 1
    def geometric(self, p, size): return np.array([3] * size)
    def normal(self, a, b): return a
from simcats.distortions import SensorPotentialRTN
d = SensorPotentialRTN(scale=0.1, std=0.0, height=1.0, ratio=1, rng=R())
o = d.noise_function(np.zeros((6, 2)), np.array([0, 1]), np.array([0, 1]))
done(near(o.ravel(), [0, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1]), "bursts in measurement order")
''')

bug("c16-two-bursts-in-a-row", "C16", "telegraph noise with a burst that lasts beyond the end of a row",
    "the state is only toggled after bursts longer than one pixel",
    [(RTN, "            noise = np.concatenate((noise, np.array([bi] * int(length[i])) * rng.normal(height, std)))\n            bi = 1 if bi == 0 else 0\n        if len(noise) >= size:\n            break\n\n    noise = noise[0:size].reshape(original.shape)\n    return original + noise\n\n\ndef _random",
           "            noise = np.concatenate((noise, np.array([bi] * int(length[i])) * rng.normal(height, std)))\n            bi = 1 if bi == 0 and length[i] < size - 1 else 0\n        if len(noise) >= size:\n            break\n\n    noise = noise[0:size].reshape(original.shape)\n    return original + noise\n\n\ndef _random")],
'''class R:
    def geometric(self, p, size): return np.array([size - 1, 1] * size)
    def normal(self, a, b): return a
from simcats.distortions._random_telegraph_noise import random_telegraph_noise
o = random_telegraph_noise(np.zeros(6), 5, 0.0, 1.0, R())
done(near(o, [0, 0, 0, 0, 0, 1]), "burst after a long calm region: %s" % o)
''')

bug("c17-latest-sigma-stale", "C17", "white noise with a sampler, measured more than once",
    "latest_sigma reports the last sample of the sampler before the current measurement",
    [(WN, "        self.__latest_sigma = sampled\n", "        self.__latest_sigma = sampled if self.__latest_sigma is None else self.__latest_sigma\n")],
'''class S(ParameterSamplingInterface):
    n = 0
    def sample_parameter(self): self.n += 1; return float(self.n)
    def last_sample(self): return float(self.n)
d = SensorResponseWhiteNoise(sigma=S())
for k in (1.0, 2.0, 3.0):
    d.noise_function(np.zeros(3), np.array([0, 1]), np.array([0, 1]))
done(d.latest_sigma == 3.0, "latest sigma %s" % d.latest_sigma)
''')

bug("c17-white-noise-inplace", "C17", "white noise on an array the caller still uses",
    "white noise is added in place",
    [(WN, "    return original + rng.normal(0, sigma, size=original.shape)", "    original += rng.normal(0, sigma, size=original.shape)\n    return original")],
'''o = np.zeros((3, 3))
d = SensorResponseWhiteNoise(sigma=1.0, rng=np.random.default_rng(0))
d.noise_function(o, np.array([0, 1]), np.array([0, 1]))
done(not o.any(), "the response handed in is unchanged")
''')

bug("c18-reject-upper-only-once", "C18", "a normal sampler whose redraws leave the range on the other side",
    "redraws are only checked against the violated side",
    [(PS, "        sampled = self.__rng.normal(loc=self.__mean, scale=self.__std)\n        # repeat sampling until the sampled value is in self.__range\n        while sampled < self.__range[0] or sampled > self.__range[1]:\n            sampled = self.__rng.normal(loc=self.__mean, scale=self.__std)",
          "        sampled = self.__rng.normal(loc=self.__mean, scale=self.__std)\n        # repeat sampling until the sampled value is in self.__range\n        while sampled < self.__range[0]:\n            sampled = self.__rng.normal(loc=self.__mean, scale=self.__std)\n        while sampled > self.__range[1]:\n            sampled = self.__rng.normal(loc=self.__mean, scale=self.__std)")],
'''class R:
    def __init__(self, v): self.v = list(v)
    def normal(self, loc, scale): return self.v.pop(0)
s = NormalSamplingRange((0.0, 1.0), std=1.0, rng=R([2.0, -3.0, 0.5]))
v = s.sample_parameter()
done(v == 0.5 == s.last_sample(), "sample %s" % v)
''')

bug("c18-exponential-descending", "C18", "an exponential sampler with a descending total range that is narrowed",
    "a narrowed descending range is turned around",
    [(PS, "                    self.__range = (sampled + 0.5 * sampling_range, sampled - 0.5 * sampling_range)", "                    self.__range = (sampled - 0.5 * sampling_range, sampled + 0.5 * sampling_range)")],
'''class R:
    def uniform(self, a, b): return 0.5 * (a + b)
    def exponential(self, scale): return 0.0
s = ExponentialSamplingRange((1.0, 0.0), scale=0.2, sampling_range=0.4, rng=R())
v = s.sample_parameter()
done(abs(v - 0.7) < 1e-12, "most probable value is the start of the range: %s" % v)
''')

bug("c19-global-rng", "C19", "two simulations whose dot jumps have their own seeded generators",
    "jump widths are drawn from the module level generator",
    [(DJ, "            noise = generate_dot_jumps_blockwise(occupation[:, :, 0].shape, scale, lam, axis=self.axis, rng=self.rng)\n            self.__previous_noise = noise\n        max_jump = np.max(noise)\n        if generate_csd is not None and max_jump > 0:\n            added_pixels = max_jump\n            if self.axis == 1:  # jumps in x direction",
          "            noise = generate_dot_jumps_blockwise(occupation[:, :, 0].shape, scale, lam, axis=self.axis)\n            self.__previous_noise = noise\n        max_jump = np.max(noise)\n        if generate_csd is not None and max_jump > 0:\n            added_pixels = max_jump\n            if self.axis == 1:  # jumps in x direction")],
'''def run():
    d = OccupationDotJumps(scale=0.01, lam=0.02, axis=1, ratio=1, rng=np.random.default_rng(5))
    sim = Simulation(ideal_csd_config=structure(), sensor=sensor(), occupation_distortions=[d])
    return sim.measure(np.array([-0.2, -0.1]), np.array([-0.2, -0.1]), resolution=np.array([30, 20]))[0]
done(all(near(run(), run()) for _ in range(4)), "same seed gives the same measurement")
''')

bug("c20-offset-per-peak", "C20", "a sensor with several peaks of which one has an offset",
    "the offsets of all but the first Lorentzian peak are averaged",
    [(SG, "            return np.sum([p.sensor_function(mu_sens) for p in self.__sensor_peak_function], axis=0)",
          "            return np.sum([p.sensor_function(mu_sens) for p in sorted(set(self.__sensor_peak_function), key=lambda p: p.mu0)], axis=0)")],
'''p = SensorPeakGaussian(mu0=0, sigma=1, height=1)
s = sensor()
s.sensor_peak_function = [p, p]
v = s.sensor_response(np.array([0.0, 1.0]))
done(near(v, [2.0, 2 * np.exp(-1)]), "two equal peaks give twice the signal: %s" % v)
''')

bug("c20-potential-1d-reversed", "C20", "a 1D sweep in which the two gates are swept in opposite directions",
    "the potential of 1D sweeps uses sorted g2 voltages",
    [(SG, "            voltages_g2 = np.linspace(volt_limits_g2[0], volt_limits_g2[1], num=occupations.shape[0])\n            voltages = [[voltages_g1[i], voltages_g2[i]]", "            voltages_g2 = np.linspace(volt_limits_g2[0], volt_limits_g2[1], num=occupations.shape[0])\n            voltages_g2 = voltages_g2 if volt_limits_g1[0] <= volt_limits_g1[1] else np.sort(voltages_g2)[::-1]\n            voltages = [[voltages_g1[i], voltages_g2[i]]")],
'''s = sensor()
v = s.sensor_potential(np.zeros((3, 2)), np.array([1.0, 0.0]), np.array([0.0, 2.0]))
done(near(v, [1.0, 1.65, 2.3]), "potential of an anti-parallel sweep: %s" % v)
''')

bug("c21-series-zero", "C21", "a pixel where one of the three conductances is zero",
    "a closed barrier lets the current of the other parts pass",
    [(SSG, "            return np.divide(numerator, denominator, out=np.zeros_like(numerator), where=denominator != 0)", "            return np.divide(numerator, denominator, out=np.array(sens_resp), where=denominator != 0)")],
'''s = scan_sensor(barrier_functions=(BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0, asymptote_right=1, growth_rate=9000, asymmetry=1, shape_factor=1, offset=1),) * 2)
s.sensor_potential(np.zeros((2, 2)), None, None, np.array([0.0, 0.1]), np.array([0.0, 0.1]))
v = s.sensor_response(np.array([[0.2, 0.2], [-5.0, -5.0], [-5.0, -5.0]]))
done(near(v, [0, 0]), "closed barriers carry no current: %s" % v)
''')


bug("c22-label-order", "C22", "peaks that are not sorted by mu0 and lie within one pixel of each other",
    "labels of peaks use the rank instead of the id in 1D scans",
    [(SSG, "                else:\n                    coulomb_peak_mask[min_index] = peak_id + 1", "                else:\n                    coulomb_peak_mask[min_index] = idx + 1")],
'''s = scan_sensor(sensor_peak_function=[SensorPeakGaussian(mu0=0.6, sigma=0.05, height=1), SensorPeakGaussian(mu0=0.35, sigma=0.05, height=1)], offset_mu_sens=np.array([0.0, 0.02, -0.03]))
sim = Simulation(sensor=s)
r = (np.array([0.2, 0.7]), np.array([0.2, 0.7]))
m1 = sim.measure_sensor_scan(*r, None, None, 101)[2]
m2 = sim.measure_sensor_scan(*r, None, None, np.array([101, 101]))[2]
mu = np.linspace(0.22, 0.77, 101)
ok = all(abs(mu[i] - {1: 0.6, 2: 0.35}[m1[i]]) < 0.01 for i in np.where(m1)[0])
done(ok and m1.any(), "labels are the ids of the peaks: %s" % m1[m1 > 0])
''')

bug("c22-conductive-region-swap", "C22", "barriers with different pinch-off points",
    "the pinch-off point of barrier 1 decides for both barriers",
    [(SSG, "                barrier2_pot > self.barrier_functions[1].pinch_off))] = 1", "                barrier2_pot > min(self.barrier_functions[0].pinch_off, self.barrier_functions[1].pinch_off)))] = 1")],
'''s = scan_sensor()
sim = Simulation(sensor=s)
a, b = np.array([-0.3, 0.6]), np.array([-0.3, 0.6])
m = sim.measure_sensor_scan(a, b, None, None, np.array([31, 31]))[1]
g1, g2 = np.meshgrid(np.linspace(*a, 31), np.linspace(*b, 31))
b1 = 0.9 * g1 + 0.2 * g2 + 0.02 > s.barrier_functions[0].pinch_off
b2 = 0.1 * g1 + 0.8 * g2 - 0.03 > s.barrier_functions[1].pinch_off
done(np.array_equal(m > 0, b1 & b2), "non-conductive area ends at the pinch-off points")
''')

bug("c23-inverse-offset", "C23", "a barrier function with offset and a growth rate other than one",
    "the inverse shifts by the offset before scaling for asymmetric functions",
    [(GLF, "    return (growth_rate * offset - np.log((((asymptote_left - asymptote_right) / (", "    return (growth_rate * offset - (1 if asymmetry < 1.5 else asymmetry / 1.5) * np.log((((asymptote_left - asymptote_right) / (")],
'''f = BarrierFunctionGLF(pinch_off_percentage=0.05, fully_conductive_percentage=0.9, asymptote_left=0, asymptote_right=2, growth_rate=3, asymmetry=2, shape_factor=1, offset=0.4)
done(near([f.get_value(f.pinch_off), f.get_value(f.fully_conductive)], [0.1, 1.8]), "values at the thresholds")
''')

bug("c24-circle-side", "C24", "a circular deformation and pixels below the middle line",
    "only pixels above the middle line are bent",
    [(CIR, "        dist = np.abs(dist)\n", "        dist = np.maximum(dist, 0) + np.abs(np.minimum(dist, 0)) * (self.__radius > 0)\n")],
'''d = SensorPeakDeformationCircle(-0.5)
s = scan_sensor(sensor_peak_deformations={0: d})
d = s.sensor_peak_deformations[0]
a = d.calc_mu(np.array([-0.1, 0.1]), 0.2)
done(near(a[0], a[1]) and a[0] != 0.2, "deformation is symmetric: %s" % a)
''')


bug("c26-tangent-vertical", "C26", "a vertical line given as negative number that misses the circle's centre",
    "vertical lines are mirrored for the circle intersection",
    [(LA, "        C = center_y ** 2 + (c - center_x) ** 2 - radius ** 2", "        C = center_y ** 2 + (abs(c) - center_x) ** 2 - radius ** 2")],
'''r = line_circle_intersection(-1.0, (-1.0, 2.0), 3.0)
done(sorted(r) == [(-1.0, -1.0), (-1.0, 5.0)], "intersections %s" % r)
''')

bug("c26-swapped-vertical", "C26", "intersection with the vertical line as the first line and a numpy array as the second",
    "the intersection with a vertical first line uses the wrong sign of the offset for negative positions",
    [(LA, "        return np.array([line1, m2 * line1 + b2])", "        return np.array([line1, m2 * abs(line1) + b2])")],
'''r = line_line_intersection(-2.0, np.array([3.0, 1.0]))
done(near(r, [-2.0, -5.0]), "intersection %s" % r)
''')

bug("c27-sort-only-g1", "C27", "a 2D plot with g2 swept from high to low",
    "the tick labels of g2 are sorted but the image is not flipped when both gates are reversed",
    [(PL, "            csd = csd[::-1, :]\n", "            csd = csd[::-1, :] if volt_limits_g1[0] < volt_limits_g1[1] else csd\n")],
'''import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
c = np.arange(6.0).reshape(2, 3)
plot_csd(c, np.array([0.3, 0.1]), np.array([0.2, 0.1]))
im = np.asarray([a for a in plt.gcf().axes if a.images][0].images[0].get_array())
done(near(im, c[::-1, ::-1]), "image of a doubly reversed scan")
''')

bug("c28-reset-last-pixel", "C28", "a reset for a sweep from high to low",
    "the reset uses the lowest voltages instead of the start of the sweep",
    [(RST, "target_mu_sens - (potentials[0] - dqd_sim.sensor.offset_mu_sens)", "target_mu_sens - (potentials[0 if sweep_range_g1[0] <= sweep_range_g1[1] else -1] - dqd_sim.sensor.offset_mu_sens)")],
'''from simcats.support_functions import reset_offset_mu_sens
sim = Simulation(ideal_csd_config=structure(), sensor=sensor())
r = (np.array([-0.1, -0.2]), np.array([-0.2, -0.1]))
reset_offset_mu_sens(sim, 0.5, *r)
o, _ = sim.ideal_csd_config.get_csd_data(volt_limits_g1=r[0], volt_limits_g2=r[1], resolution=5)
done(abs(sim.sensor.sensor_potential(o, *r)[0] - 0.5) < 1e-9, "potential at the start of the sweep")
''')
