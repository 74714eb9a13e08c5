import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
PRE = _b["PRE"]
for _k, _v in _b.items():
    if _k.isupper() and isinstance(_v, str) and _k != "PRE": globals()[_k] = _v
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, count=1):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=PRE + demo, count=count))
SPRE = '''import warnings; warnings.simplefilter("ignore")
from simcats.config_samplers import sample_random_variations_v3_config as sample
'''

bug("c25-second-barrier-quality", "C25", "a scan-capable sensor with a quality multiplier below one", "the second barrier is not reduced by the quality multiplier",
    [(SAMP, "                offset=barrier_2_start,\n                height=barrier_height,\n                quality_multiplier=quality_multiplier\n",
      "                offset=barrier_2_start,\n                height=barrier_height\n")],
SPRE + '''c = sample(sensor_type="SensorScanSensorGeneric", quality_multiplier=0.5)
h = [b.asymptote_right for b in c["sensor"].barrier_functions]
done(near(h, [0.125, 0.125]), "heights of the barriers: %s" % h)
''')

bug("c25-default-structure-reused", "C25", "the default configuration is used after a random one has been sampled", "the sampled curves replace those of the default configuration",
    [(SAMP, 'ideal_csd_geometric = deepcopy(default_configs["GaAs_v1"]["ideal_csd_config"])', 'ideal_csd_geometric = default_configs["GaAs_v1"]["ideal_csd_config"]')],
SPRE + '''from simcats import default_configs
a = [p.copy() for p in default_configs["GaAs_v1"]["ideal_csd_config"].tct_params]
c, d = sample(), sample()
b = default_configs["GaAs_v1"]["ideal_csd_config"].tct_params
done(len(a) == len(b) and all(near(x, y) for x, y in zip(a, b)) and c["ideal_csd_config"] is not d["ideal_csd_config"], "the default configuration is unchanged")
''')

bug("c25-steepest-falling", "C25", "the steepest falling flank is steeper than the steepest rising one", "the steepest point may lie on a falling flank",
    [(SAMP, "np.argmax(sample_sens_response_grad)", "np.argmax(np.abs(sample_sens_response_grad))")],
SPRE + '''ok = True
for _ in range(12):
    s = sample(set_sensor_potential_offset_to_steepest_point=True)["sensor"]
    x = s.offset_mu_sens + np.array([-1e-7, 1e-7])
    ok &= bool(np.diff(s.sensor_response(x))[0] > 0)
done(ok, "response rises at the chosen point")
''')

bug("c25-offset-drift", "C25", "several peaks whose offsets all drift in the same direction", "the offset of a peak is limited relative to the previous peak instead of the first one",
    [(SAMP, "sensor_peak_offset = rng.uniform(low=sensor_peak_functions[0].offset * 1.2,\n                                             high=sensor_peak_functions[0].offset * 0.8)",
      "sensor_peak_offset = rng.uniform(low=sensor_peak_functions[-1].offset * 1.2,\n                                             high=sensor_peak_functions[-1].offset * 0.8)")],
SPRE + '''ok = True
from simcats.config_samplers._GaAs_v1_random_variations_v3_config_sampler import sample_SensorGeneric
for _ in range(400):
    p = sample_SensorGeneric().sensor_peak_function
    ok &= all(0.8 - 1e-9 <= x.offset / p[0].offset <= 1.2 + 1e-9 for x in p)
done(ok, "offsets differ by at most 20 % from the first peak")
''')

bug("c25-alpha-dot-2-below-range", "C25", "a strongly coupled first dot", "the second dot may couple stronger than its preset range",
    [(SAMP, "    temp_sensor_alpha_dot_2_min = np.max([2 * sensor_alpha_dot_1, sensor_alpha_dot_2_min])\n", "    temp_sensor_alpha_dot_2_min = 2 * sensor_alpha_dot_1\n")],
SPRE + '''from simcats.config_samplers._GaAs_v1_random_variations_v3_config_sampler import sample_SensorGeneric
v = min(sample_SensorGeneric().alpha_dot[1] for _ in range(300))
done(v >= -0.0005214 - 1e-12, "lever-arm of dot 2: %s" % v)
''')

bug("c25-spacing-gives-up", "C25", "peaks that block the remaining range, so that 1000 attempts fail", "after 1000 attempts peaks may be almost on top of each other",
    [(SAMP, "                    sensor_mu_0_max - sensor_mu_0_min) / (num_sensor_peak * 2):", "                    sensor_mu_0_max - sensor_mu_0_min) / (num_sensor_peak * 8):")],
SPRE + '''import numpy.random as R
from simcats.config_samplers._GaAs_v1_random_variations_v3_config_sampler import sample_SensorGeneric
class G(np.random.Generator):
    n = 0
    def __init__(self): super().__init__(np.random.PCG64(1))
    def uniform(self, low=0.0, high=1.0, size=None):
        G.n += 1
        return low + (high - low) * ((0.1 + G.n * 4e-5) % 1)
    def choice(self, a, *k, **kw): return a[-1]
o = R.default_rng
np.random.default_rng = lambda *a: G() if not a else o(*a)
ok = True
for _ in range(3):
    s = sample_SensorGeneric()
    mu = sorted(p.mu0 for p in s.sensor_peak_function)
    pot = [(s.alpha_gate * -0.2).sum(), (s.alpha_gate * -0.06).sum() + (s.alpha_dot * 5).sum()]
    ok &= bool(np.diff(mu).min() >= (max(pot) - min(pot)) / (2 * len(mu)) * (1 - 1e-9))
done(ok, "distance of neighbouring peaks")
''')

bug("c25-rise-from-peak-height", "C25", "overlapping peaks", "the final rise ends at 105 % of the highest single peak instead of the largest response",
    [(SAMP, "    maximum = np.max(sensor_resp)\n", "    maximum = np.max([func.height + func.offset for func in sensor_func])\n")],
SPRE + '''s = sample(sensor_type="SensorScanSensorGeneric")["sensor"]
x = np.linspace(-1, 1, 200001)
m = sum(p.sensor_function(x) for p in s.sensor_peak_function).max()
done(abs(s.final_rise.asymptote_right / m - 1.05) < 1e-3, "final rise relative to the largest response: %s" % (s.final_rise.asymptote_right / m))
''')

bug("c25-interdot-ratio-or", "C25", "a short, wide interdot transition", "only one end of the range of length over width is enforced",
    [(SAMP, "            rel_interdot_length_width_min <= interdot_length / bezier_width\n            and interdot_length / bezier_width <= rel_interdot_length_width_max\n",
      "            interdot_length / bezier_width <= rel_interdot_length_width_max\n")],
SPRE + '''from simcats.config_samplers._GaAs_v1_random_variations_v3_config_sampler import sample_IdealCSDGeometric
ok = True
for _ in range(60):
    p = sample_IdealCSDGeometric().tct_params
    w = np.hypot(p[0][6] - p[0][4], p[0][7] - p[0][5])
    d = p[1][4:6] - p[0][4:6] + np.array([p[0][1], p[0][1] * p[0][3]])
    ok &= bool(0.86 <= np.hypot(*d) / w <= 9.06)
done(ok, "length relative to width of the interdot transition")
''')

bug("c25-noise-range-scaled-once", "C25", "configurations of low quality multiplier", "the white noise of a configuration ignores the quality multiplier if it is small",
    [(SAMP, "            _sample_sensor_response_white_noise(quality_multiplier=quality_multiplier)]", "            _sample_sensor_response_white_noise(quality_multiplier=max(quality_multiplier, 0.5))]")],
SPRE + '''c = sample(quality_multiplier=0.01)
v = [c["sensor_response_distortions"][1].sigma.sample_parameter() for _ in range(200)]
done(np.median(v) < 1e-5, "typical strength of the white noise: %s" % np.median(v))
''')

bug("c16-long-stretch-overflow", "C16", "a stretch longer than 32767 pixels", "stretch lengths are kept in a 16 bit integer and wrap around",
    [("simcats/distortions/_random_telegraph_noise.py", "    # length of a burst follows an geometric distribution\n    length = rng.geometric(p=1 / scale, size=size)\n", "    # length of a burst follows an geometric distribution\n    length = rng.geometric(p=1 / scale, size=size).astype(np.int16)\n")],
'''from simcats.distortions._random_telegraph_noise import random_telegraph_noise
class G(np.random.Generator):
    def __init__(self): super().__init__(np.random.PCG64(1))
    def geometric(self, p, size=None): return 40000 if size is None else np.full(size, 40000)
    def normal(self, loc=0.0, scale=1.0, size=None): return 1.0 if size is None else np.full(size, 1.0)
done(near(random_telegraph_noise(np.zeros(6), 10.0, 0.0, 1.0, G()), np.zeros(6)), "a first stretch longer than the image leaves it unchanged")
''')
