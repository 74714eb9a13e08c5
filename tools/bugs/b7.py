import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b6.py"))
for _k, _v in _b.items():
    if _k.isupper() and isinstance(_v, str): globals()[_k] = _v
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, count=1):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=PRE + demo, count=count))


bug("c03-coarse-step-1d", "C03", "a 1D sweep so coarse that two electrons are added from one pixel to the next", "a step over several transitions is labelled with the first of them",
    [(MASK, "            csd_result[_id + 1] = csd_total_occ[_id + 1]", "            csd_result[_id + 1] = csd_total_occ[_id] + 1")],
'''s = Simulation(ideal_csd_config=structure(), sensor=sensor())
_, o, l, _ = s.measure(np.array([-0.2, -0.09]), np.array([-0.2, -0.09]), resolution=4)
n = np.rint(o.sum(1)).astype(int)
done(all(l[i + 1] == n[i + 1] for i in range(3) if n[i + 1] > n[i]) and (np.diff(n) > 1).any(), "labels of a coarse sweep: charge %s, labels %s" % (n, l))
''')

bug("c04-many-electrons", "C04", "regions with at least eight electrons", "a region holds at most seven electrons",
    [(OCC, "        for i in range(0, bezier_coords[int(reg)].shape[0], 2):", "        for i in range(0, min(bezier_coords[int(reg)].shape[0], 14), 2):")],
'''s = Simulation(ideal_csd_config=structure(), sensor=sensor())
ok = True
# a region crossed along its whole length: dot 1 goes from empty to full
n = 9
from simcats.ideal_csd.geometric import calculate_all_bezier_anchors
c = D1["ideal_csd_config"]
an = calculate_all_bezier_anchors(tct_params=c.tct_params, max_peaks=1, rotation=c.rotation)
x = an[n][2 * (n - 1), 1]; x0 = an[n + 1][2 * (n - 1) + 1, 1]
m = (x + x0) / 2; d = (an[n][0, 1] - an[n][2, 1]); d /= np.linalg.norm(d)
lo, hi = m - 0.01 * d, m + 0.01 * d
_, o, _, _ = s.measure(np.array([lo[0], hi[0]]), np.array([lo[1], hi[1]]), resolution=41)
t = o.sum(1)
done(t.max() > n - 1e-6 and np.abs(t - np.rint(t)).max() < 1e-9, "charge along region %d: %s" % (n, sorted(set(t))))
''')

bug("c26-small-tangent", "C26", "a circle with a very small radius", "two close intersections count as one",
    [(LA, """        elif discriminant == 0:
            # Single intersection
            x = -B / (2 * A)""", """        elif np.isclose(discriminant, 0):
            # Single intersection
            x = -B / (2 * A)""")],
'''r = line_circle_intersection((1.0, 0.0), (0.0, 0.0), 1e-5)
done(len(r) == 2, "intersections of a line through the centre of a small circle: %s" % r)
''')

bug("c15-kernel-limited", "C15", "a blurring width of many pixels", "the Fermi kernel has at most 101 pixels",
    [(FER, "        radius = round(4.0 * sigma)", "        radius = min(round(4.0 * sigma), 50)")],
'''x = np.zeros(401); x[200:] = 1
y = fermi_filter1d(x, 30.0)
w = 0.5 * (1 + np.tanh((np.arange(401) - 199.5) / 30.0))
done(np.abs(y - w).max() < 2e-3, "step blurred over 30 pixels: deviation %s" % np.abs(y - w).max())
''')

bug("c20-many-peaks", "C20", "a sensor with more than eight peaks", "the response has at most eight peaks",
    [(SG, "            return np.sum([p.sensor_function(mu_sens) for p in self.__sensor_peak_function], axis=0)",
      "            return np.sum([p.sensor_function(mu_sens) for p in self.__sensor_peak_function[:8]], axis=0)")],
'''pk = [SensorPeakGaussian(mu0=0.1 * i, sigma=0.02, height=1) for i in range(10)]
s = SensorGeneric(sensor_peak_function=pk)
x = np.linspace(-0.2, 1.2, 200)
done(near(s.sensor_response(x), sum(np.exp(-((x - 0.1 * i) / 0.02) ** 2) for i in range(10))), "response with ten peaks")
''')

bug("c23-three-risers", "C23", "a barrier made of three or more logistic functions", "at most two logistic functions are summed",
    [(GLF, "for i in range(0, len(params), 7)])", "for i in range(0, min(len(params), 14), 7)])")],
'''p = [0, 1, 20, 1, 1, 1, 0.1]
b = BarrierFunctionMultiGLF(0.0, 1.0, *(p * 3))
x = np.linspace(-1, 1, 50)
done(near(b.get_value(x), 3 * glf(x, *p)), "sum of three equal logistic functions")
''')

bug("c09-scan-metadata-voltages", "C09", "a sensor scan with a numpy voltage array changed later", "the metadata of a sensor scan refers to the sweep range of the request",
    [(SIM, '            "sweep_range_sensor_g1": deepcopy(sweep_range_sensor_g1),', '            "sweep_range_sensor_g1": sweep_range_sensor_g1,')],
'''s = Simulation(ideal_csd_config=structure(), sensor=scan_sensor())
a = np.array([-0.5, 0.6])
m = s.measure_sensor_scan(a, np.array([-0.5, 0.6]), -0.2, -0.2, 5)[3]
a[0] = 3
done(near(m["sweep_range_sensor_g1"], [-0.5, 0.6]), "range in the metadata: %s" % m["sweep_range_sensor_g1"])
''')
