"""Developer tool: behaviour-preserving rewrites of the code under test, on which every check has to stay quiet.

  refactorings.py [-t] [-g GROUP] [-c C01,C02]   apply the groups to scratch copies, run (-t: the stable tests and) the checks
"""
import ast, os, shutil, sys, textwrap
sys.path.insert(0, os.path.dirname(__file__))
R = []      # (group, file, qualified name or None for a text edit, new source / (old, new))


def fn(group, file, name, src):
    R.append((group, file, name, textwrap.dedent(src).strip("\n")))


def ed(group, file, old, new, count=1):
    R.append((group, file, None, (old, new, count)))


def replace(text, name, src):
    t = ast.parse(text)
    node, parts = t, name.split(".")
    for i, p in enumerate(parts):
        node = next(n for n in node.body if getattr(n, "name", None) == p)
    lines = text.splitlines()
    ind = " " * node.col_offset
    start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    return "\n".join(lines[:start] + [ind + l if l else l for l in src.splitlines()] + lines[node.end_lineno:]) + "\n"


D, I, S, U = "simcats/distortions/", "simcats/ideal_csd/geometric/", "simcats/sensor/", "simcats/support_functions/"

# --------------------------------------------------------------------------------------------------- group a
fn("a", S + "_sensor_generic.py", "SensorGeneric.sensor_potential", '''
def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
    shape = occupations.shape[:-1]
    x = np.linspace(volt_limits_g1[0], volt_limits_g1[1], num=shape[-1])
    y = np.linspace(volt_limits_g2[0], volt_limits_g2[1], num=shape[0])
    if len(shape) == 2:
        x, y = np.meshgrid(x, y)
    volts = np.stack((x, y), axis=-1)
    gates = volts @ self.__alpha_gate
    dots = occupations @ self.__alpha_dot
    return self.__offset_mu_sens + gates + dots
''')
fn("a", D + "_random_telegraph_noise.py", "random_telegraph_noise", '''
def random_telegraph_noise(original, scale, std, height, rng=np.random.default_rng()):
    if scale == 0:
        return original
    size = int(np.prod(original.shape))
    lengths = rng.geometric(p=1 / scale, size=size)
    values = np.zeros(size)
    pos, burst = 0, False
    for length in lengths:
        h = rng.normal(height, std)
        if burst:
            values[pos:pos + int(length)] = h
        pos += int(length)
        burst = not burst
        if pos >= size:
            break
    return original + values.reshape(original.shape)
''')
fn("a", D + "_random_telegraph_noise.py", "RandomTelegraphNoise.noise_function", '''
def noise_function(self, original, volt_limits_g1, volt_limits_g2):
    self.__activated = bool(self.rng.binomial(1, self.ratio))
    if not self.__activated:
        return original
    scale = self._sample(self.scale)
    dx, dy = (np.max(v) - np.min(v) for v in (volt_limits_g1, volt_limits_g2))
    if original.ndim == 2:
        rows, cols = original.shape
        densities = [n / d for n, d in ((cols, dx), (rows, dy)) if d != 0]
        scale = scale * max(densities)
    elif max(dx, dy) == 0:
        return original
    else:
        scale = scale * (original.shape[0] / max(dx, dy))
    if 0 < scale < 1:
        warnings.warn("The scale is smaller than one pixel and is set to 1.")
        scale = 1
    std = self._sample(self.std)
    height = self._sample(self.height)
    return random_telegraph_noise(original, scale, std, height, self.rng)

@staticmethod
def _sample(p):
    return p.sample_parameter() if hasattr(p, "sample_parameter") else p
''')
for cls, f in (("OccupationTransitionBlurringFermiDirac", "fermi_filter1d"), ("OccupationTransitionBlurringGaussian", "gaussian_filter1d")):
    fn("a", D + "_transition_blurring.py", cls + ".noise_function", f'''
def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
    if not freeze:
        self.__latest_sigma = self.sigma.sample_parameter() if hasattr(self.sigma, "sample_parameter") else self.sigma
    sigma = self.__latest_sigma
    if sigma <= 0:
        return occupations, lead_transitions
    d1 = np.abs(volt_limits_g1[1] - volt_limits_g1[0])
    d2 = np.abs(volt_limits_g2[1] - volt_limits_g2[0])
    two = occupations.ndim == 3
    n = occupations.shape[1] if two else occupations.shape[0]
    if two:
        width = d1
    else:
        swept = [d for d in (d1, d2) if d > 0]
        if not swept:
            return occupations, lead_transitions
        width = min(swept)
    occupations[...] = {f}(occupations, sigma=sigma * n / width, axis=-2)
    return occupations, lead_transitions
''')
fn("a", D + "_dot_jumps.py", "dot_jumps_blockwise", '''
def dot_jumps_blockwise(original, scale, lam, noise=None, axis=1, rng=np.random.default_rng()):
    if scale == 0:
        return original, np.zeros(original.shape[axis])
    if noise is None:
        noise = generate_dot_jumps_blockwise(original.shape, scale, lam, axis, rng)
    if axis not in (0, 1):
        raise NotImplementedError("Dot jumps are only supported for 2d array. Axis should be 0 or 1.")
    src = original if axis == 1 else original.T
    shifted = np.empty(src.shape)
    cols = src.shape[1]
    for j in range(cols):
        n = int(noise[j])
        for target in range(j, min(j + n + 1, cols)):
            value = src[:, max(0, target - n)]
            shifted[:, target] = np.where(np.isnan(value), src[:, target], value)
    return (shifted if axis == 1 else shifted.T), noise
''')
fn("a", D + "_dot_jumps.py", "generate_dot_jumps_blockwise", '''
def generate_dot_jumps_blockwise(shape, scale, lam, axis=1, rng=np.random.default_rng()):
    if scale == 0:
        return np.zeros(shape[axis])
    size = shape[axis]
    out = np.zeros(size, dtype=int)
    pos = 0
    for i, width in enumerate(rng.geometric(p=1 / scale, size=size)):
        jump = rng.poisson(lam)
        out[pos:pos + int(width)] = jump * (i % 2)
        pos += int(width)
        if pos >= size:
            break
    return out
''')
fn("a", I + "_generate_lead_transition_mask.py", "generate_lead_transition_mask_1d", '''
def generate_lead_transition_mask_1d(csd_occ):
    total = csd_occ.sum(axis=1)
    mask = np.zeros(total.shape, dtype=np.uint8)
    for i in range(len(total) - 1):
        a, b = total[i], total[i + 1]
        if a == b:
            continue
        mask[i + 1 if b > a else i] = b if b > a else a
    return mask
''')
ed("a", I + "_generate_lead_transition_mask.py", "x_id = np.floor_divide(wf_points_rot[:, 0] + 0.5 * x_step - x_lims[0], x_step).astype(int)",
   "x_id = np.floor((wf_points_rot[:, 0] - x_lims[0]) / x_step + 0.5).astype(int).clip(0, x_res - 1)")
ed("a", I + "_generate_lead_transition_mask.py", "y_id = np.floor_divide(wf_points_rot[:, 1] + 0.5 * y_step - y_lims[0], y_step).astype(int)",
   "y_id = np.floor((wf_points_rot[:, 1] - y_lims[0]) / y_step + 0.5).astype(int).clip(0, y_res - 1)")
fn("a", U + "_rotate_points.py", "rotate_points", '''
def rotate_points(points, angle=np.pi / 4):
    c, s = np.cos(angle), np.sin(angle)
    x, y = points[..., 0], points[..., 1]
    return np.stack((c * x - s * y, s * x + c * y), axis=-1)
''')
fn("a", U + "_signed_dist_points_line.py", "signed_dist_points_line", '''
def signed_dist_points_line(points, line_points):
    start = line_points[0, :]
    direction = line_points[1, :] - start
    delta = points - start
    length = np.sqrt(np.sum(direction ** 2))
    return (direction[..., 1] * delta[..., 0] - direction[..., 0] * delta[..., 1]) / length
''')
fn("a", U + "_pixel_volt_transformation.py", "pixel_to_volt_1d", '''
def pixel_to_volt_1d(pixel, pixel_num, volt_limits):
    fraction = pixel / pixel_num
    return (1 - fraction) * volt_limits[0] + fraction * volt_limits[1]
''')
fn("a", U + "_generalized_logistic_function.py", "glf", '''
def glf(potential, asymptote_left, asymptote_right, growth_rate, asymmetry, shape_factor, denominator_offset=1, offset=0):
    height = asymptote_right - asymptote_left
    decay = np.exp(-growth_rate * (potential - offset))
    base = denominator_offset + shape_factor * decay
    return asymptote_left + height * base ** (-1 / asymmetry)
''')
fn("a", U + "_generalized_logistic_function.py", "inverse_glf", '''
def inverse_glf(value, asymptote_left, asymptote_right, growth_rate, asymmetry, shape_factor, denominator_offset=1, offset=0):
    ratio = (asymptote_right - asymptote_left) / (value - asymptote_left)
    inner = (ratio ** asymmetry - denominator_offset) / shape_factor
    return offset - np.log(inner) / growth_rate
''')
fn("a", U + "_cumulative_distribution_functions.py", "multi_sigmoid_cdf", '''
def multi_sigmoid_cdf(x, params):
    assert len(params) % 2 == 0
    result = 0
    for x0, gam in zip(params[::2], params[1::2]):
        result = result + sigmoid_cdf(x, x0, gam)
    return result
''')
fn("a", U + "_fermi_filter1d.py", "fermi_dirac_derivative", '''
def fermi_dirac_derivative(x, x0, sigma):
    t = np.tanh((x - x0) / sigma)
    return 0.5 * (1 - t * t) / sigma
''')
fn("a", U + "_reset_offset_mu_sens.py", "reset_offset_mu_sens", '''
def reset_offset_mu_sens(dqd_sim, target_mu_sens, sweep_range_g1, sweep_range_g2):
    config, sensor = dqd_sim.ideal_csd_config, dqd_sim.sensor
    occ = config.get_csd_data(volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2, resolution=2)[0]
    start = sensor.sensor_potential(occ, sweep_range_g1, sweep_range_g2)[0]
    sensor.offset_mu_sens = sensor.offset_mu_sens + (target_mu_sens - start)
''')
fn("a", S + "_sensor_scan_sensor_generic.py", "SensorScanSensorGeneric._peak_func", '''
def _peak_func(self, mu_sens, volt_g1, volt_g2, volt_sensor_g1, volt_sensor_g2, middle_line_point):
    peaks = self.__sensor_peak_function
    if peaks is None:
        return mu_sens
    lever = np.array(self.alpha_sensor_gate[0], dtype=float)
    lever *= -1 if lever[0] < 0 else 1
    start = np.asarray(middle_line_point, dtype=float)
    line = np.stack((start, start + lever / np.linalg.norm(lever)))
    dist = signed_dist_points_line(points=np.array([[volt_sensor_g1, volt_sensor_g2]]), line_points=line)[0]
    total = 0
    for idx, peak in enumerate(peaks):
        moved = deepcopy(peak)
        deformation = self.sensor_peak_deformations.get(idx)
        if deformation is not None:
            moved.mu0 = deformation.calc_mu(dist=dist, mu0=peak.mu0)
        total = total + moved.sensor_function(mu_sens)
    return total
''')
ed("a", S + "_sensor_scan_sensor_generic.py", '''            numerator = sens_resp * barrier1_resp * barrier2_resp
            denominator = barrier1_resp * barrier2_resp + sens_resp * barrier1_resp + sens_resp * barrier2_resp
''', '''            barriers = barrier1_resp * barrier2_resp
            numerator = sens_resp * barriers
            denominator = barriers + sens_resp * (barrier1_resp + barrier2_resp)
''')
ed("a", S + "_sensor_scan_sensor_generic.py", '''            voltages = [
                [[voltages_g1[j], voltages_g2[i]] for j in range(len(voltages_g1))] for i in range(len(voltages_g2))
            ]
            voltages = np.array(voltages)
''', '''            voltages = np.stack(np.meshgrid(voltages_g1, voltages_g2), axis=-1)
''')
fn("a", S + "deformation/_sensor_peak_deformation_circle.py", "SensorPeakDeformationCircle.calc_mu", '''
def calc_mu(self, dist, mu0):
    scalar = np.isscalar(dist)
    r = self.__radius / np.hypot(*self.sensor.alpha_sensor_gate[0])
    d = np.minimum(np.abs(dist), np.abs(r))
    result = mu0 - np.sign(r) * (np.abs(r) - np.sqrt(np.abs(r * r - d * d)))
    return float(result) if scalar else result
''')
fn("a", S + "deformation/_sensor_peak_deformation_linear.py", "SensorPeakDeformationLinear.calc_mu", '''
def calc_mu(self, dist, mu0):
    lever = np.sqrt((self.sensor.alpha_sensor_gate[0] ** 2).sum())
    return mu0 + dist * (lever / np.tan(self.angle))
''')

# --------------------------------------------------------------------------------------------------- group b
fn("b", I + "_tct_bezier.py", "tct_bezier", '''
def tct_bezier(tct_params, x_eval, lut_entries=None, max_peaks=None):
    single = isinstance(x_eval, numbers.Number)
    x = np.atleast_1d(np.array(x_eval, dtype=float)).copy()
    length_l, length_r, slope_l, slope_r, xl, yl, xr, yr = (float(v) for v in tct_params[:8])
    if xl == xr and yl == yr:
        xc, yc = xl, yl
    else:
        xc = (yl - yr + xr * slope_r - xl * slope_l) / (slope_r - slope_l)
        yc = yl + slope_l * (xc - xl)
    assert xl <= xc <= xr
    assert length_l >= 2 * (xc - xl) and length_r >= 2 * (xr - xc)
    curve = bezier.Curve.from_nodes(np.asfortranarray([[xl, xc, xr], [yl, yc, yr]]))
    if lut_entries:
        lut = curve.evaluate_multi(np.linspace(0, 1, lut_entries))

        def arc(v):
            return lut[1, np.argmin(np.abs(lut[0, :] - v))]
    else:
        xb, yb = sympy.symbols("x y")
        solutions = sympy.solve(curve.implicitize(), yb)

        def arc(v):
            return float(max(s.subs({xb: v}) for s in solutions))
    width = xr - xl
    lin_l = length_l - 2 * (xc - xl)
    lin_r = length_r - 2 * (xr - xc)
    period = length_l + length_r
    inv = (yr + lin_r * slope_r) + yr
    drop = yl - ((inv - yl) + lin_l * slope_l)
    y = np.zeros(x.shape)
    first = xl
    last = None if max_peaks is None else xr + (max_peaks - 1) * period
    for i, v in enumerate(x):
        if last is not None and v <= first:
            y[i] = yl + (v - first) * slope_l
            continue
        if last is not None and v >= last:
            y[i] = yl - (max_peaks - 1) * drop + (yr - yl) + (v - last) * slope_r
            continue
        number, m = np.divmod(v - xl, period)
        if m < width:
            h = arc(m + xl)
        elif m < width + lin_r:
            h = yr + (m - width) * slope_r
        elif m < 2 * width + lin_r:
            h = inv - arc(2 * width + lin_r - m + xl)
        else:
            h = (inv - yl) + (m - 2 * width - lin_r) * slope_l
        y[i] = h - drop * number
    return y[0] if single else y
''')
fn("b", I + "_calculate_all_bezier_anchors.py", "calculate_all_bezier_anchors", '''
def calculate_all_bezier_anchors(tct_params, max_peaks=1, rotation=-np.pi / 4):
    single = not ((isinstance(tct_params, list) and (all(isinstance(i, list) for i in tct_params)
                                                     or all(isinstance(i, np.ndarray) and i.ndim == 1 for i in tct_params)))
                  or (isinstance(tct_params, np.ndarray) and tct_params.ndim == 2))
    out = {}
    for wf_id, p in enumerate([tct_params] if single else tct_params):
        number = (max_peaks + wf_id) * 2 - 1
        left, right = np.array(p[4:6], dtype=float), np.array(p[6:8], dtype=float)
        cx = (p[5] - p[7] + p[6] * p[3] - p[4] * p[2]) / (p[3] - p[2])
        centre = np.array([cx, p[5] + p[2] * (cx - p[4])])
        dir_l, dir_r = np.array([1.0, p[2]]), np.array([1.0, p[3]])
        wl, wr = centre[0] - left[0], right[0] - centre[0]
        points = np.empty((number, 3, 2))
        points[0] = left, centre, right
        for i in range(1, number):
            if i % 2:
                centre = centre + p[1] * dir_r
                points[i] = centre - wr * dir_r, centre, centre + wl * dir_l
            else:
                centre = centre + p[0] * dir_l
                points[i] = centre - wl * dir_l, centre, centre + wr * dir_r
        out[wf_id + max_peaks] = rotate_points(points=points.reshape(-1, 2), angle=rotation).reshape(points.shape)
    return out
''')
ed("b", I + "_get_electron_occupation.py", '''        a_bin = dip.Image()
        a_bin.Copy(csd)
        a_bin.Convert("BIN")
        # label all image regions
        im_labels = dip.Label(~a_bin, 1)
        regs = dip.GetObjectLabels(im_labels)
        im_labels = np.array(im_labels)
''', '''        from scipy.ndimage import label
        im_labels, number = label(csd == 0)
        regs = range(1, number + 1)
''')
ed("b", I + "_get_electron_occupation.py", '''    for reg in regs:
        # region 0 doesn't need''', '''    for reg in [r for r in regs if r != 0][::-1]:
        # region 0 doesn't need''')
ed("b", I + "_ideal_csd_geometric.py", '''        # calculate the occupations
        csd_occupations = get_occ(
            csd=csd_transitions,
            volt_limits_g1=np.sort(volt_limits_g1),
            volt_limits_g2=np.sort(volt_limits_g2),
''', '''        # calculate the occupations
        low_high_g1, low_high_g2 = np.sort(volt_limits_g1), np.sort(volt_limits_g2)
        csd_occupations = get_occ(
            csd=csd_transitions,
            volt_limits_g1=low_high_g1,
            volt_limits_g2=low_high_g2,
''')
ed("b", I + "_ideal_csd_geometric.py", '''        if volt_limits_g2[0] > volt_limits_g2[1]:
            csd_transitions = csd_transitions[::-1, :]
            csd_occupations = csd_occupations[::-1, :, :]
        if volt_limits_g1[0] > volt_limits_g1[1]:
            csd_transitions = csd_transitions[:, ::-1]
            csd_occupations = csd_occupations[:, ::-1, :]
''', '''        for axis, limits in ((1, volt_limits_g1), (0, volt_limits_g2)):
            if limits[0] > limits[1]:
                csd_transitions = np.flip(csd_transitions, axis=axis)
                csd_occupations = np.flip(csd_occupations, axis=axis)
''')
SIM = "simcats/_simulation.py"
ed("b", SIM, '''__all__ = []
''', '''__all__ = []


def _outside(limits, *volts):
    """Is any of the voltages outside of the limits?"""
    return limits is not None and any(v is not None and not limits[0] <= v <= limits[1] for v in volts)


def _frozen(volt_limits_g1, volt_limits_g2, resolution, generate_csd, noise_function):
    occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)
    noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd, freeze=True)
    return occupations, lead_transitions

''')
ed("b", SIM, '''        if (
                self.__volt_limits_g1 is not None
                and (
                np.min(sweep_range_g1) < self.__volt_limits_g1[0]
                or np.min(sweep_range_g1) > self.__volt_limits_g1[1]
                or np.max(sweep_range_g1) < self.__volt_limits_g1[0]
                or np.max(sweep_range_g1) > self.__volt_limits_g1[1]
        )
                or (
                self.__volt_limits_g2 is not None
                and (
                        np.min(sweep_range_g2) < self.__volt_limits_g2[0]
                        or np.min(sweep_range_g2) > self.__volt_limits_g2[1]
                        or np.max(sweep_range_g2) < self.__volt_limits_g2[0]
                        or np.max(sweep_range_g2) > self.__volt_limits_g2[1]
                )
        )
        ):
''', '''        if _outside(self.__volt_limits_g1, *sweep_range_g1) or _outside(self.__volt_limits_g2, *sweep_range_g2):
''')
ed("b", SIM, '''        if (
                self.__volt_limits_sensor_g1 is not None
                and (
                np.min(sweep_range_sensor_g1) < self.__volt_limits_sensor_g1[0]
                or np.min(sweep_range_sensor_g1) > self.__volt_limits_sensor_g1[1]
                or np.max(sweep_range_sensor_g1) < self.__volt_limits_sensor_g1[0]
                or np.max(sweep_range_sensor_g1) > self.__volt_limits_sensor_g1[1]
        )
                or (
                self.__volt_limits_sensor_g2 is not None
                and (
                        np.min(sweep_range_sensor_g2) < self.__volt_limits_sensor_g2[0]
                        or np.min(sweep_range_sensor_g2) > self.__volt_limits_sensor_g2[1]
                        or np.max(sweep_range_sensor_g2) < self.__volt_limits_sensor_g2[0]
                        or np.max(sweep_range_sensor_g2) > self.__volt_limits_sensor_g2[1]
                )
        )
        ):
''', '''        if _outside(self.__volt_limits_sensor_g1, *sweep_range_sensor_g1) or _outside(
            self.__volt_limits_sensor_g2, *sweep_range_sensor_g2
        ):
''')
ed("b", SIM, '''                def generate_csd_with_noise(volt_limits_g1, volt_limits_g2, resolution, generate_csd, noise_function):
                    """
                    This helper function is used to add the previous distortions to the generate_csd function for the
                    next distortions.
                    """
                    occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)
                    noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
                                   freeze=True)
                    return occupations, lead_transitions

                generate_csd = partial(generate_csd_with_noise, generate_csd=generate_csd,
                                       noise_function=i.noise_function)
''', '''                generate_csd = partial(_frozen, generate_csd=generate_csd, noise_function=i.noise_function)
''')
fn("b", S + "_sensor_scan_sensor_generic.py", "SensorScanSensorGeneric._calc_point_from_barrier_potentials", '''
def _calc_point_from_barrier_potentials(self, pot_bar1, pot_bar2):
    occ = self._occupations.reshape(-1, 2)[0]
    volts = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
    rest = self.alpha_gate[1:] @ volts + self.alpha_dot[1:] @ occ + self.offset_mu_sens[1:]
    target = np.array([pot_bar1, pot_bar2]) - rest
    x, y = np.linalg.solve(self.alpha_sensor_gate[1:], target)
    return x, y
''')
fn("b", U + "_linear_algebra.py", "line_circle_intersection", '''
def line_circle_intersection(line, circle_center, radius):
    if radius <= 0:
        raise ValueError("The radius of the circle must be greater than 0.")
    cx, cy = circle_center
    vertical = not isinstance(line, tuple)
    if vertical:
        a, b, c = 1, -2 * cy, cy ** 2 + (line - cx) ** 2 - radius ** 2
    else:
        m, off = line
        a = 1 + m ** 2
        b = 2 * (m * off - m * cy - cx)
        c = cx ** 2 + cy ** 2 + off ** 2 - 2 * off * cy - radius ** 2
    disc = b ** 2 - 4 * a * c
    if disc < 0:
        return []
    roots = [-b / (2 * a)] if disc == 0 else [(-b + np.sqrt(disc)) / (2 * a), (-b - np.sqrt(disc)) / (2 * a)]
    return [(line, r) if vertical else (r, m * r + off) for r in roots]
''')
fn("b", U + "_linear_algebra.py", "line_line_intersection", '''
def line_line_intersection(line1, line2):
    for i, line in enumerate((line1, line2), start=1):
        if not isinstance(line, numbers.Real) and len(line) != 2:
            raise ValueError(f"Invalid parameter - line{i} must either be a single number or an sequence with two elements!")

    def coefficients(line):
        """a*x + b*y = c"""
        if isinstance(line, numbers.Real):
            return 1.0, 0.0, line
        return -line[0], 1.0, line[1]

    a1, b1, c1 = coefficients(line1)
    a2, b2, c2 = coefficients(line2)
    if a1 == a2 and b1 == b2:
        raise ValueError("The lines are the same." if c1 == c2 else "The lines are parallel and do not intersect.")
    if isinstance(line1, numbers.Real):
        x = line1
        return np.array([x, line2[0] * x + line2[1]])
    if isinstance(line2, numbers.Real):
        x = line2
    else:
        x = (c2 - c1) / (a2 - a1)
    return np.array([x, line1[0] * x + line1[1]])
''')
fn("b", U + "_linear_algebra.py", "is_point_below_line", '''
def is_point_below_line(point, line):
    x, y = point
    if isinstance(line, numbers.Real):
        line = (0, line)
    if not isinstance(line, tuple) or len(line) != 2:
        raise ValueError("The straight line must be specified either as a tuple (m, b) or as a single number.")
    return y < line[0] * x + line[1]
''')
fn("b", U + "_plotting.py", "_plot_csd_2d", '''
def _plot_csd_2d(csd, volt_limits_g1, volt_limits_g2, title=None, cb_label="Sensor signal [a.u.]", x_label="g1 [V]", y_label="g2 [V]",
                 save_path=None, sort_volts=True, num_xticks=5, num_yticks=5):
    x = list(volt_limits_g1)
    y = list(volt_limits_g2)
    if sort_volts and y[0] > y[1]:
        csd, y = np.flipud(csd), y[::-1]
    if sort_volts and x[0] > x[1]:
        csd, x = np.fliplr(csd), x[::-1]
    rows, cols = csd.shape
    fig, ax = plt.gcf(), plt.gca()
    im = ax.imshow(csd, aspect=abs(y[1] - y[0]) / rows / (abs(x[1] - x[0]) / cols), origin="lower", interpolation="none")

    def ticks(n, lim, num):
        return np.linspace(0, n - 1, num), [f"{v:.3f}" for v in np.round(np.linspace(*lim, num), 3)]

    pos, text = ticks(cols, x, num_xticks)
    ax.set_xticks(pos)
    ax.set_xticklabels(text)
    pos, text = ticks(rows, y, num_yticks)
    ax.set_yticks(pos)
    ax.set_yticklabels(text)
    ax.set_xlabel(x_label)
    ax.set_ylabel(y_label)
    if cb_label is not None:
        fig.colorbar(im, ax=ax).set_label(label=cb_label, fontsize=12)
    if title is not None:
        ax.set_title(title)
    fig.tight_layout()
    if save_path is not None:
        fig.savefig(save_path, dpi=600, bbox_inches="tight")
    plt.show()
''')
ed("b", U + "_plotting.py", "    plt.plot(csd)\n", "    pixels = np.arange(csd.shape[0])\n    plt.plot(pixels, csd)\n")
fn("b", U + "_cumulative_distribution_functions.py", "sigmoid_cdf", '''
def sigmoid_cdf(x, x0, gam):
    z = x - x0
    if np.isclose(gam, 0.0):
        return np.where(z > 0, 1.0, np.where(z < 0, 0.0, z))
    return 1 / (1 + np.exp(-2 * z / gam))
''')
fn("b", D + "_random_telegraph_noise.py", "random_telegraph_noise", '''
def random_telegraph_noise(original, scale, std, height, rng=np.random.default_rng()):
    if scale == 0:
        return original
    size = np.prod(original.shape)
    lengths = rng.geometric(p=1 / scale, size=size)
    needed = int(np.searchsorted(np.cumsum(lengths), size)) + 1
    heights = np.array([rng.normal(height, std) for _ in range(min(needed, size))])
    heights[::2] = 0
    noise = np.repeat(heights, lengths[:len(heights)])[:size]
    return original + noise.reshape(original.shape)
''')
fn("b", D + "_pink_noise.py", "pink_gaussian_noise", '''
def pink_gaussian_noise(original, scale, fmin, rng=np.random.default_rng()):
    shape, size = original.shape, original.size
    if size == 1:
        return original + scale * rng.normal(0, 1, size=shape)
    highest = np.fft.rfftfreq(size).max()
    if highest < fmin <= 0.5:
        fmin = highest
    flat = cn.powerlaw_psd_gaussian(1, size, fmin=fmin, random_state=rng)
    return original + scale * flat.reshape(shape)
''')
fn("b", D + "_white_noise.py", "white_gaussian_noise", '''
def white_gaussian_noise(original, sigma, rng=np.random.default_rng()):
    noise = rng.normal(loc=0, scale=sigma, size=original.shape)
    return np.add(original, noise)
''')
fn("b", U + "_signed_dist_points_line.py", "signed_dist_points_line", '''
def signed_dist_points_line(points, line_points):
    a, b = line_points[0, :], line_points[1, :]
    tangent = (b - a) / np.linalg.norm(b - a)
    normal = np.stack((tangent[..., 1], -tangent[..., 0]), axis=-1)
    return np.sum((points - a) * normal, axis=-1)
''')
PSM = U + "_parameter_sampling.py"
ed("b", PSM, '''class NormalSamplingRange(''', '''def _narrow(rng, total_range, width):
    """Random subrange with the given width"""
    low, high = np.min(total_range), np.max(total_range)
    if width is None:
        return total_range
    if width >= high - low:
        warnings.warn("The reduced sampling range is not smaller than the total range, which is used instead.", stacklevel=3)
        return total_range
    centre = rng.uniform(low + 0.5 * width, high - 0.5 * width)
    ends = (centre - 0.5 * width, centre + 0.5 * width)
    return ends if total_range[0] < total_range[1] else ends[::-1]


class NormalSamplingRange(''')
fn("b", PSM, "NormalSamplingRange.__init__", '''
def __init__(self, total_range, std, mean=None, sampling_range=None, rng=None):
    self.__rng = rng if rng else np.random.default_rng()
    self.__range = _narrow(self.__rng, total_range, sampling_range)
    self.__std = std
    self.__mean = np.mean(self.__range) if mean is None else mean
    self.__last_sample = None
''')
fn("b", PSM, "UniformSamplingRange.__init__", '''
def __init__(self, total_range, sampling_range=None, rng=None):
    self.__rng = rng if rng else np.random.default_rng()
    self.__range = _narrow(self.__rng, total_range, sampling_range)
    self.__last_sample = None
''')
fn("b", PSM, "LogNormalSamplingRange.__init__", '''
def __init__(self, total_range, sampling_range=None, rng=None, mean=0, sigma=1):
    self.__rng = rng if rng else np.random.default_rng()
    self.__mean, self.__sigma = mean, sigma
    self.__range = _narrow(self.__rng, total_range, sampling_range)
    self.__last_sample = None
''')
fn("b", PSM, "ExponentialSamplingRange.__init__", '''
def __init__(self, total_range, scale, sampling_range=None, rng=None):
    self.__rng = rng if rng else np.random.default_rng()
    self.__range = _narrow(self.__rng, total_range, sampling_range)
    self.__scale = scale
    self.__last_sample = None
''')
fn("b", PSM, "NormalSamplingRange.sample_parameter", '''
def sample_parameter(self):
    low, high = self.__range
    while True:
        value = self.__rng.normal(loc=self.__mean, scale=self.__std)
        if low <= value <= high:
            break
    self.__last_sample = value
    return value
''')
fn("b", PSM, "ExponentialSamplingRange.sample_parameter", '''
def sample_parameter(self):
    start, end = self.__range
    low, high = min(start, end), max(start, end)
    value = None
    while value is None or not low <= value <= high:
        value = start + (end - start) * self.__rng.exponential(scale=self.__scale)
    self.__last_sample = value
    return value
''')


# --------------------------------------------------------------------------------------------------- group c
ed("c", SIM, '''        if self.__sensor_potential_distortions is not None:
            if occupations.ndim == 3 and potential.ndim == 2 or occupations.ndim == 2 and potential.ndim == 1:
                for i in self.__sensor_potential_distortions:
                    potential = i.noise_function(
                        mu_sens=potential, volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2
                    )
            # SensorScanSensor implementations have more than one potential that has to be distorted
            elif occupations.ndim == 3 and potential.ndim == 3 or occupations.ndim == 2 and potential.ndim == 2:
                for i in self.__sensor_potential_distortions:
                    for pot_num in range(potential.shape[0]):
                        potential[pot_num] = i.noise_function(
                            mu_sens=potential[pot_num], volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2
                        )
''', '''        potential = self._distort_potential(potential, occupations.ndim - 1, sweep_range_g1, sweep_range_g2)
''')
ed("c", SIM, '''        if self.__sensor_potential_distortions is not None:
            if occupations.ndim == 3 and potential.ndim == 2 or occupations.ndim == 2 and potential.ndim == 1:
                for i in self.__sensor_potential_distortions:
                    potential = i.noise_function(
                        mu_sens=potential,
                        volt_limits_g1=sweep_range_sensor_g1,
                        volt_limits_g2=sweep_range_sensor_g2
                    )
            elif occupations.ndim == 3 and potential.ndim == 3 or occupations.ndim == 2 and potential.ndim == 2:
                for i in self.__sensor_potential_distortions:
                    for pot_num in range(potential.shape[0]):
                        potential[pot_num] = i.noise_function(
                            mu_sens=potential[pot_num],
                            volt_limits_g1=sweep_range_sensor_g1,
                            volt_limits_g2=sweep_range_sensor_g2
                        )
''', '''        potential = self._distort_potential(potential, occupations.ndim - 1, sweep_range_sensor_g1, sweep_range_sensor_g2)
''')
ed("c", SIM, '''        if self.__sensor_response_distortions is not None:
            for i in self.__sensor_response_distortions:
                csd = i.noise_function(
                    sensor_response=csd, volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2
                )
''', '''        csd = self._distort_response(csd, sweep_range_g1, sweep_range_g2)
''')
ed("c", SIM, '''        if self.__sensor_response_distortions is not None:
            for i in self.__sensor_response_distortions:
                scan = i.noise_function(
                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                )
''', '''        scan = self._distort_response(scan, sweep_range_sensor_g1, sweep_range_sensor_g2)
''')
ed("c", SIM, '''            "volt_limits_g1": deepcopy(self.volt_limits_g1),
            "volt_limits_g2": deepcopy(self.volt_limits_g2),
            "volt_limits_sensor_g1": deepcopy(self.volt_limits_sensor_g1),
            "volt_limits_sensor_g2": deepcopy(self.volt_limits_sensor_g2),
            "resolution": deepcopy(resolution),
            "ideal_csd_config": deepcopy(self.ideal_csd_config),
            "sensor": deepcopy(self.sensor),
            "occupation_distortions": deepcopy(self.occupation_distortions),
            "sensor_potential_distortions": deepcopy(self.sensor_potential_distortions),
            "sensor_response_distortions": deepcopy(self.sensor_response_distortions),
        }
''', '''            **self._snapshot(resolution),
        }
''', 2)
ed("c", SIM, '''    @property
    def volt_limits_g1(self) -> Optional[np.ndarray]:
''', '''    def _snapshot(self, resolution):
        names = ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2")
        lists = ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")
        snap = {n: deepcopy(getattr(self, n)) for n in names}
        snap["resolution"] = deepcopy(resolution)
        for n in ("ideal_csd_config", "sensor") + lists:
            snap[n] = deepcopy(getattr(self, n))
        return snap

    def _distort_potential(self, potential, dims, range_1, range_2):
        distortions = self.__sensor_potential_distortions or []
        several = potential.ndim == dims + 1
        if not several and potential.ndim != dims:
            return potential
        for d in distortions:
            if several:
                for k, part in enumerate(potential):
                    potential[k] = d.noise_function(mu_sens=part, volt_limits_g1=range_1, volt_limits_g2=range_2)
            else:
                potential = d.noise_function(mu_sens=potential, volt_limits_g1=range_1, volt_limits_g2=range_2)
        return potential

    def _distort_response(self, signal, range_1, range_2):
        for d in self.__sensor_response_distortions or []:
            signal = d.noise_function(sensor_response=signal, volt_limits_g1=range_1, volt_limits_g2=range_2)
        return signal

    @property
    def volt_limits_g1(self) -> Optional[np.ndarray]:
''')
fn("c", I + "_generate_lead_transition_mask.py", "generate_lead_transition_mask_1d", '''
def generate_lead_transition_mask_1d(csd_occ):
    total = csd_occ.sum(axis=-1)
    labels = np.zeros(len(total), dtype=np.uint8)
    step = np.diff(total)
    up, down = np.flatnonzero(step > 0), np.flatnonzero(step < 0)
    labels[up + 1] = total[up + 1]
    labels[down] = total[down]
    both = np.intersect1d(up + 1, down)
    labels[both] = total[both]
    return labels
''')
fn("c", I + "_generate_lead_transition_mask.py", "generate_lead_transition_mask_2d", '''
def generate_lead_transition_mask_2d(csd, volt_limits_g1, volt_limits_g2, tct_functions, rotation=-np.pi / 4, lut_entries=None):
    result = np.array(csd).astype(np.uint8)
    shape = np.array(csd.shape[::-1])
    lo = np.array([volt_limits_g1[0], volt_limits_g2[0]], dtype=float)
    hi = np.array([volt_limits_g1[-1], volt_limits_g2[-1]], dtype=float)
    step = (hi - lo) / (shape - 1)
    corners = np.array([[x, y] for x in (lo[0], hi[0]) for y in (lo[1], hi[1])])
    x_rot = rotate_points(points=corners, angle=-rotation)[:, 0]
    left, right = x_rot.min() - step[0], x_rot.max() + step[0]
    num = max(int(shape.sum()) * 4, int(np.ceil(2 * (right - left) / step.min())))
    x = np.linspace(left, right, num)
    for value, func in tct_functions.items():
        y = func(x_eval=x, lut_entries=lut_entries)
        pts = rotate_points(points=np.stack((x, y), axis=-1), angle=rotation)
        idx = np.floor((pts - lo) / step + 0.5).astype(int)
        ok = ((pts > lo - 0.5 * step) & (pts < hi + 0.5 * step) & (idx >= 0) & (idx < shape)).all(axis=1)
        result[idx[ok, 1], idx[ok, 0]] = value
    return result
''')
fn("c", I + "_get_electron_occupation.py", "_occupation_func", '''
def _occupation_func(points, ref_line_points, params, cdf_type="sigmoid"):
    cdfs = {"sigmoid": multi_sigmoid_cdf, "cauchy": multi_cauchy_cdf}
    if cdf_type not in cdfs:
        raise ValueError(f"The cdf_type must be either 'sigmoid' or 'cauchy'. Got '{cdf_type}' instead.")
    first = cdfs[cdf_type](signed_dist_points_line(points=points, line_points=ref_line_points), params)
    return first, len(params) / 2 - first
''')
ed("c", I + "_get_electron_occupation.py", '''            reg_val = 0
            indices = np.where(im_labels == reg)
            temp_point = np.array([col_values[indices[1][0]], row_values[indices[0][0]]])
            temp_point_rot = rotate_points(points=temp_point, angle=-rotation)
            for f_id, func in tct_functions.items():
                if func(x_eval=temp_point_rot[0], lut_entries=lut_entries) <= temp_point_rot[1]:
                    reg_val = f_id
                else:
                    break
            csd_mask[indices] = reg_val
''', '''            mask = im_labels == reg
            last = np.argwhere(mask)[-1]
            x, y = rotate_points(points=np.array([col_values[last[1]], row_values[last[0]]]), angle=-rotation)
            crossed = [0]
            for number in tct_functions:
                if tct_functions[number](x_eval=x, lut_entries=lut_entries) > y:
                    break
                crossed.append(number)
            csd_mask[mask] = crossed[-1]
''')
fn("c", I + "_initialize_tct_functions.py", "initialize_tct_functions", '''
def initialize_tct_functions(tct_params, max_peaks=1):
    many = isinstance(tct_params, np.ndarray) and tct_params.ndim == 2
    if isinstance(tct_params, list):
        many = all(isinstance(i, list) for i in tct_params) or all(isinstance(i, np.ndarray) and i.ndim == 1 for i in tct_params)
    params = tct_params if many else [tct_params]
    return {n: partial(tct_bezier, tct_params=p, max_peaks=n) for n, p in enumerate(params, start=max_peaks)}
''')
fn("c", D + "_dot_jumps.py", "dot_jumps_blockwise", '''
def dot_jumps_blockwise(original, scale, lam, noise=None, axis=1, rng=np.random.default_rng()):
    if scale == 0:
        return original, np.zeros(original.shape[axis])
    if axis not in (0, 1):
        raise NotImplementedError("Dot jumps are only supported for 2d array. Axis should be 0 or 1.")
    if noise is None:
        noise = generate_dot_jumps_blockwise(original.shape, scale, lam, axis, rng)
    data = original if axis == 1 else original.T
    out = np.empty(data.shape)
    n = data.shape[1]
    for j in range(n):
        stop = min(n, j + int(noise[j]) + 1)
        src = np.maximum(0, np.arange(j, stop) - int(noise[j]))
        block = data[:, src]
        out[:, j:stop] = np.where(np.isnan(block), data[:, j:stop], block)
    return (out if axis == 1 else out.T), noise
''')
fn("c", D + "_dot_jumps.py", "OccupationDotJumps._noise_function_2d", '''
def _noise_function_2d(self, occupation, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd, scale, lam, use_previous_noise):
    if not use_previous_noise:
        self.__previous_noise = generate_dot_jumps_blockwise(occupation[:, :, 0].shape, scale, lam, axis=self.axis, rng=self.rng)
    noise = self.__previous_noise
    rows, cols = occupation.shape[:2]
    extra = 0
    occ, lab = occupation, lead_transitions
    if generate_csd is not None and np.max(noise) > 0:
        extra = np.max(noise)
        along = (volt_limits_g2, volt_limits_g1)[self.axis]
        step = (along[1] - along[0]) / max(occupation.shape[self.axis] - 1, 1)
        window = (along[0] - extra * step, along[0] - step)
        if self.axis == 1:
            more_occ, more_lab = generate_csd(volt_limits_g1=window, volt_limits_g2=volt_limits_g2, resolution=(extra, rows) if extra > 1 else rows)
            shape = (rows, extra)
        else:
            more_occ, more_lab = generate_csd(volt_limits_g1=volt_limits_g1, volt_limits_g2=window, resolution=(cols, extra) if extra > 1 else cols)
            shape = (extra, cols)
        occ = np.concatenate((np.reshape(more_occ, shape + (2,)), occupation), axis=self.axis)
        if lead_transitions is not None:
            lab = np.concatenate((np.reshape(more_lab, shape), lead_transitions), axis=self.axis)
    full = np.concatenate((np.zeros(extra, dtype=int), noise))
    cut = (slice(None), slice(extra, None)) if self.axis == 1 else (slice(extra, None), slice(None))
    moved = [dot_jumps_blockwise(occ[:, :, k], scale, lam, full, axis=self.axis, rng=self.rng)[0][cut] for k in (0, 1)]
    moved_lab = None if lead_transitions is None else dot_jumps_blockwise(lab, scale, lam, full, axis=self.axis, rng=self.rng)[0][cut]
    for k in (0, 1):
        occupation[:, :, k] = moved[k]
    if moved_lab is not None:
        lead_transitions[:, :] = moved_lab
''')
fn("c", D + "_dot_jumps.py", "OccupationDotJumps._noise_function_1d", '''
def _noise_function_1d(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd, scale, lam, use_previous_noise):
    n = occupations.shape[0]
    if not use_previous_noise:
        self.__previous_noise = generate_dot_jumps_blockwise((n, n), scale, lam, axis=self.axis, rng=self.rng)
    noise = np.asarray(self.__previous_noise).astype(int)
    # shift of every pixel: the last block that writes to it decides
    shift = np.zeros(n, dtype=int)
    for j in range(n):
        shift[j] = noise[j]
    if generate_csd is None or noise.max() == 0:
        self._shift_without_data(occupations, lead_transitions, scale, lam, noise)
        return
    limits = [np.array(volt_limits_g1, dtype=float), np.array(volt_limits_g2, dtype=float)]
    which = 0 if self.axis == 1 else 1
    step = (limits[which][1] - limits[which][0]) / max(n - 1, 1)
    lines = {0: (occupations.copy(), None if lead_transitions is None else lead_transitions.copy())}
    for k in range(1, int(noise.max()) + 1):
        moved = [tuple(v - k * step) if i == which else v for i, v in enumerate(limits)]
        lines[k] = generate_csd(volt_limits_g1=moved[0], volt_limits_g2=moved[1], resolution=n)
    for i in range(n):
        occupations[i] = lines[shift[i]][0][i]
        if lead_transitions is not None:
            lead_transitions[i] = lines[shift[i]][1][i]

def _shift_without_data(self, occupations, lead_transitions, scale, lam, noise):
    n = occupations.shape[0]
    arrays = [occupations[:, 0], occupations[:, 1]] + ([] if lead_transitions is None else [lead_transitions])
    for a in arrays:
        image = np.full((n, n), np.nan)
        np.fill_diagonal(image, a)
        a[:] = np.diag(dot_jumps_blockwise(image, scale, lam, noise, axis=self.axis, rng=self.rng)[0])
''')
fn("c", S + "_sensor_scan_sensor_generic.py", "SensorScanSensorGeneric.sensor_response", '''
def sensor_response(self, mu_sens):
    dot, *barriers = deepcopy(mu_sens)
    only_sensor = self._volt_limits_g1[0] == self._volt_limits_g1[-1] and self._volt_limits_g2[0] == self._volt_limits_g2[-1]
    if self.sensor_peak_deformations and only_sensor:
        middle = self._calc_point_from_barrier_potentials(pot_bar1=self.barrier_functions[0].pinch_off,
                                                          pot_bar2=self.barrier_functions[1].pinch_off)
        v1 = np.linspace(self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[1], dot.shape[-1])
        v2 = np.linspace(self._volt_limits_sensor_g2[0], self._volt_limits_sensor_g2[1], dot.shape[0])
        resp = np.zeros_like(dot)
        for idx in np.ndindex(*dot.shape):
            resp[idx] = self._peak_func(mu_sens=dot[idx], volt_g1=self._volt_limits_g1[0], volt_g2=self._volt_limits_g2[0],
                                        volt_sensor_g1=v1[idx[-1]], volt_sensor_g2=v2[idx[0]], middle_line_point=middle)
    else:
        if self.sensor_peak_deformations:
            warnings.warn("Deformations can only swept when only the sensor gates are swept!")
        peaks = self.__sensor_peak_function
        resp = dot if peaks is None else sum((p.sensor_function(dot) for p in peaks[1:]), peaks[0].sensor_function(dot)) if peaks else np.sum([], axis=0)
        if self.final_rise is not None:
            resp = np.maximum(resp, self.final_rise.sensor_function(dot, offset=self._calc_fully_conductive_potential()))
    g1, g2 = (f.get_value(p) for f, p in zip(self.barrier_functions, barriers))
    if min(np.min(resp), np.min(g1), np.min(g2)) < 0:
        warnings.warn("At least one of the three responses is negative.")
    top = resp * g1 * g2
    bottom = g1 * g2 + resp * g1 + resp * g2
    zero = bottom == 0
    return np.where(zero, 0.0, top / np.where(zero, 1.0, bottom))
''')
fn("c", S + "_sensor_scan_sensor_generic.py", "SensorScanSensorGeneric.sensor_potential", '''
def sensor_potential(self, occupations, volt_limits_g1=None, volt_limits_g2=None, volt_limits_sensor_g1=None, volt_limits_sensor_g2=None):
    if occupations.ndim not in (2, 3):
        raise ValueError("The occupations matrix has to have either two or three dimensions.")
    plunger_swept = any(isinstance(v, np.ndarray) for v in (volt_limits_g1, volt_limits_g2))
    sensor_swept = any(isinstance(v, np.ndarray) for v in (volt_limits_sensor_g1, volt_limits_sensor_g2))
    if plunger_swept and self.sensor_peak_deformations:
        warnings.warn("Deformations should only be used with sweeps of sensor gates!")
    if plunger_swept and sensor_swept:
        raise ValueError("Both types of gates cannot be swept simultaneously.")

    def as_range(v):
        if v is None:
            return np.array([0, 0])
        return np.array([v, v]) if isinstance(v, numbers.Real) else copy.deepcopy(v)

    self._volt_limits_g1, self._volt_limits_g2 = as_range(volt_limits_g1), as_range(volt_limits_g2)
    self._volt_limits_sensor_g1, self._volt_limits_sensor_g2 = as_range(volt_limits_sensor_g1), as_range(volt_limits_sensor_g2)
    self._occupations = occupations

    def voltages(range_1, range_2):
        v1 = np.linspace(range_1[0], range_1[1], num=occupations.shape[-2])
        v2 = np.linspace(range_2[0], range_2[1], num=occupations.shape[0])
        if occupations.ndim == 3:
            v1, v2 = np.meshgrid(v1, v2)
        return np.stack((v1, v2), axis=-1)

    plunger = voltages(self._volt_limits_g1, self._volt_limits_g2)
    sensor = voltages(self._volt_limits_sensor_g1, self._volt_limits_sensor_g2)
    return np.array([
        self.offset_mu_sens[k] + sensor @ self.alpha_sensor_gate[k] + plunger @ self.__alpha_gate[k] + occupations @ self.__alpha_dot[k]
        for k in range(3)
    ])
''')
CS = "simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"
ed("c", CS, '''            while (np.min([np.abs(sensor_mu_0 - sampled_peak.mu0) for sampled_peak in sensor_peak_functions]) <= (
                    sensor_mu_0_max - sensor_mu_0_min) / (num_sensor_peak * 1.5) and counter < 1000) or np.min(
                [np.abs(sensor_mu_0 - sampled_peak.mu0) for sampled_peak in sensor_peak_functions]) <= (
                    sensor_mu_0_max - sensor_mu_0_min) / (num_sensor_peak * 2):
                sensor_mu_0 = rng.uniform(low=sensor_mu_0_min, high=sensor_mu_0_max)
                counter += 1
''', '''            def too_close(mu, share):
                width = (sensor_mu_0_max - sensor_mu_0_min) / (num_sensor_peak * share)
                return any(np.abs(mu - other.mu0) <= width for other in sensor_peak_functions)
            while too_close(sensor_mu_0, 2) or (counter < 1000 and too_close(sensor_mu_0, 1.5)):
                counter += 1
                sensor_mu_0 = rng.uniform(low=sensor_mu_0_min, high=sensor_mu_0_max)
''')
ed("c", CS, '''        sensor_gamma = rng.uniform(low=sensor_gamma_min, high=sensor_gamma_max)
        sensor_mu_0 = rng.uniform(low=sensor_mu_0_min, high=sensor_mu_0_max)
''', '''        sensor_mu_0 = rng.uniform(low=sensor_mu_0_min, high=sensor_mu_0_max)
        sensor_gamma = rng.uniform(low=sensor_gamma_min, high=sensor_gamma_max)
''')
ed("c", CS, '''    x_values = np.linspace(-5, 5, 500000)
    sensor_resp = np.zeros(500000)
    for func in sensor_func:
        sensor_resp += func.sensor_function(x_values)
    maximum = np.max(sensor_resp)
''', '''    x_values = np.linspace(-5, 5, 500000)
    maximum = np.max(sum(func.sensor_function(x_values) for func in sensor_func))
''')
ed("c", CS, '''    lengths = [
        rng.uniform(length_min, length_max),
        rng.uniform(length_min, length_max),
    ]
''', '''    lengths = list(rng.uniform(length_min, length_max, size=2))
''')


def apply(c, group):
    for g, f, name, src in R:
        if g != group:
            continue
        p = os.path.join(c, f)
        t = open(p).read()
        if name is None:
            old, new, n = src
            assert t.count(old) == n, (f, t.count(old), old)
            t = t.replace(old, new)
        else:
            t = replace(t, name, src)
        ast.parse(t)
        open(p, "w").write(t)


if __name__ == "__main__":
    import seedtool
    ns = vars(seedtool)
    a = sys.argv[1:]
    groups = [a[a.index("-g") + 1]] if "-g" in a else sorted({r[0] for r in R})
    checks = a[a.index("-c") + 1].split(",") if "-c" in a else ["C%02d" % i for i in range(1, 29)]
    for g in groups:
        if "-t" in a:
            d, c = ns["copy"]()
            apply(c, g)
            print(g, "tests failing:", ns["tests"](c), flush=True)
            shutil.rmtree(d)
        if "-n" not in a:
            for k in checks:
                r = ns["catch"]("none", [k], prepare=lambda c: apply(c, g))
                for kk, rc, l, f in r[1]:
                    print(g, kk, "quiet" if rc == 0 else "ALARM rc%d" % rc, l, f, flush=True)
