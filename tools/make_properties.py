"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SIM = "simcats/_simulation.py"; G = "simcats/ideal_csd/geometric/"; D = "simcats/distortions/"; S = "simcats/sensor/"; U = "simcats/support_functions/"

p("C01", "Measured arrays follow the sweep direction",
  "For an undistorted charge-stability or sensor-scan measurement, exchanging start and stop of one or both sweep ranges of a 2D scan returns exactly the same signal, occupations and label masks, reversed along the array axis of the exchanged gate. For a 1D sweep, exchanging both ranges returns the same data in reversed order. Index 0 always belongs to the first voltage of the supplied range.",
  ["inputs", "configurations"], "all sweep directions x 1D/2D x measurement kind x resolutions x sensor kinds x configurations",
  "Tests fix one ascending sweep per case and compare against stored images; the direction/axis combinations of all result arrays are never crossed.",
  [SIM, G + "_ideal_csd_geometric.py", G + "_get_electron_occupation.py", S + "_sensor_generic.py", S + "_sensor_scan_sensor_generic.py"],
  [("sorting and re-flipping of 2D structure data", "ideal_csd_geometric"), ("voltage grids of the sensor potential", "SensorGeneric.sensor_potential / SensorScanSensorGeneric.sensor_potential"), ("label generation along the sweep", "SensorScanSensorGeneric.get_sensor_scan_labels")],
  ["Simulation.measure", "Simulation.measure_sensor_scan"])

p("C02", "Every pixel belongs to its own gate voltages",
  "Result arrays have one row per g2 pixel and one column per g1 pixel (one entry per pixel in a 1D sweep) and occupations carry a trailing axis for the two dots. The pixel (row, column) represents the g1 and g2 voltages obtained by interpolating linearly, both ends included, over the two sweep ranges. Hence 2D scans, 1D sweeps and single-pixel measurements that hit the same voltages, at any resolution or range, agree on occupations and sensor signal; in a 2D scan only pixels carrying a transition label may differ. The number type or memory layout in which ranges and sensor parameters are given (integers, views, read-only arrays) makes no difference.",
  ["inputs", "configurations"], "all measurement shapes, resolutions (square or not), ranges and direction combinations; both measurement kinds",
  "Tests compare a few 100x100 or stored cases; a swapped axis or off-by-one grid is invisible on square grids and no test relates measurements of different shape to each other.",
  [SIM, G + "_get_electron_occupation.py", G + "_generate_lead_transition_mask.py", S + "_sensor_generic.py", S + "_sensor_scan_sensor_generic.py"],
  [("row/column voltage grids", "get_electron_occupation"), ("voltage matrices", "sensor_potential implementations"), ("occupation broadcast for sensor scans", "Simulation.measure_sensor_scan")],
  ["Simulation.measure", "Simulation.measure_sensor_scan"])

p("C03", "Lead-transition labels delimit the charge regions",
  "In every undistorted measurement the two dot occupations are non-negative and add up to a whole number of electrons. A pixel labelled n belongs to the region with n electrons, and it is labelled only where the transition between n-1 and n electrons runs; whenever two neighbouring pixels differ in total electron number, the one with more electrons carries that number as its label. This holds for 1D and 2D sweeps in every direction.",
  ["inputs", "configurations"], "all ranges (isotropic or not), resolutions, directions and transition configurations",
  "The mask/occupation contract is a relation over every pixel of every possible window; tests only compare stored masks of a few windows.",
  [G + "_generate_lead_transition_mask.py", G + "_get_electron_occupation.py", G + "_ideal_csd_geometric.py"],
  [("label drawing", "generate_lead_transition_mask_2d / generate_lead_transition_mask_1d"), ("region filling", "get_electron_occupation")],
  ["IdealCSDGeometric.get_csd_data", "Simulation.measure"])

p("C04", "Total charge follows the configured transition curves",
  "The total number of electrons reported for a pixel is the number of configured total-charge-transition curves (rotated into gate space) that lie at or below its voltages; in 2D scans only pixels through which a curve passes may already belong to the higher region. This holds for every window, including very anisotropic voltage ranges and resolutions. A window that reaches beyond the last usable curve is rejected with an IndexError instead of being reported with a wrong electron number, in 1D sweeps as in 2D scans.",
  ["inputs", "configurations"], "all windows, aspect ratios, resolutions, lookup-table settings and transition lists",
  "Tests use a handful of near-square windows inside the default structure; leaks between regions and undefined regions appear only for particular windows.",
  [G + "_generate_lead_transition_mask.py", G + "_get_electron_occupation.py", G + "_initialize_tct_functions.py", G + "_tct_bezier.py"],
  [("curve sampling and rasterisation", "generate_lead_transition_mask_2d"), ("region labelling / per-point test", "get_electron_occupation"), ("peak counting per curve", "initialize_tct_functions")],
  ["IdealCSDGeometric.get_csd_data"])

p("C05", "A transition curve is the documented piecewise line/Bezier function",
  "For admissible parameters a transition curve is a continuous function of the x-voltage: straight lines of the two given gradients joined by quadratic Bezier arcs at the maxima and by the same arcs rotated by 180 degrees at the minima, repeated for the allowed number of maxima and continued by straight lines outside. Its value at an x does not depend on which other x-values are evaluated with it, on their order, or on scalar versus array input, and lookup-table evaluation differs from exact evaluation only by the table resolution. Supplied arrays are never modified.",
  ["inputs", "configurations"], "all parameter sets, numbers of maxima, evaluation points, orders and evaluation modes",
  "Existing tests evaluate one or two stored curves over one grid; segment borders, order dependence and mode equivalence are quantified over all x and parameter sets.",
  [G + "_tct_bezier.py", G + "_calculate_all_bezier_anchors.py", G + "_initialize_tct_functions.py"],
  [("segment selection and period offsets", "tct_bezier"), ("anchors of all arcs", "calculate_all_bezier_anchors"), ("curve table", "initialize_tct_functions")],
  ["tct_bezier", "calculate_all_bezier_anchors", "initialize_tct_functions"])

p("C06", "Electrons are shared between the dots as the interdot geometry says",
  "Inside a region with N electrons the occupation of dot 1 is the sum of N unit steps (sigmoid or Cauchy, as configured), one per interdot transition, centred on that transition with a width proportional to the extent of its Bezier arc divided by the configured factor, measured along the normal of the first interdot line; dot 2 holds the remaining electrons. Consequently dot 1 gains and dot 2 loses charge monotonically in the direction in which the voltage of gate 1 rises against gate 2, and both stay between 0 and N.",
  ["inputs", "configurations"], "all windows, both step types, all gamma factors, all transition lists incl. arcs of zero width",
  "Tests check stored occupations of the default configuration only; both step types, the gamma default and degenerate arcs are not crossed.",
  [G + "_get_electron_occupation.py", U + "_cumulative_distribution_functions.py", U + "_signed_dist_points_line.py", G + "_calculate_all_bezier_anchors.py"],
  [("occupation function", "get_electron_occupation / _occupation_func"), ("step functions", "multi_sigmoid_cdf / multi_cauchy_cdf")],
  ["IdealCSDGeometric.get_csd_data"])

p("C07", "CSD requests are accepted or rejected exactly by the documented rules",
  "A charge-stability measurement is refused with a ValueError exactly when no ideal structure is configured, a sweep range does not have two entries, a swept voltage or a supplied sensor voltage lies outside a configured limit, only one of the two sensor voltages is supplied, more than two resolutions are given, or a 2D scan is requested with a fixed gate or a resolution below two. Limits are inclusive, a missing limit restricts nothing, and a limit on one gate is never applied to another; every other request succeeds. A refused request leaves the simulation unchanged.",
  ["inputs", "configurations", "histories"], "all combinations of limits, ranges, sensor voltages, resolutions and configuration presence",
  "The rejection rule is a conjunction over independent parameters; tests try single violations for one configuration.",
  [SIM], [("request validation", "Simulation.measure")], ["Simulation.measure"])

p("C08", "Sensor-scan requests are accepted or rejected exactly by the documented rules",
  "A sensor scan is refused with a ValueError exactly when the sensor cannot be scanned, a sweep range does not have two entries, a swept sensor voltage or a supplied plunger voltage lies outside a configured limit, only one plunger voltage is supplied, more than two resolutions are given, or a 2D scan is requested with a fixed sensor gate or a resolution below two. Every other request succeeds whether the resolution is an int, a one-element or a two-element array, with or without plunger voltages and with or without an ideal structure; the occupation is that of the structure at the plunger voltages, or zero if no structure or voltages are given.",
  ["inputs", "configurations", "histories"], "all combinations of limits, ranges, plunger voltages, resolution forms and configuration presence",
  "Tests use 2D requests on the default configuration and single violations; the 1D forms and optional arguments are not crossed.",
  [SIM, S + "_sensor_scan_sensor_generic.py"], [("request validation and occupation setup", "Simulation.measure_sensor_scan")], ["Simulation.measure_sensor_scan"])

p("C09", "Configuration is private, validated and snapshotted",
  "Whatever is assigned to a simulation is validated (ValueError otherwise, leaving the previous value in force) and copied, so later changes to the caller's objects do not affect it, while the object a getter returns is the live configuration. A measurement never modifies the caller's arrays or the configured structure, sensor or limits, and the metadata it returns describe exactly the request and the configuration used, as copies that later changes or measurements do not alter.",
  ["histories", "inputs"], "all sequences of assignments, in-place changes through getters, caller-side mutations and measurements",
  "Tests set each property once; aliasing shows only in sequences of assignment, mutation and measurement.",
  [SIM, S + "_sensor_generic.py", S + "_sensor_scan_sensor_generic.py"],
  [("copying setters", "Simulation property setters"), ("metadata", "Simulation.measure / measure_sensor_scan")],
  ["Simulation getters", "metadata dict"], [("configuration attributes", "private copies held by the simulation")])

p("C10", "Undistorted measurements do not depend on history",
  "Without distortions, the result of a measurement is a function of the current configuration and the request alone: any earlier sequence of CSD measurements, sensor scans, refused requests or reverted configuration changes leaves it bit-identical to the result of a freshly created simulation. Configuration changes that stay (through the setters of the simulation, the structure, the sensor, its peaks and barriers) are fully effective in the next measurement: the result equals that of a fresh process in which only the resulting configuration ever existed. Two simulations created from the same configuration objects never influence each other.",
  ["histories"], "all operation sequences up to the bound over measurements of different shape and kind, refused requests and configuration changes",
  "State left behind by one measurement (cached voltages, temporarily moved peaks) shows only in a later one; tests measure once per object.",
  [SIM, S + "_sensor_scan_sensor_generic.py", S + "_sensor_generic.py"],
  [("cached sweep voltages/occupations", "SensorScanSensorGeneric.sensor_potential"), ("temporary peak moves", "SensorScanSensorGeneric.sensor_response")],
  ["Simulation.measure", "Simulation.measure_sensor_scan"], [("sensor scan cache", "last voltages and occupations stored in the sensor")])

p("C11", "Distortions act at their stage, in list order, exactly once",
  "A CSD measurement applies the occupation distortions in list order to occupations and labels, then the potential distortions in list order to the sensor potential, then the response distortions in list order to the sensor response, each exactly once per measurement (once per potential for scan-capable sensors), always with the sweep ranges of the two swept gates in g1, g2 order and in the requested direction. A sensor scan applies potential and response distortions in the same way with the sensor-gate ranges and leaves the label masks undistorted. The structure source handed to an occupation distortion yields ideal data with all earlier distortions of the list re-applied in frozen form.",
  ["configurations", "inputs", "histories"], "all distortion lists up to length 3 per stage, both measurement kinds, 1D/2D, all directions, repeated measurements",
  "Tests use at most one distortion of a kind at a time with random strengths; order, multiplicity and the passed ranges cannot be told from one random image.",
  [SIM, D + "_distortion_interfaces.py"], [("distortion loops", "Simulation.measure / measure_sensor_scan"), ("frozen structure source", "generate_csd_with_noise in Simulation.measure")],
  ["custom distortion objects", "Simulation.measure", "Simulation.measure_sensor_scan"])

p("C12", "An inactive distortion changes nothing and every measurement decides anew",
  "A distortion with an activation ratio decides at every measurement, with probability equal to the ratio and independently of earlier measurements, whether it acts; it then reports that decision. If it decides not to act, the data are exactly what they are without it; re-applying it in frozen form repeats the last decision without drawing again. A ratio of 0 never acts and a ratio of 1 always acts.",
  ["histories", "inputs", "configurations"], "all activation outcomes over sequences of measurements, all distortion kinds with a ratio, lists of several",
  "The outcomes are random; tests see whichever outcome the generator happens to produce.",
  [D + "_dot_jumps.py", D + "_random_telegraph_noise.py", SIM], [("activation draw", "noise_function of OccupationDotJumps and RandomTelegraphNoise")],
  ["activated property", "measured arrays"])

p("C13", "Dot jumps shift the whole structure rigidly within blocks",
  "Along the configured gate axis a dot jump divides the swept range into blocks that alternate between unshifted and shifted, starting unshifted at the low-voltage end; within a block both dot occupations and the label mask are those of the structure a constant whole number of pixels further down in that gate's voltage, regardless of sweep direction and of the other gate. Voltages below the swept window are filled with the real structure there, distorted by the earlier occupation distortions of the list. Block lengths and jump heights are exactly those the random generator delivered.",
  ["inputs", "configurations", "histories"], "all generator answers (block lengths, heights) up to the bound x axis x directions x 1D/2D x window shapes",
  "Jumps are random and rare (default ratio 1 %); tests compare one seeded outcome with ascending sweeps.",
  [D + "_dot_jumps.py", SIM], [("jump generation and application", "OccupationDotJumps.noise_function, dot_jumps_blockwise"), ("out-of-window data", "generate_csd callback")],
  ["OccupationDotJumps.noise_function", "Simulation.measure", "dot_jumps_blockwise"])

p("C14", "Distortion strengths are defined in volts, independent of the pixel grid",
  "Lengths of telegraph bursts and dot-jump blocks, dot-jump heights and transition blur widths given in volts are converted to pixels with the pixel density (pixels per volt) of the gate along which they act: the number of pixels requested for a gate divided by the swept range of that same gate, whatever the sweep direction. Multiplying the resolution by k multiplies the pixel values by k, and the resolution of the other gate has no influence on dot jumps and blurring. Where both gates count, the rule is fixed: a 1D sweep of both gates over different ranges blurs with the denser gate and scales telegraph noise by the larger range, a 2D image scales telegraph noise by the denser axis. A 1D sweep in which the affected gate is not swept is still measurable.",
  ["inputs", "configurations"], "all resolutions (square or not), ranges, directions, axes and distortion kinds",
  "The README promises it, but tests use square images, where exchanging the two densities is invisible.",
  [D + "_dot_jumps.py", D + "_transition_blurring.py", D + "_random_telegraph_noise.py"],
  [("volt-to-pixel scaling", "noise_function of the three distortion families")],
  ["requests made to the random generator", "blurred occupations"])

p("C15", "Blurring smooths along the sweep only and leaves labels alone",
  "Transition blurring replaces both dot occupations by their convolution with a normalised symmetric Gaussian or Fermi-Dirac kernel of the sampled width along the swept (g1) direction of each line, or along the sweep in 1D, with lines mirrored at their ends: lines do not mix, constant stretches and the range of values are preserved and labels are untouched. A width of zero changes nothing. Re-application in frozen form reuses the last sampled width, which is the one reported.",
  ["inputs", "configurations", "histories"], "all small occupation patterns, widths, window shapes, directions, sampled-width histories",
  "Tests compare a single blurred image; kernel normalisation, axis and frozen re-use hold for all patterns and histories.",
  [D + "_transition_blurring.py", U + "_fermi_filter1d.py"], [("filters", "OccupationTransitionBlurringGaussian/FermiDirac.noise_function, fermi_filter1d")],
  ["noise_function", "latest_sigma"])

p("C16", "Telegraph noise is a piecewise constant offset in measurement order",
  "Random telegraph noise adds to the signal, in the order in which pixels are measured (line by line along g1), an offset that alternates between stretches of zero and stretches of one constant burst height, starting with zero; stretch lengths and burst heights are those delivered by the random generator for the configured length, mean height and spread. The added offset does not depend on the signal, every pixel is covered, and the input array is not modified.",
  ["inputs", "histories"], "all generator answers up to the bound x image shapes x both stages",
  "The outcome is random; tests compare one seeded run.",
  [D + "_random_telegraph_noise.py"], [("burst generation", "random_telegraph_noise, RandomTelegraphNoise.noise_function")],
  ["noise_function", "random_telegraph_noise"])

p("C17", "White and pink noise are additive, scaled and reported",
  "White and pink noise add to every pixel a random value that is independent of the signal and proportional to the configured strength; a strength of zero leaves the data unchanged and the input array is never modified. White noise draws one independent normal value per pixel; pink noise is one correlated sequence in measurement order, so that only its length, not the image shape, matters, and its power falls off as 1/f above the minimum frequency. The strength reported afterwards is the one that was used for the last measurement.",
  ["inputs", "histories"], "all generator answers from the alphabet, image shapes, strengths (fixed or sampled), measurement sequences",
  "Tests compare one seeded noisy image.",
  [D + "_white_noise.py", D + "_pink_noise.py"], [("noise generation", "white_gaussian_noise, pink_gaussian_noise")],
  ["noise_function", "latest_sigma"])

p("C18", "Parameter samplers never leave their range and report what they used",
  "Whatever numbers the random generator delivers, a sampled parameter lies within the total range given at construction, and within one fixed sub-range of the requested width, drawn once at construction, if narrowing was requested (a request at least as wide as the total range warns and uses the total range). The value is the first draw of the configured distribution that lies in the range, and it is the value reported as last sample until the next sampling; nothing is reported before the first. Each measurement that uses a sampled strength draws exactly one new value.",
  ["inputs", "histories"], "all generator answers from an alphabet around the range borders x ranges x narrowing x sampling sequences",
  "Rejection sampling depends on the random answers; tests check a few thousand draws of a well-behaved generator.",
  [U + "_parameter_sampling.py"], [("rejection sampling", "sample_parameter"), ("narrowing", "constructors")],
  ["sample_parameter", "last_sample"])

p("C19", "Seeded simulations are reproducible and isolated",
  "Simulations built from equal configurations whose distortions carry equally seeded generators return identical results for identical request sequences. Passing distortions to a simulation copies their generators, so neither another simulation nor the caller's generator is influenced, successive measurements of one simulation draw fresh noise, and a copy of a simulation continues exactly like the original.",
  ["histories", "configurations"], "all request sequences up to the bound, distortion sets, and interleavings of two simulations",
  "Interference between objects shows only in interleaved histories; tests use one object.",
  [SIM, D + "_dot_jumps.py", D + "_random_telegraph_noise.py", D + "_white_noise.py", D + "_pink_noise.py", U + "_parameter_sampling.py"],
  [("copying setters", "Simulation distortion setters"), ("generator use", "distortion noise functions")],
  ["Simulation.measure", "Simulation.measure_sensor_scan"])

p("C20", "The CSD sensor signal is the sum of its peaks at a linear potential",
  "The sensor potential of a pixel is the offset plus the lever-arm weighted sum of the two dot occupations and the two gate voltages of that pixel, and the signal is the sum of all configured Gaussian or Lorentzian peaks at that potential, or the potential itself when no peak is configured. Each peak has its stated centre, width, height and base value, attains base plus height at its centre and decays symmetrically to the base value. Supplied peaks and lever arms are copied, and unsupported ones are refused with a ValueError.",
  ["inputs", "configurations"], "all occupations, voltages, lever arms, peak lists (kind, number, order) over small domains; 1D/2D, directions",
  "Tests evaluate the default sensor on stored arrays.",
  [S + "_sensor_generic.py", S + "_sensor_peak_gaussian.py", S + "_sensor_peak_lorentzian.py"],
  [("potential", "SensorGeneric.sensor_potential"), ("response", "SensorGeneric.sensor_response"), ("peaks", "sensor_function of the peaks")],
  ["SensorGeneric", "Simulation.measure"])

p("C21", "The scan-capable sensor combines dot and barriers like series resistors",
  "For every pixel the three potentials (sensor dot, barrier 1, barrier 2) are the respective offset plus the lever-arm weighted occupations, plunger voltages and sensor-gate voltages of that pixel, fixed voltages counting as constant and missing voltages as zero. The signal is the series-conductance combination of the summed sensor peaks (raised to the final rise, aligned to where both barriers become fully conductive, if one is configured) and the two barrier conductances, and is zero if all vanish; it never exceeds any of the three conductances. Sweeping plunger and sensor gates at once is refused. Lever arms, offsets and peaks are copied, so that sensors share them neither with the caller nor with each other.",
  ["inputs", "configurations"], "all small voltage/occupation/lever-arm/peak/barrier/final-rise settings; CSDs and sensor scans; 1D/2D",
  "Tests compare stored scans of one configuration.",
  [S + "_sensor_scan_sensor_generic.py", S + "_sensor_rise_glf.py"],
  [("potentials", "SensorScanSensorGeneric.sensor_potential"), ("series combination and final rise", "SensorScanSensorGeneric.sensor_response")],
  ["SensorScanSensorGeneric", "Simulation.measure_sensor_scan", "Simulation.measure"])

p("C22", "Sensor-scan labels agree with the physical state of each pixel",
  "The conduction label of a sensor-scan pixel is 0 unless both barrier potentials exceed their pinch-off value, 2 if moreover the sensor-dot potential exceeds its value at the gate voltages where both barriers become fully conductive, and 1 otherwise. A Coulomb-peak label k appears only on pixels with conduction label 1 and marks, per measured line, the pixel at which the (deformed) centre of the k-th configured peak is approached most closely, and a peak that is not reached within the line leaves no label. Labels do not depend on distortions.",
  ["inputs", "configurations", "histories"], "all plunger voltages, occupations, windows, directions, 1D/2D, peak orders, deformations",
  "Tests compare stored label images of one configuration with sorted peaks.",
  [S + "_sensor_scan_sensor_generic.py", SIM], [("labels", "SensorScanSensorGeneric.get_sensor_scan_labels"), ("label call", "Simulation.measure_sensor_scan")],
  ["Simulation.measure_sensor_scan"])

p("C23", "Barrier functions rise monotonically and their thresholds are exact",
  "A generalised-logistic barrier takes the documented value at every potential, runs between its asymptotes, and reaches the configured percentage of its height exactly at the reported pinch-off and fully-conductive potentials, also after any parameter is changed and for falling curves. The inverse logistic function undoes the logistic function wherever the latter is invertible, a combined barrier is the sum of its parts, a final rise is the same curve moved so that it reaches its percentage at the potential it is asked to, and invalid parameters are refused with a ValueError.",
  ["inputs", "configurations", "histories"], "all parameter combinations and potentials over the grid, sequences of parameter changes",
  "Tests evaluate a few parameter sets.",
  [S + "barrier_function/_barrier_function_glf.py", S + "barrier_function/_barrier_function_multi_glf.py", S + "_sensor_rise_glf.py", U + "_generalized_logistic_function.py"],
  [("logistic function and inverse", "glf / inverse_glf / multi_glf"), ("thresholds", "BarrierFunctionGLF.pinch_off / fully_conductive")],
  ["BarrierFunctionGLF", "BarrierFunctionMultiGLF", "glf", "inverse_glf", "multi_glf"])

p("C24", "Peak deformations bend only their own peak and leave the sensor unchanged",
  "In a sensor scan a deformed peak is evaluated with its centre moved according to the signed distance of the pixel's sensor-gate voltages from the line through the double pinch-off point along the direction of the sensor-dot lever arms: by a circle of the given radius (sagging towards lower potential for a positive radius, constant beyond it) or by a straight line at the given angle. Peaks without a deformation, points on that line and scans of the plunger gates are unaffected, and the configured peak centres are the same before and after a measurement. A deformed measurement equals, pixel by pixel, one in which the peak is configured at its moved centre. Sensors created from the same deformation objects do not influence each other.",
  ["inputs", "configurations", "histories"], "all deformation kinds, radii/angles of both signs, peak subsets, windows, 1D/2D, plunger voltages and occupations",
  "Tests check the moved centre for a few distances; the combination with occupations, peak subsets and repeated measurements is open.",
  [S + "_sensor_scan_sensor_generic.py", S + "deformation/_sensor_peak_deformation_circle.py", S + "deformation/_sensor_peak_deformation_linear.py"],
  [("moved centre", "calc_mu of the deformations"), ("deformed response", "SensorScanSensorGeneric.sensor_response / _peak_func"), ("pinch-off point", "_calc_point_from_barrier_potentials")],
  ["Simulation.measure_sensor_scan", "SensorScanSensorGeneric.sensor_response"])

p("C25", "Randomly sampled configurations are valid and inside the documented ranges",
  "Whatever the random generators deliver, a sampled random-variation configuration can be used to create a simulation, which measures the announced plunger window completely with 10 or more pixels per gate (and, for the sensor-scan type, the announced sensor window) with finite results. Every transition curve is the previous one moved by the same vector, lies above it, and the curves cover the whole window. All parameters stay inside their preset ranges including the relations between them (angle between the lead transitions, direction and length of the interdot vector, length relative to width, distance of neighbouring peaks, heights and offsets within 20 % of the first peak, lever arms relative to each other; barriers pinch off and the first peak begins at one common base point; the final rise ends 5 % above the largest response). Requesting the steepest point sets the sensor offset to the potential with the largest slope of the response. The quality multiplier shrinks the ranges of lever arms, peak heights, barrier height and distortions as documented; options outside the documented values are refused with a ValueError. Every call delivers a fresh configuration that shares nothing with earlier ones or with the default configurations, which stay unchanged.",
  ["inputs", "configurations"], "generator answers from an alphabet of extreme and central quantiles at every draw, all options of the sampler",
  "Tests do not sample any configuration; the ranges must hold for every random answer.",
  ["simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"],
  [("configuration sampling", "sample_random_variations_v3_config")],
  ["sample_random_variations_v3_config"])

p("C26", "Geometry helpers agree with plane geometry for every input form",
  "Rotation turns points counter-clockwise by the given angle and preserves distances; the signed distance of a point from an oriented line is positive on its right and has the Euclidean magnitude; the below-line test, line-line and line-circle intersections return exactly the geometric answer for every admissible form of line (slope/intercept or vertical/horizontal number), including parallel, identical and tangent cases; arguments without a geometric answer or of an undocumented form are refused with a ValueError. Pixel-to-voltage conversion is linear from the start to the end of the range. Arguments are not modified.",
  ["inputs"], "all configurations of small integer points, lines, circles and angles, in every argument form",
  "Tests cover a few examples; special positions and mixed argument forms are quantified over all inputs.",
  [U + "_linear_algebra.py", U + "_rotate_points.py", U + "_signed_dist_points_line.py", U + "_pixel_volt_transformation.py"],
  [("helpers", "is_point_below_line, line_line_intersection, line_circle_intersection, rotate_points, signed_dist_points_line, pixel_to_volt_1d")],
  ["support_functions"])

p("C27", "Plots show measured data at the voltages where they were measured",
  "The plotting helper draws a 2D measurement as an image whose horizontal axis is g1 and whose vertical axis is g2, so that the value drawn at a voltage pair is the one measured there for every combination of sweep directions and any aspect ratio, and a 1D measurement as a line over the swept voltages. Ticks, labels, units and title are those requested, sorting shows the lowest voltage first (1D: of gate 1), and the data handed in is not changed.",
  ["inputs"], "all sweep directions, shapes and plot options",
  "Plots are not tested numerically.",
  [U + "_plotting.py"], [("plot", "plot_csd")], ["matplotlib axes after plot_csd"])

p("C28", "Resetting the sensor puts the start of the next sweep on the target",
  "After resetting the sensor offset for a sweep, the undistorted sensor potential at the initial voltages of exactly that sweep equals the requested target, for every sweep direction, window, target and earlier offset. Only the sensor offset of the given simulation changes, and resetting again changes nothing.",
  ["inputs", "histories"], "all sweep directions, windows, targets, earlier offsets and sequences of resets and measurements",
  "Tests reset once for one window.",
  [U + "_reset_offset_mu_sens.py"], [("reset", "reset_offset_mu_sens")], ["Simulation.sensor.offset_mu_sens", "Simulation.measure"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
