"""Developer tool: DESIGN.md from tools/design_head.md, the check modules, tools/design_tail.md and seeded/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo"]
WHY = {
 "C01": ("every measurement is repeated for all directions and compared, reversed, with the ascending one; absolute orientation (index 0 = first voltage) is decided by C02/C04/C20", "tests fix one ascending sweep per case"),
 "C02": ("rows, columns, diagonals, every second pixel and single pixels of a 2D scan are measured on their own and must agree", "no test relates two measurements of different shape; a swapped axis is invisible on square grids"),
 "C03": ("per pixel: sum of occupations integral, label = charge, curve distance; per neighbour pair: the higher one is labelled", "stored masks of a few windows cannot show a leaking or misplaced label"),
 "C04": ("per pixel: number of reference curves (closed form, rotated) at or below the pixel's voltages; windows above the last curve must raise IndexError", "leaks between regions and undefined regions appear for particular windows only"),
 "C05": ("closed-form piecewise line / quadratic Bezier (solved analytically, independent of the code's root finding); every selection and order of abscissae must give the values of each abscissa alone", "tests evaluate ordered dense ranges of a few curves"),
 "C06": ("closed form of the sum of N unit steps in the coordinates of the first interdot line, for every pixel; the CDF helpers against math.erf/atan/exp", "images of a few windows; widths and factors are not separated by them"),
 "C07": ("a decision table written from the documentation; accepted requests must also return data of the right shape, refused ones leave the simulation unchanged", "exhaustive combination of 13 dimensions up to 3 (4) deviations"),
 "C08": ("as C07 for sensor scans; accepted scans are compared pixel by pixel with the reference sensor at the occupation of the structure at the plunger voltages", "as C07"),
 "C09": ("model of the nine attributes (value in force, validity, copy semantics), compared through all getters after every operation and through a measurement at the end of the history", "aliasing shows only in particular orders of assignment, in-place change and measurement"),
 "C10": ("a freshly built simulation with the final configuration, bit-identical", "every history of the bounded alphabet instead of two calls in a row"),
 "C11": ("non-commuting stub distortions that record their calls; expected composition computed from the reference", "order, multiplicity, ranges and the structure source are not observable with real (random) distortions"),
 "C12": ("activation is a choice point; data of an inactive distortion must equal the data without it, frozen calls repeat the last outcome, number and parameters of the draws are checked", "statistical tests of a ratio cannot see a decision carried over to the next measurement"),
 "C13": ("reference: explicit pixel lattice, block walk over scripted lengths and heights, look-up in the real structure below the window", "images depend on random draws; tests only assert that something changed"),
 "C14": ("parameters requested from the scripted generator and the widths of blurred steps, against volts x density", "one resolution and one window cannot separate the densities"),
 "C15": ("explicit convolution with mirrored ends (no scipy)", "all patterns of a line, all pairs of neighbouring lines"),
 "C16": ("walk over scripted lengths and heights in measurement order", "every schedule of stretch lengths up to the image size"),
 "C17": ("linearity: response to all unit vectors of normal answers; spectrum of that response", "statistical tests need thousands of samples and see neither shape dependence nor reported strengths"),
 "C18": ("reference sampler: first accepted draw of the scripted sequence", "all placements of draws relative to the borders, incl. rejections, over sequences of samples"),
 "C19": ("a lone simulation with the same request history; caller's generators and numpy's global state compared before and after", "isolation is a property of histories"),
 "C20": ("closed forms, voltages by explicit interpolation", "grid of occupation pairs x directions x shapes x peak lists"),
 "C21": ("reference sensor (three potentials, logistic functions evaluated in logarithms, series conductance), every pixel, relative accuracy also where conductances vanish", "stored images at 3 configurations"),
 "C22": ("reference states per pixel; per line the reference distance to each (deformed) peak", "stored masks; regime borders and directions are not crossed"),
 "C23": ("closed form evaluated in logarithms; thresholds through the function value; histories of parameter changes", "tests check a default barrier"),
 "C24": ("a peak configured at the moved centre; reference distance from the line; configuration compared before and after", "tests store images of one sensor (and thereby pin the two known findings)"),
 "C25": ("preset ranges and relations between parameters, computed from the sampled configuration by the reference geometry; measurement of the whole window", "unseeded p-value tests sample a few configurations; the extremes of each draw are never taken"),
 "C26": ("exact rational arithmetic", "all lines/circles of small lattices incl. every parallel, identical and tangent case"),
 "C27": ("pixels of the drawn artist and tick labels read back and compared with the data at the drawn voltage", "plots are not tested at all"),
 "C28": ("the potential at the first pixel of the sweep measured afterwards", "histories of resets, earlier offsets and distortions"),
}
out = [open(f"{V}/tools/design_head.md").read()]
props = {d["id"]: d for d in map(json.loads, open(f"{V}/properties.jsonl"))}
for p, d in props.items():
    m = importlib.import_module(f"mc.checks.{p.lower()}")
    try:
        c = json.load(open(f"{V}/tools/cost.json"))[p]
    except Exception:
        c = None
    out.append(f"### {p} {d['title']}\n\n* *enumerated*: {m.BOUNDS}\n* *oracle*: {WHY[p][0]}\n* *beyond the tests*: {WHY[p][1]}\n")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("* *assumed / tolerated*: " + "; ".join(m.ASSUMPTIONS) + "\n")
    if c:
        out.append(f"* *quick tier*: {c[0]} executions, {c[1]} transitions, about {c[2]} s\n")
    out.append("\n")
out.append(open(f"{V}/tools/design_tail.md").read())
out.append("| seeded change | property / check | breaks |\n|---|---|---|\n")
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} |\n")
open(f"{V}/DESIGN.md", "w").write("".join(out))
