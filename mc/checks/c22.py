"""C22: sensor-scan labels against the reference state of each pixel."""
import itertools
import numpy as np
from simcats import Simulation
from mc import configs as C, refs, sensors as S
from mc.stubs import Pot, Resp
from mc.checks.c04 import sweep1d
PROPERTY = "C22"
BOUNDS = ("sensors (sorted / unsorted / no peaks, single barrier, axis-parallel barriers, sensor dot coupled to one gate, default) x deformation sets x windows (all regimes, borders "
          "of the regimes) x plunger voltages (none, several occupations) x 2D / 1D shapes x directions x with and without distortions; every pixel and "
          "every measured line")
ASSUMPTIONS = ["a peak within one pixel step beyond the end of a line may or may not be labelled there; where two peaks fall on the same pixel either label "
               "is accepted; a deformed peak whose distance has a local minimum without being reached may be labelled there"]
WIN = [([-.9537, .1531], [-.8519, .2071]), ([-.5093, .1137], [-.6171, .0531]), ([-.7213, -.5987], [-.4517, -.3011]), ([-.3111, -.0917], [-.3047, -.0823]),
       ([-.3511, .1917], [-.9047, -.3823])]
VP = [None, [-.15, -.15], [-.12, -.1], [-.14, -.05]]


def scenarios(tier):
    th = tier == "thorough"
    for n in S.SCAN:
        for df in (None, *S.DEFORM) if n != "toy_nopeak" else (None,):
            for w in range(len(WIN)):
                for vp in VP:
                    for sh in ("2d", "diag", "anti", "g1", "g2"):
                        if n == "toy_vert" and (df and sh in ("2d", "g1") or w not in (0, 2)):
                            continue    # the undeformed potential is constant along the line: every pixel is equally close
                        for d in ((0, 1, 2, 3) if sh == "2d" and (th or w < 2) else (0, 3)):
                            for res in ([[8, 9], [15, 4]] + ([[40, 31]] if th else []) if sh == "2d" else [13] + ([60, 1] if th else [])):
                                yield dict(n=n, df=df, w=w, vp=vp, sh=sh, d=d, res=res)


    for n in S.SCAN:
        for vp in VP[:2]:
            for d in (0, 3):
                for res in ([270, 4], [4, 270], 400):
                    yield dict(n=n, df=None, w=0, vp=vp, sh="2d" if isinstance(res, list) else "diag", d=d, res=res)


def run(sc, ctx):
    c = S.cfg(sc["n"], sc["df"])
    m = S.ScanRef(c)
    r1, r2 = WIN[sc["w"]]
    two = sc["sh"] == "2d"
    if not two:
        r1, r2 = sweep1d(r1, r2, sc["sh"])
    r1, r2 = C.directions(r1, r2, sc["d"])
    res = np.array(sc["res"]) if two else sc["res"]
    csd = C.structure("gaas")
    sim = Simulation(sensor=S.build(c), ideal_csd_config=csd)
    vp = sc["vp"] or (None, None)
    ctx.op()
    _, cond, peaks, _ = sim.measure_sensor_scan(np.array(r1), np.array(r2), *vp, res)
    occ = np.zeros(2)
    if sc["vp"]:
        lo, hi = C.ref("gaas").total_interval(np.array([vp], float))
        if lo[0] != hi[0]:
            return
        occ = C.ref("gaas").occ(np.array([vp], float), int(lo[0]))[0]
    g = refs.grid(r1, r2, sc["res"])
    v = (0., 0.) if sc["vp"] is None else vp
    occs = np.broadcast_to(occ, g.shape)
    pot = m.potentials(g, v, occs)
    fc = m.fc_potential(v, occ)
    ctx.state(cond, peaks)
    margin = np.minimum(np.minimum(np.abs(pot[1] - m.po[0]), np.abs(pot[2] - m.po[1])), np.abs(pot[0] - fc))
    want = np.where((pot[1] > m.po[0]) & (pot[2] > m.po[1]), np.where(pot[0] > fc, 2, 1), 0)
    bad = (cond != want) & (margin > 1e-8)
    ctx.check(cond.shape == want.shape, "shape", f"{cond.shape}")
    ctx.check(not bad.any(), "conduction", lambda: f"{int(bad.sum())} pixels with wrong conduction label; first {np.argwhere(bad)[0]}: {cond[bad][0]} instead of {want[bad][0]}")
    ctx.check((peaks[cond != 1] == 0).all(), "peak-outside", "Coulomb label outside of the oscillation regime")
    n = 0 if c["peaks"] is None else len(c["peaks"])
    dist = m.dist(g, v, occs)
    rows = [()] if not two else [(i,) for i in range(g.shape[0])]
    for r in rows:
        p0, pk, cd, dd = pot[0][r], peaks[r].astype(int), cond[r], dist[r]
        ctx.check(set(np.unique(pk)) <= set(range(n + 1)), "peak-id", lambda: f"labels {np.unique(pk)} with {n} peaks")
        may, must = {}, []
        step = np.abs(np.mean(np.diff(p0))) if len(p0) > 1 else 0.
        for k in range(n):
            f = p0 - m.moved(k, dd)
            a = np.abs(f)
            order = np.argsort(a)
            best = [int(j) for j in order if a[j] < a[order[0]] + 1e-9]
            j = best[0]
            crossing = bool((np.sign(f[:-1]) * np.sign(f[1:]) <= 0).any())
            edge = j in (0, len(p0) - 1)
            if len(p0) > 1 and (crossing or not edge or a[j] < 1.02 * step):
                for b in best:
                    may.setdefault(b, set()).add(k + 1)
            if len(p0) > 1 and crossing and len(best) == 1 and (not edge or a[j] < .9 * step):
                must.append((k + 1, j))
        for j in np.nonzero(pk)[0]:
            ctx.check(int(pk[j]) in may.get(int(j), ()), "peak-misplaced", lambda: f"line {r}: pixel {j} labelled {pk[j]}, closest approach of peaks {may}")
        for k, j in must:
            ctx.check(cd[j] != 1 or pk[j] in may[j], "peak-missing", lambda: f"line {r}: peak {k} is approached most closely at pixel {j}, labels {pk}")
    # labels do not depend on distortions
    sim2 = Simulation(sensor=S.build(c), ideal_csd_config=csd, sensor_potential_distortions=[Pot(.02)], sensor_response_distortions=[Resp(.3)])
    _, cond2, peaks2, _ = sim2.measure_sensor_scan(np.array(r1), np.array(r2), *vp, res)
    ctx.check(np.array_equal(cond, cond2) and np.array_equal(peaks, peaks2), "distorted", "labels depend on distortions")
    ctx.sample = {"scenario": sc, "peaks": sorted(set(peaks.ravel().tolist())), "conduction": sorted(set(cond.ravel().tolist()))}
