"""C30: results follow the units of the data.

Every case is computed once as it is and once with the data (c) or the positions (s) in other units.  The factors are
powers of four, so all scaled numbers, and their roots, are exact, and the two computations take the same steps.
"""
import contextlib
import io
import itertools
import logging

import numpy as np

from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.dataclusters import DataClusters
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peakstability import PeakStability
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, find_qmax, resample, stdratio
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseError
from mc.harness import Check, Scenario, Violation, ensure

EV = {"AIC": AIC, "AICc": AICc}
FACTORS = [(4.0, 1.0), (4.0 ** -14, 1.0), (1.0, 4.0), (1.0, 4.0 ** -9), (4.0 ** 15, 4.0 ** 6)]
QMAX = 20.0


def func(case, s):
    f = (Gaussian if case["func"] == "gauss" else GaussianOverR)(0.7 * s)
    return TerminationRipples(f, QMAX / s) if case.get("tr") else f


def units(case, c, s):
    """What position, width and area are multiplied by."""
    return np.array([s, s, c * s * (s if case["func"] == "gor" else 1.0)])


def data(case, c, s):
    x = 1.0 + np.arange(case.get("n", 56)) / 16.0
    f = func(dict(case, tr=False), 1.0)
    y = 0.0 * x
    for p in case["peaks"]:
        y = y + f.actualize(list(p), "pwa").value(x)
    dy = 0.02 * max(1.0, y.max()) * (1.0 + 0.25 * np.cos(x))
    k = np.arange(len(x))
    y = y + case.get("level", 0.4) * dy * (((k * case["noise"] + 3) % 13) - 6) / 6.0
    if case.get("bl") in ("fixed", "line"):
        y = y + 0.25 - 0.125 * x
    return x * s, y * c, dy * c


def baseline(case, c, s):
    kind = case.get("bl")
    if kind == "fixed":
        return Baseline(Polynomial(1), [-0.125 * c / s, 0.25 * c], free=[False, False])
    if kind == "line":
        return Baseline(Polynomial(1), [-0.13 * c / s, 0.26 * c])
    return Polynomial(-1).actualize([], "internal")


def setup(case, c, s):
    x, y, dy = data(case, c, s)
    pdf = case["kind"].startswith("pdf")
    pe = PDFPeakExtraction() if pdf else PeakExtraction()
    pe.setdata(x, y, None, dy)
    kw = {"pf": [func(case, s)], "cres": 0.15625 * s, "effective_dy": dy, "error_method": EV[case["ev"]],
          "baseline": baseline(case, c, s)}
    if case.get("rng"):
        kw["rng"] = [v * s for v in case["rng"]]
    if pdf:
        kw.update(qmax=QMAX / s, nyquist=case["kind"] != "pdfraw", scale=case["kind"] == "pdfscale", supersample=4.0)
    if "init" in case:
        f = func(case, s)
        u = units(case, c, s)
        kw["initial_peaks"] = Peaks([f.actualize(list(np.array(p) * case["init"] * u), "pwa") for p in case["peaks"]])
    pe.setvars(quiet=True, **kw)
    return pe


def look(case, pe, c, s):
    """The result in the units of the original."""
    mc = pe.extracted
    u = units(case, c, s)
    out = {"n": len(mc.model)}
    out["peaks"] = [np.array(p.owner().transform_parameters(p.pars, "internal", "pwa")) / u for p in mc.model]
    out["free"] = [list(map(bool, p.free)) for p in mc.model]
    b = np.array(mc.baseline.pars, float)
    out["bl"] = b * [s / c, 1 / c] if len(b) == 2 else b
    out["r"] = mc.r_data / s
    out["y"] = mc.y_data / c
    out["dy"] = mc.y_error / c
    out["slice"] = (mc.slice.start, mc.slice.stop)
    out["q"] = mc.quality().stat
    out["fit"] = mc.value() / c
    return out


def same(a, b, cmp=1e-4, exact=1e-9):
    ensure(a["n"] == b["n"], "%d peaks in other units, %d otherwise", b["n"], a["n"])
    ensure(a["slice"] == b["slice"] and a["free"] == b["free"], "extent or free parameters differ")
    top = np.max(np.abs(a["y"]), initial=1e-300)
    for k, tol in (("r", 1e-12), ("y", exact), ("dy", exact), ("fit", cmp)):
        ensure(len(a[k]) == len(b[k]) and np.allclose(a[k], b[k], rtol=tol, atol=tol * top), "%s differs in other units", k)
    for p, q in zip(a["peaks"], b["peaks"]):
        ensure(np.allclose(p, q, rtol=10 * cmp, atol=cmp), "peak %s is %s in other units", p, q)
    ensure(np.allclose(a["bl"], b["bl"], rtol=10 * cmp, atol=10 * cmp), "baseline %s is %s in other units", a["bl"], b["bl"])
    ensure(abs(a["q"] - b["q"]) <= cmp * (1 + abs(a["q"])), "quality %s is %s in other units", a["q"], b["q"])


def quiet():
    logging.disable(logging.CRITICAL)


# ------------------------------------------------------------ extraction
def go(case, c, s):
    pe = setup(case, c, s)
    if case["do"] == "extract":
        cov = pe.extract() if case["kind"] != "base" else pe.extract_single()
    else:
        cov = pe.fit() if case["kind"] != "base" else pe.fit_single()
    return pe, cov


def run_extract(case, cov):
    quiet()
    try:
        pe, co = go(case, 1.0, 1.0)
        want = look(case, pe, 1.0, 1.0)
        for c, s in [tuple(case["factor"])] if "factor" in case else FACTORS:
            pe2, co2 = go(case, c, s)
            same(want, look(case, pe2, c, s))
            ensure(np.isclose(pe2.cres, pe.cres * s) and np.allclose(pe2.effective_dy, pe.effective_dy * c)
                   and np.allclose(pe2.rng, np.array(pe.rng) * s), "variables are in other units")
            # uncertainties
            if case["do"] == "fit" and case["kind"] == "base" and co is not None and co.cov is not None:
                u = units(case, c, s)
                for i in range(want["n"]):
                    a, b = (np.array([k.getuncertainty((i, j)) for j in range(3)]) for k in (co, co2))
                    fm = np.array([s, 1.0, u[2]])  # internal format: the width is an angle
                    if np.allclose(np.array(co.model[i].pars) * u, co2.model[i].pars, rtol=1e-3, atol=1e-3 * np.min(u)):
                        fm = u
                    ensure(np.allclose(a * fm, b, rtol=2e-3), "uncertainties %s are %s in other units", a, b / fm)
            cov.trace()
    finally:
        logging.disable(logging.NOTSET)
    return None


ONE = [2.0, 0.3, 1.0]
PEAKS = {0: [], 1: [ONE], 2: [[1.7, 0.25, 0.7], [2.9, 0.4, 1.3]], 3: [[1.6, 0.3, 1.0], [2.6, 0.25, 0.8], [3.6, 0.4, 2.0]]}


def cases_extract(tier):
    thorough = tier != "quick"
    facs = [[f] for f in (FACTORS if thorough else (FACTORS[1], FACTORS[3], FACTORS[4]))]
    for kind, fn, n in itertools.product(("base", "pdf", "pdfraw", "pdfscale"), ("gauss", "gor"), PEAKS):
        for noise in (1, 5) if not thorough else (1, 2, 3, 4, 5, 6):
            for ev in ("AIC", "AICc") if thorough or kind == "base" else ("AIC",):
                for bl in (None, "fixed"):
                    if kind != "base" and (not thorough and (bl or n > 2)):
                        continue
                    if kind == "pdfraw" and bl and n == 0:
                        continue  # nothing but what resampling leaves at the ends of a line
                    for (f,) in facs:
                        yield {"do": "extract", "kind": kind, "func": fn, "peaks": PEAKS[n], "noise": noise, "ev": ev, "bl": bl,
                               "factor": list(f)}


def cases_fit(tier):
    thorough = tier != "quick"
    for kind, fn, n, bl in itertools.product(("base", "pdf", "pdfraw"), ("gauss", "gor"), (1, 2, 3), (None, "fixed", "line")):
        for noise, level in itertools.product((1, 3, 5) if not thorough else range(1, 7), (0.4, 1.5)):
            for rng in (None, [1.25, 4.0]):
                yield {"do": "fit", "kind": kind, "func": fn, "peaks": PEAKS[n], "noise": noise, "ev": "AICc", "bl": bl,
                       "init": [1.005, 1.1, 0.9], "level": level, "rng": rng}


# ------------------------------------------------------------ clusters
EXTENTS = [(0, 40), (22, 40), (0, 14), (8, 30), (26, 40)]
MODELS = [[], [[1.7, 0.25, 0.7]], [[2.0, 0.3, 1.0]], [[3.1, 0.4, 1.3]], [[1.7, 0.25, 0.7], [2.3, 0.4, 1.3]], [[1.6, 0.3, 1.0], [2.2, 0.32, 0.1], [3.1, 0.2, 0.3]]]
FITTING = ["fit", "justified", "all", "contingent", "prune", "augment", "reduce", "join"]
WELL_DETERMINED = [MODELS[1], MODELS[4]]
COPS = ["clean", "fit", "justified", "all", "contingent", "left", "right", "whole", "reduce", "prune", "augment", "join", "estimate", "scaled", "border"]


def new_cluster(case, c, s):
    x = 1.0 + np.arange(40) / 16.0
    f = func(dict(case, tr=False), 1.0)
    y = 0.0 * x
    for p in case["truth"]:
        y = y + f.actualize(list(p), "pwa").value(x)
    dy = 0.0625 * (1.0 + 0.25 * np.cos(x))
    k = np.arange(len(x))
    y = y + 0.3 * dy * (((k * 5 + 3) % 13) - 6) / 6.0
    y = y * (1.0 + case.get("jiggle", 0.0) * np.cos(17.0 * k))
    g, u = func(dict(case, tr=False), s * (1.0 + case.get("jiggle", 0.0))), units(case, c, s)
    u = u * (1.0 + case.get("jiggle", 0.0) * np.array([0.5, 0.25, 0.75]))
    m = Peaks([g.actualize(list(np.array(p) * u), "pwa", removable=j != case.get("keep")) for j, p in enumerate(case["model"])])
    bl = Baseline(Polynomial(1), [-0.03125 * c / s, 0.0625 * c]) if case["bl"] else None
    return ModelCluster(m, bl, x * s, y * c, dy * c, slice(*case["extent"]), EV[case["ev"]], [g])


def cluster_op(o, mc, case, c, s):
    n = len(mc.r_data)
    lo, hi = mc.slice.indices(n)[:2]
    u = units(case, c, s)
    g = mc.peak_funcs[0]
    if o == "clean":
        return mc.cleanfit()
    if o == "fit":
        return mc.fit() is None
    if o == "justified":
        return mc.fit(justify=True) is None
    if o == "all":
        return mc.fit(fitbaseline=True, estimate=False) is None
    if o == "contingent":
        return mc.contingent_fit(6, 1.2) is None
    if o == "left":
        return mc.change_slice(slice(max(0, lo - 5), hi))
    if o == "right":
        return mc.change_slice(slice(lo, min(n, hi + 6)))
    if o == "whole":
        return mc.change_slice(slice(0, n))
    if o == "reduce":
        r = mc.reduce_to(mc.r_data[hi - 1], mc.y_data[hi - 1])
        return None if r is None else bool(r) if isinstance(r, (bool, np.bool_)) else True
    if o == "prune":
        return mc.prune()
    if o == "augment":
        extra = mc.copy()
        extra.model = Peaks([g.actualize(list(np.array(p) * u), "pwa") for p in ([1.65, 0.25, 0.6], [2.35, 0.4, 1.2])])
        return mc.augment(extra)
    if o == "join":
        if hi - lo < 8:
            return "small"
        a, b = mc.copy(), mc.copy()
        a.change_slice(slice(lo, (lo + hi) // 2))
        b.change_slice(slice((lo + hi) // 2, hi))
        j = ModelCluster.join_adjacent(a, b)
        return len(j.model), j.never_fit, [np.array(p.owner().transform_parameters(p.pars, "internal", "pwa")) / u for p in j.model]
    if o == "estimate":
        p = mc.estimatepeak()
        return None if p is None else True
    if o == "scaled":
        return mc.model.match_at(2.0 * s, 0.75 * c) if len(mc.model) else None
    return mc.quality().stat is None


def cluster_state(mc, case, c, s):
    u = units(case, c, s)
    return {"n": len(mc.model), "slice": (mc.slice.start, mc.slice.stop), "free": [list(map(bool, p.free)) for p in mc.model],
            "peaks": [np.array(p.owner().transform_parameters(p.pars, "internal", "pwa")) / u for p in mc.model],
            "bl": np.array([] if mc.baseline is None else mc.baseline.pars * np.array([s / c, 1 / c])),
            "r": mc.r_cluster / s, "y": mc.y_cluster / c, "dy": mc.error_cluster / c, "fit": mc.value() / c,
            "q": mc.quality().stat if mc.quality().stat is not None and np.isfinite(mc.quality().stat) else 0.0,
            "never": bool(mc.never_fit), "size": mc.size, "last": mc.last_fit_size}


def cluster_history(case, c, s):
    mc = new_cluster(case, c, s)
    seen = [(None, cluster_state(mc, case, c, s))]
    for o in case["ops"]:
        r = attempt(lambda: cluster_op(o, mc, case, c, s))
        seen.append((r, cluster_state(mc, case, c, s)))
    return seen


def same_history(case, ref, seen, exact=1e-9):
    for o, (a, sa), (b, sb) in zip(["making"] + case["ops"], ref, seen):
        if isinstance(a, tuple) and isinstance(b, tuple):
            ensure(a[:2] == b[:2] and all(np.allclose(p, q, rtol=1e-2, atol=1e-3) for p, q in zip(a[2], b[2])),
                   "%s gives %s, in other units %s", o, a, b, where=o)
        else:
            ensure(a == b, "%s gives %s, in other units %s", o, a, b, where=o)
        same(sa, sb, 1e-3, exact)
        ensure((sa["never"], sa["size"], sa["last"]) == (sb["never"], sb["size"], sb["last"]),
               "state of the cluster after %s differs in other units", o, where=o)


def run_clusters(case, cov):
    quiet()
    try:
        ref = cluster_history(case, 1.0, 1.0)
        well_posed = None
        for c, s in FACTORS[1:]:
            seen = cluster_history(case, c, s)
            try:
                same_history(case, ref, seen)
            except Violation:
                # a tie, or parameters the data do not determine: then rounding of the data decides as well
                if well_posed is None:
                    well_posed = True
                    for j in (1e-14, 1e-13, 1e-12, 1e-11, 1e-10, -1e-12, -1e-11, -1e-10, 1e-9, -1e-9, 1e-8, -1e-8):
                        try:
                            same_history(case, ref, cluster_history(dict(case, jiggle=j), 1.0, 1.0), 1e-5)
                        except Violation:
                            well_posed = False
                if well_posed:
                    raise
            cov.trace(len(case["ops"]))
    finally:
        logging.disable(logging.NOTSET)
    return None


def cases_clusters(tier):
    thorough = tier != "quick"
    for k in (1, 2) if not thorough else (1, 2, 3):
        for ops in itertools.product(COPS, repeat=k):
            for i, (model, extent) in enumerate(itertools.product(MODELS, EXTENTS)):
                fits = [o in FITTING for o in ops]
                if any(fits) and (fits.count(True) > 1 or model not in WELL_DETERMINED or extent not in EXTENTS[:1] or set(ops) & {"estimate", "scaled"}):
                    continue    # a fit that starts far from what the data determine goes where rounding leads it
                if k == 2 and not any(fits) and not thorough and (i + COPS.index(ops[0]) + COPS.index(ops[1])) % 6:
                    continue
                if k == 3 and not any(fits) and (i + sum(COPS.index(o) * 7 ** j for j, o in enumerate(ops))) % 30:
                    continue
                yield {"func": "gauss" if i % 2 else "gor", "truth": MODELS[4], "model": model, "extent": list(extent), "ops": list(ops),
                       "bl": i % 3 == 0, "ev": "AIC" if i % 4 < 2 else "AICc", "keep": 0 if i % 5 == 0 else None}


# ------------------------------------------------------------ clusters, estimates, defaults
def run_parts(case, cov):
    quiet()
    try:
        for c, s in FACTORS:
            small(case, c, s)
            cov.trace()
    finally:
        logging.disable(logging.NOTSET)
    return None


def attempt(f):
    try:
        return f()
    except SrMiseError as e:
        return type(e).__name__
    except (ValueError, NotImplementedError) as e:
        return type(e).__name__


def near(a, b, what, rtol=1e-9, atol=0.0):
    if isinstance(a, str) or isinstance(b, str):
        ensure(isinstance(a, str) and isinstance(b, str) and a == b, "%s: %s, in other units %s", what, a, b)
        return
    ensure(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True), "%s: %s, in other units %s", what, a, b)


def small(case, c, s):
    y = np.array(case["y"], float)
    x = np.cumsum([0.5] + [0.25 * (1 + (case["grid"] * k) % 3) for k in range(1, len(y))])
    if len(y) >= 2:
        for res in (0.0, 0.25, 0.5, 1.0):
            a, b = DataClusters(x, y, res), DataClusters(x * s, y * c, res * s)
            for u, v in itertools.zip_longest(a, b):
                ensure(u is not None and v is not None and np.array_equal(u.clusters, v.clusters), "clusters differ in other units")
    dc = dict(case)
    for name in ("gauss", "gor"):
        dc["func"] = name
        for tr in (False, True):
            dc["tr"] = tr
            if tr and len(set(np.diff(x))) > 1:
                continue
            f, g = func(dc, 1.0), func(dc, s)
            u = units(dc, c, s)
            a = attempt(lambda: np.array(f.transform_parameters(f.estimate_parameters(x, y), "internal", "pwa")))
            b = attempt(lambda: np.array(g.transform_parameters(g.estimate_parameters(x * s, y * c), "internal", "pwa")) / u)
            near(a, b, "estimate of %s" % name, 1e-7, 1e-7)
        # value, scaling at a point and formats
        f, g = func(dict(dc, tr=False), 1.0), func(dict(dc, tr=False), s)
        for par in ([0.8, 0.3, 1.5], [1.2, 0.6, 0.25]):
            p, q = f.actualize(par, "pwa"), g.actualize(list(np.array(par) * units(dc, c, s)), "pwa")
            near(p.value(x), q.value(x * s) / c, "value", 1e-9, 1e-12)
            near(p["width"], q["width"], "internal width", 1e-9, 1e-9)
            for k in (0.5, 2.0):
                ra, rb = p.scale_at(1.0, k) if hasattr(p, "scale_at") else None, q.scale_at(1.0 * s, k) if hasattr(q, "scale_at") else None
                near(np.array(ra is None or ra, float), np.array(rb is None or rb, float), "scaling")
                near(p.value(x), q.value(x * s) / c, "scaled value", 1e-7, 1e-9)
    for deg in (0, 1):
        fn = Polynomial(deg)
        a = attempt(lambda: np.array(fn.estimate_parameters(x, y), float))
        b = attempt(lambda: np.array(fn.estimate_parameters(x * s, y * c), float) * [s / c, 1 / c][1 - deg:])
        near(a, b, "estimate of the baseline", 1e-9, 1e-12)
    # defaults
    if len(y) >= 3:
        for cls in (PeakExtraction, PDFPeakExtraction):
            for dy in (None, 0.125):
                out = []
                for (cc, ss) in ((1.0, 1.0), (c, s)):
                    pe = cls()
                    pe.setdata(x * ss, y * cc, None, None if dy is None else dy * cc * np.ones(len(x)))
                    if cls is PDFPeakExtraction:
                        pe.setvars(quiet=True, qmax=8.0 / ss)
                    pe.defaultvars()
                    out.append((pe.cres / ss, list(np.array(pe.effective_dy) / cc), list(np.array(pe.rng) / ss)))
                near(out[0][0], out[1][0], "resolution by default")
                near(out[0][1], out[1][1], "uncertainties by default")
                near(out[0][2], out[1][2], "range by default")
        new = np.arange(x[0], x[-1], 0.3125)
        near(resample(x, y, new), resample(x * s, y * c, new * s) / c, "resampled data", 1e-9, 1e-12)
        near(attempt(lambda: stdratio(y)), attempt(lambda: stdratio(y * c)), "ratio of deviations", 1e-9)
    # quality
    for ev in EV.values():
        f = Gaussian(0.7)
        q = []
        for (cc, ss) in ((1.0, 1.0), (c, s)):
            m = Peaks([Gaussian(0.7 * ss).actualize([0.8 * ss, 0.3 * ss, 1.5 * cc * ss], "pwa")])
            mc = ModelCluster(m, None, x * ss, y * cc, 0.25 * cc * np.ones(len(x)), None, ev, [f])
            q.append(attempt(lambda: mc.quality().stat))
            q.append(attempt(lambda: bool(mc.is_empty()) if hasattr(mc, "is_empty") else True))
        near(q[0] if q[0] is not None else "None", q[2] if q[2] is not None else "None", "quality", 1e-9)


def cases_parts(tier):
    vals = (-1.0, 0.0, 0.5, 2.0) if tier == "quick" else (-1.0, 0.0, 0.5, 2.0, 3.0)
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for y in itertools.product(vals, repeat=n):
            for grid in (0, 1):
                yield {"y": list(y), "grid": grid}
    for k in range(6):
        yield {"y": [((k * j + 2) % 7) - 1.0 for j in range(30)], "grid": 0}
        yield {"y": [((k * j + 2) % 7) - 1.0 for j in range(30)], "grid": 1}


# ------------------------------------------------------------ qmax
def run_qmax(case, cov):
    quiet()
    try:
        n = case["n"]
        r = 0.0625 * (1 + np.arange(n)) if case["start"] else 0.0625 * np.arange(n)
        y = 0.0 * r
        for q, a in case["waves"]:
            y = y + a * np.sin(q * r)
        want = attempt(lambda: find_qmax(r, y)[0])
        for c, s in FACTORS:
            got = attempt(lambda: find_qmax(r * s, y * c)[0])
            if not isinstance(got, str):
                got = got * s
            near(want, got, "qmax", 1e-9)
            cov.trace()
    finally:
        logging.disable(logging.NOTSET)
    return None


def cases_qmax(tier):
    for n in (64, 100, 161) if tier == "quick" else (64, 100, 128, 161, 256, 333):
        for start in (0, 1):
            for q in (3.0, 7.5, 12.0, 20.0):
                for k in (1, 2, 3):
                    yield {"n": n, "start": start, "waves": [[q * (j + 1) / k, 1.0 / (j + 1)] for j in range(k)]}


# ------------------------------------------------------------ analyses
def run_stability(case, cov):
    quiet()
    try:
        ref = None
        for c, s in [(1.0, 1.0)] + FACTORS[: 4 if case["tier"] == "quick" else 5]:
            pe = setup(case, c, s)
            st = PeakStability()
            st.setppe(pe)
            with contextlib.redirect_stdout(io.StringIO()):
                st.run([e * c for e in case["err"]])
            res = [(len(m), [np.array(p.owner().transform_parameters(p.pars, "internal", "pwa")) / units(case, c, s) for p in m], dr / s, e / c)
                   for e, m, b, dr in st.results]
            ms = MultimodelSelection()
            ms.setppe(pe)
            ms.results = st.results
            ms.setdgs([e * c for e in case["err"]]) if hasattr(ms, "setdgs") else None
            with contextlib.redirect_stdout(io.StringIO()):
                ms.makeaics([e * c for e in case["err"]], pe.x[2] - pe.x[1])
            ms.makeaicprobs()
            probs = np.array([ms.aicprobs[k] for k in sorted(ms.aicprobs)])
            if ref is None:
                ref = (res, probs)
                continue
            for (n, m, dr, e), (n2, m2, dr2, e2) in zip(ref[0], res):
                ensure(n == n2, "%d peaks at uncertainty %g, %d in other units", n, e, n2)
                ensure(abs(dr - dr2) < 1e-9 and abs(e - e2) < 1e-12, "sampling or uncertainty in other units")
                for p, q in zip(m, m2):
                    ensure(np.allclose(p, q, rtol=1e-3, atol=1e-4), "peak %s is %s in other units", p, q)
            near(ref[1], probs, "probabilities", 1e-3, 1e-4)
            cov.trace()
    finally:
        logging.disable(logging.NOTSET)
    return None


def cases_stability(tier):
    for fn, n, noise in itertools.product(("gauss", "gor"), (1, 2), (1, 5) if tier == "quick" else (1, 2, 3, 4, 5)):
        yield {"kind": "pdf", "func": fn, "peaks": PEAKS[n], "noise": noise, "ev": "AIC", "err": [0.03125, 0.0625, 0.125], "tier": tier}


CHECK = Check(
    "C30",
    "exploration",
    [
        Scenario("extract", cases_extract, run_extract, timeout=300, doc="extraction of rippled data, by kind, function, number of peaks and factor"),
        Scenario("fit", cases_fit, run_extract, timeout=300, doc="fits of rippled data, with their uncertainties"),
        Scenario("clusters", cases_clusters, run_clusters, timeout=300,
                 doc="histories of up to 2 (3) operations on a cluster, by model and extent, peaks inside and outside"),
        Scenario("parts", cases_parts, run_parts, doc="clusters, estimates, values, defaults, resampling and quality of all small data"),
        Scenario("qmax", cases_qmax, run_qmax, doc="the maximum momentum transfer of sums of waves"),
        Scenario("stability", cases_stability, run_stability, timeout=300, doc="analyses of stability and probabilities of models"),
    ],
    rule="each case is computed in its own units and in others; results must agree after conversion",
    assumptions=["factors are powers of four, so that conversion is exact", "ripples on the data are below the uncertainty"],
)
