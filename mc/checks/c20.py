"""C20: extraction finds the peaks of clean data, and respects what it was given."""
import itertools
import logging

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, resample
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from mc.harness import Check, Scenario, ensure

X = 1.0 + 0.06 * np.arange(60)
FUNC = {"gauss": Gaussian, "gor": GaussianOverR}
QMAX = 20.0


def pwa(p):
    return [float(v) for v in p.owner().transform_parameters(p.pars, "internal", "pwa")]


def peak(f, pars, free=None, removable=True):
    p = f.actualize(pars, "pwa", free=free, removable=removable)
    return p


class Setting:
    """Data and variables of one case."""

    def __init__(self, case):
        self.case = case
        mode = case["mode"]
        self.f = FUNC[case["func"]](0.7)
        self.scale = case.get("scale", 1.0)
        self.true = [[p, w, a * self.scale] for p, w, a in case["peaks"]]
        self.pdf = mode.startswith("pdf")
        shape = TerminationRipples(self.f, QMAX) if self.pdf else self.f
        y = 0.0 * X
        for t in self.true:
            y = y + peak(shape, t).value(X)
        dy = 0.02 * max(self.scale, y.max()) * np.ones(len(X))
        kw = {"pf": [self.f], "cres": case.get("cres", 0.15), "effective_dy": dy, "error_method": AIC}
        if mode == "pdfline":
            kw["baseline"] = Polynomial(1).actualize([-0.31, 0.23], "internal")
            y = y + 0.2 - 0.3 * X
        if mode == "line":
            kw["baseline"] = Baseline(Polynomial(1), [-0.31 * self.scale, 0.23 * self.scale])
            y = y + self.scale * (0.2 - 0.3 * X)
        if mode == "fixedline":
            kw["baseline"] = Baseline(Polynomial(1), [-0.3 * self.scale, 0.21 * self.scale], free=[False, True])
            y = y + self.scale * (0.2 - 0.3 * X)
        if mode == "aicc":
            kw["error_method"] = AICc
        if mode in ("init", "kept") and self.true:
            p, w, a = self.true[0]
            kw["initial_peaks"] = Peaks([peak(self.f, [p + 0.02, 1.05 * w, 0.95 * a] if mode == "init" else self.true[0],
                                              removable=mode == "init")])
        if mode == "both":
            other = GaussianOverR(0.7) if case["func"] == "gauss" else Gaussian(0.7)
            kw["initial_peaks"] = Peaks([peak(other, t) for t in self.true[:1]])
        if self.pdf:
            kw["qmax"] = QMAX
            kw["nyquist"] = mode != "pdfraw"
            kw["scale"] = mode == "pdfscale"
        if "noise" in case:
            k = np.arange(len(X))
            y = y + 0.6 * dy * (((k * case["noise"] + 3) % 13) - 6) / 4.0
        self.y, self.dy, self.kw = y, dy, kw

    def new(self, **extra):
        pe = PDFPeakExtraction() if self.pdf else PeakExtraction()
        pe.setdata(X, self.y)
        pe.setvars(quiet=True, **dict(self.kw, **extra))
        return pe

    def go(self, pe):
        return pe.extract() if self.pdf else pe.extract_single()


def look(pe):
    mc = pe.extracted
    return [(type(p.owner()).__name__, p.pars.tolist(), [bool(f) for f in p.free], p.removable) for p in mc.model], \
        mc.baseline.pars.tolist()


def variables(pe):
    return repr((
        pe.x.tolist(), pe.y.tolist(), pe.dx.tolist(), pe.dy.tolist(), pe.effective_dy.tolist(), list(pe.rng), pe.cres,
        [id(f) for f in pe.pf], pe.error_method, id(pe.baseline.owner()), pe.baseline.pars.tolist(),
        list(pe.baseline.free), [(id(p.owner()), p.pars.tolist(), list(p.free), p.removable) for p in pe.initial_peaks],
    ))


def invariants(s, pe, cov, fixed=()):
    """What holds after every extraction."""
    mc = pe.extracted
    mode = s.case["mode"]
    lo, hi = pe.rng
    r = mc.r_data
    ensure(np.array_equal(r[mc.slice], mc.r_cluster) and len(mc.r_cluster) == len(r), "the result covers a part of the range")
    inside = X[(X >= lo) & (X <= hi)]
    raw = not s.pdf or mode == "pdfraw"
    if not s.pdf:
        ensure(np.array_equal(r, inside), "the result is not on the data within the range")
    else:
        ensure(r[0] >= lo - 1e-9 and r[-1] <= hi + 1e-9, "the result exceeds the range")
        step = np.diff(r)
        ensure(np.allclose(step, step[0]), "the result is not on a uniform grid")
        if not raw:
            n = mc.npars(count_fixed=False)
            ensure(abs(step[0] - np.pi / QMAX) < 1e-9 or step[0] < np.pi / QMAX, "sampled below the Nyquist rate")
            if n < 0.5 * (inside[-1] - inside[0]) * QMAX / np.pi:
                ensure(abs(step[0] - np.pi / QMAX) < 1e-6, "not sampled at the Nyquist rate (%g)", step[0])
    if np.array_equal(r, inside):
        i = np.searchsorted(X, r)
        ensure(np.allclose(mc.y_data, s.y[i], rtol=1e-9, atol=1e-9 * s.scale), "the data of the result differ from those given")
    else:
        ensure(np.allclose(mc.y_data, resample(X, s.y, r), rtol=1e-6, atol=1e-8 * s.scale), "the data are resampled otherwise")
    want = np.interp(r, X, pe.effective_dy)
    if s.pdf and not raw and mode == "pdfscale":
        want = want * max(1.0, np.sqrt(np.pi / QMAX / (r[1] - r[0])))
    ensure(np.allclose(mc.y_error, want, rtol=1e-9), "the uncertainties of the result differ from those given")
    ensure(mc.error_method is pe.error_method and mc.peak_funcs == pe.pf, "evaluator or functions differ")
    pos = [p["position"] for p in mc.model]
    ensure(pos == sorted(pos), "peaks are not sorted")
    allowed = list(pe.pf) + [p.owner() for p in pe.initial_peaks]
    for p in mc.model:
        o = p.owner()
        if s.pdf:
            ensure(isinstance(o, TerminationRipples) and o.qmax == QMAX, "a peak without termination ripples")
            o = o.base
        ensure(any(o is f for f in allowed), "a peak of another function")
    ensure(pe.extraction_type == ("extract" if s.pdf else "extract_single"), "type of extraction is %s", pe.extraction_type)
    q = mc.quality().stat
    empty = ModelCluster(Peaks(), pe.baseline.copy(), r, mc.y_data, mc.y_error, None, mc.error_method, mc.peak_funcs)
    keep = [p for p in mc.model if not p.removable]
    empty.model = Peaks([p.copy() for p in keep])
    k0 = sum(sum(bool(v) for v in p.free) for p in keep)
    if q is not None and len(r) > k0 + 8:
        ensure(q <= empty.quality().stat + 1e-6 * abs(q) or len(mc.model) == len(keep), "worse than no peaks at all")
    # covariance of exactly this model, in the same order
    if cov is not None and cov.model is not None and len(cov.model):
        parts = [p for p in list(mc.model) + [mc.baseline] if p is not None and len(p.pars)]
        got = [p for p in cov.model if len(p.pars)]
        ensure([len(p.pars) for p in got] == [len(p.pars) for p in parts], "covariance of another model")
        for have, p in zip(sorted(got[:len(mc.model)], key=lambda p: p[0]) + got[len(mc.model):], parts):
            o = p.owner()
            want = [np.asarray(p.pars), np.asarray(o.transform_parameters(p.pars, "internal", "default_output"))]
            ensure(any(np.allclose(have.pars, w, rtol=2e-3, atol=1e-6 * s.scale) for w in want),
                   "covariance of another model: %s, %s", list(have.pars), list(p.pars))


def recovered(s, pe, tol=0.02):
    got = sorted(pwa(p) for p in pe.extracted.model)
    ensure(len(got) == len(s.true), "%d peaks found, %d in the data: %s", len(got), len(s.true),
           np.round(got, 3).tolist())
    for g, t in zip(got, s.true):
        ensure(abs(g[0] - t[0]) < tol and abs(g[1] / t[1] - 1) < 3 * tol and abs(g[2] / t[2] - 1) < 3 * tol,
               "peak %s found as %s", t, np.round(g, 4).tolist())


def run_recover(case, cov):
    logging.disable(logging.CRITICAL)
    s = Setting(case)
    pe = s.new()
    before = variables(pe)
    c = s.go(pe)
    ensure(variables(pe) == before, "extraction changed data or variables")
    invariants(s, pe, c)
    if case.get("recover", True):
        recovered(s, pe)
    first = look(pe)
    # again, on the same and on a new object
    s.go(pe)
    ensure(look(pe) == first, "extracting again gives another result")
    cov.outcome((case["func"], case["mode"], np.round(np.array([p[1] for p in first[0]]), 3).tolist()))
    return None


def curves():
    return [(line.get_xdata(), line.get_ydata()) for line in plt.gca().get_lines()]


def run_plot(case, cov):
    """The curves drawn are those of data and model, whatever was drawn before."""
    logging.disable(logging.CRITICAL)
    s = Setting(case)
    pe = s.new(**({"rng": case["rng"]} if case["rng"] else {}))
    lo, hi = case["rng"] or (X[0], X[-1])
    inside = (X >= lo) & (X <= hi)
    for stage in ("before", "after"):
        if stage == "after":
            s.go(pe)
        before = variables(pe) if stage == "after" else None
        for joined in (None, False, True):
            kw = {} if joined is None else {"joined": joined}
            pe.plot(**kw)
            got = curves()
            if stage == "after":
                mc = pe.extracted
                r, y, model, bl = mc.r_data[mc.slice], mc.y_data[mc.slice], list(mc.model), mc.baseline
            else:
                r, y, model, bl = X[inside], s.y[inside], list(pe.initial_peaks), pe.baseline
            base = bl.value(r)
            parts = [base + p.value(r) for p in model]
            total = base + sum((p.value(r) for p in model), 0.0 * r)
            want = [y] + ([total] if joined else parts)
            ensure(len(got) == len(want), "%s: %d curves drawn instead of %d", stage, len(got), len(want))
            for (gx, gy), w in zip(got, want):
                ensure(np.array_equal(gx, r), "%s: a curve is not drawn over the range", stage)
                ensure(np.allclose(gy, w, rtol=1e-6, atol=1e-6 * s.scale), "%s: a curve is neither data nor model", stage)
            cov.outcome((stage, joined, len(got)))
        ensure(before is None or variables(pe) == before, "plotting changed data or variables")
    plt.close("all")


def stages(s, pe):
    """The documented stages of an extraction, from the parts of the library."""
    inside = (X >= pe.rng[0]) & (X <= pe.rng[1])
    lo, hi = max(X[0], pe.rng[0]), min(X[-1], pe.rng[1])
    raw = (X[-1] - X[0]) / (len(X) - 1)
    err = np.asarray(pe.effective_dy)

    def factor(dr):
        return max(1.0, np.sqrt(np.pi / pe.qmax / dr)) if pe.qmax > 0 and pe.nyquist and pe.scale else 1.0

    def grid(dr):
        r = np.arange(lo, hi, dr)
        return r, resample(X, s.y, r), factor(dr) * np.interp(r, X, err)

    if pe.qmax == 0 or np.pi / pe.qmax / raw >= pe.supersample:
        r, y, e = X[inside], s.y[inside], factor(raw) * err[inside]
    else:
        r, y, e = grid(np.pi / pe.qmax / pe.supersample)
    first = PeakExtraction()
    first.setdata(r, y)
    first.setvars(quiet=True, effective_dy=e, **{k: getattr(pe, k) for k in ("cres", "pf", "baseline", "error_method", "initial_peaks")})
    first.extract_single()
    mc = first.extracted
    bl = mc.baseline
    if pe.qmax > 0:
        rip = {}
        for p in mc.model:
            f = p.owner()
            if not isinstance(f, TerminationRipples):
                p.changeowner(rip.setdefault(id(f), TerminationRipples(f, pe.qmax)))
        if pe.nyquist:
            while True:
                n = mc.npars(count_fixed=False)
                span = r[-1] - r[0]
                dr = np.pi / pe.qmax
                done = n < span / dr
                r2, y2, e2 = grid(dr if done else 0.9999 * span / n)
                mc = ModelCluster(mc.model, bl, r2, y2, e2, None, pe.error_method, pe.pf)
                mc.fit()
                mc.prune()
                if done or mc.npars(count_fixed=False) == n:
                    break
        else:
            mc = ModelCluster(mc.model, bl, r, y, e, None, pe.error_method, pe.pf)
            mc.prune()
    mc.fit(fitbaseline=True)
    return mc


def run_stages(case, cov):
    """Extraction of a PDF is the sequence of its documented stages."""
    logging.disable(logging.CRITICAL)
    s = Setting(case)
    kw = {"qmax": case["qmax"], "nyquist": case["nyquist"], "scale": case["scaled"], "supersample": case["supersample"]}
    if case["rng"]:
        kw["rng"] = case["rng"]
    pe = s.new(effective_dy=case["err"] * s.y.max() * (1 + 0.2 * np.cos(3 * X)), **kw)
    pe.extract()
    want = stages(s, pe)
    got = pe.extracted
    ensure(got.r_data.shape == want.r_data.shape and np.allclose(got.r_data, want.r_data, rtol=1e-9), "another grid: %d points from %g by %g",
           len(got.r_data), got.r_data[0], got.r_data[1] - got.r_data[0])
    ensure(np.allclose(got.y_data, want.y_data, rtol=1e-6, atol=1e-8) and np.allclose(got.y_error, want.y_error, rtol=1e-8), "other data")
    a, b = (sorted(pwa(p) for p in m.model) for m in (got, want))
    ensure(len(a) == len(b) and np.allclose(a, b, rtol=1e-3, atol=1e-3), "peaks %s instead of %s", np.round(a, 4).tolist(), np.round(b, 4).tolist())
    ensure([type(p.owner()).__name__ for p in got.model] == [type(p.owner()).__name__ for p in want.model], "other functions")
    ensure(np.allclose(got.value(), want.value(), rtol=1e-3, atol=1e-4 * s.y.max()), "another model")
    cov.outcome((case["func"], case["qmax"], case["nyquist"], case["scaled"], case["supersample"], len(a)))
    return None


def cases_stages(tier):
    sets = [[[1.6, 0.3, 2.0]], [[1.6, 0.3, 2.0], [2.4, 0.25, 1.0], [3.7, 0.4, 3.0]], [[2.0, 0.4, 2.0], [2.4, 0.3, 1.5], [3.6, 0.35, 1.0]],
            [[1.5, 0.3, 1.0], [2.1, 0.3, 0.15], [3.4, 0.4, 0.5]]]
    for func in FUNC:
        for peaks in sets:
            for rng in (None, [1.3, 4.2]):
                for err in (0.01, 0.04, 0.2) if tier == "quick" else (0.003, 0.01, 0.02, 0.04, 0.1, 0.2):
                    for mode in ("pdf", "pdfline"):
                        for qmax, nyquist, scaled, ss in (
                            (0.0, True, True, 4.0), (14.0, True, True, 2.0), (14.0, True, False, 2.0), (14.0, True, True, 4.0),
                            (20.0, False, True, 1.0), (20.0, False, True, 6.0), (9.0, True, True, 5.0), (30.0, True, False, 1.5),
                        ):
                            if tier == "quick" and mode == "pdfline" and (rng or err != 0.04):
                                continue
                            yield {"func": func, "mode": mode, "peaks": peaks, "rng": rng, "err": err, "qmax": qmax, "nyquist": nyquist,
                                   "scaled": scaled, "supersample": ss}


def run_close(case, cov):
    """Overlapping peaks, at least nine tenths (two) or five quarters (three) of the wider width apart."""
    logging.disable(logging.CRITICAL)
    s = Setting(case)
    pe = s.new()
    s.go(pe)
    recovered(s, pe)
    ensure([p.owner() is s.f for p in pe.extracted.model] == [True] * len(s.true), "other functions")
    cov.outcome((case["func"], case["mode"], len(s.true), round(case["peaks"][1][0] - case["peaks"][0][0], 2)))
    return None


def cases_close(tier):
    deep = tier != "quick"
    for mode in ("plain", "line", "aicc") if deep else ("plain", "line"):
        for func in ("gauss", "gor"):
            for cres in (0.1, 0.15) if deep else (0.15,):
                for gap in (0.3, 0.35, 0.4, 0.45, 0.5, 0.6):
                    for w in itertools.product((0.2, 0.3, 0.4, 0.5), repeat=2):
                        if gap / max(w) < 0.899:
                            continue
                        for a in ((1, 1), (1, 2), (2, 1), (1, 4), (4, 1)):
                            for p0 in (1.7, 2.5):
                                yield {"func": func, "mode": mode, "cres": cres,
                                       "peaks": [[p0, w[0], a[0]], [p0 + gap, w[1], a[1]]]}
    for mode in ("plain", "line", "aicc") if deep else ("line",):
        for func in ("gauss", "gor"):
            for cres in (0.1, 0.15, 0.2) if deep else (0.15,):
                for gaps in itertools.product((0.4, 0.5, 0.6, 0.75), repeat=2):
                    for w in itertools.product((0.2, 0.3, 0.4, 0.5), repeat=3):
                        if any(round(g / max(w[i], w[i + 1]), 6) < 1.25 for i, g in enumerate(gaps)):
                            continue
                        for a in ((1, 1, 1), (1, 2, 1), (2, 1, 3)):
                            yield {"func": func, "mode": mode, "cres": cres,
                                   "peaks": [[1.7, w[0], a[0]], [1.7 + gaps[0], w[1], a[1]], [1.7 + gaps[0] + gaps[1], w[2], a[2]]]}


KINDS = {
    "float": lambda v: np.array(v, dtype=float),
    "int": lambda v: np.array(v, dtype=int),
    "list": lambda v: [int(u) for u in v],
    "tuple": lambda v: tuple(float(u) for u in v),
}


def run_types(case, cov):
    """Whole numbers, lists and tuples are the same data as arrays of floats."""
    logging.disable(logging.CRITICAL)
    f = FUNC[case["func"]](12.0)
    x = np.arange(2, 62)
    y = sum(peak(f, t).value(1.0 * x) for t in case["peaks"])
    y = np.round(y + (0 if case["base"] is None else 20.0 - 0.5 * x))
    dy = np.full(len(x), 4)
    seen = []
    for kind in KINDS:
        k = KINDS[kind]
        pe = PDFPeakExtraction() if case["pdf"] else PeakExtraction()
        pe.setdata(k(x), k(y), k(0 * x + 1), k(dy))
        kw = {"pf": [f], "cres": k([3])[0]}
        if case["base"] is not None:
            kw["baseline"] = Polynomial(1).actualize(k(case["base"]), "internal")
        if case["dy"]:
            kw["effective_dy"] = k(3 * dy)
        if case["rng"]:
            kw["rng"] = k(case["rng"])
        if case["init"]:
            kw["initial_peaks"] = Peaks([peak(f, k([int(v) for v in case["peaks"][0]]))])
        if case["pdf"]:
            kw.update(qmax=k([case["pdf"]])[0], nyquist=True, supersample=k([2])[0])
        pe.setvars(quiet=True, **kw)
        if case["op"] == "fit":
            c = pe.fit()
        else:
            c = pe.extract() if case["pdf"] else pe.extract_single()
        if pe.extracted is None:
            seen.append(None)
            continue
        m = pe.extracted
        seen.append([[v for p in m.model for v in p.pars], m.baseline.pars.tolist(), len(m.model), look(pe)[0] and [z[2:] + z[:1] for z in look(pe)[0]], None if c is None or c.cov is None else np.asarray(c.cov).tolist(), m.r_data.tolist(), m.y_data.tolist(),
                     m.y_error.tolist(), m.value().tolist(), m.quality().stat])
    for kind, got in zip(KINDS, seen):
        ensure((got is None) == (seen[0] is None), "%s data give no result", kind)
        for a, b in zip(got or [], seen[0] or []):
            ensure(a == b or close(a, b), "%s data give another result", kind)
    cov.outcome((case["func"], case["pdf"], case["op"], seen[0][2] if seen[0] else None))
    return None


def close(a, b):
    try:
        return np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), rtol=1e-9, atol=1e-12, equal_nan=True)
    except (TypeError, ValueError):
        return False


def cases_types(tier):
    sets = [[[20, 6, 400]], [[20, 6, 400], [40, 5, 300]], [[15, 5, 400], [27, 6, 600], [45, 8, 500]]]
    for func in ("gauss", "gor"):
        for peaks in sets:
            for pdf in (0, 1, 2):
                for base in (None, [-1, 20]):
                    for dy in (False, True):
                        for rng in (None, [10, 50]):
                            for init in (False, True):
                                for op in ("extract", "fit") if pdf and init else ("extract",):
                                    if tier != "quick" or dy == (rng is None):
                                        yield {"func": func, "peaks": peaks, "pdf": pdf, "base": base, "dy": dy, "rng": rng, "init": init, "op": op}


def run_fit(case, cov):
    """Fitting given peaks to a PDF: to the data in range, or those resampled at the Nyquist interval."""
    logging.disable(logging.CRITICAL)
    s = Setting(case)
    kw = {"qmax": case["qmax"], "nyquist": case["nyquist"], "scale": case["scaled"], "supersample": case["supersample"]}
    if case["rng"]:
        kw["rng"] = case["rng"]
    f = TerminationRipples(s.f, QMAX) if case["ripples"] else s.f
    start = Peaks([peak(f, [p + 0.01, 1.05 * w, 0.95 * a], free=[k != case["fixed"] for k in range(3)]) for p, w, a in s.true])
    pe = s.new(effective_dy=0.04 * s.y.max() * (1 + 0.2 * np.cos(3 * X)), initial_peaks=start, **kw)
    before = variables(pe)
    c = pe.fit()
    ensure(variables(pe) == before, "fitting changed data or variables")
    ensure(pe.extraction_type == "fit", "kind of result %s", pe.extraction_type)
    got = pe.extracted
    inside = (X >= pe.rng[0]) & (X <= pe.rng[1])
    err = np.asarray(pe.effective_dy)
    if case["qmax"] == 0 or not case["nyquist"]:
        r, y, e = X[inside], s.y[inside], err[inside]
    else:
        r = np.arange(max(X[0], pe.rng[0]), min(X[-1], pe.rng[1]), np.pi / case["qmax"])
        y, e = resample(X, s.y, r), np.interp(r, X, err)
    ensure(got.r_data.shape == r.shape and np.allclose(got.r_data, r, rtol=1e-9), "another grid: %d points from %g by %g",
           len(got.r_data), got.r_data[0], got.r_data[1] - got.r_data[0])
    ensure(np.allclose(got.y_data, y, rtol=1e-6, atol=1e-8) and np.allclose(got.y_error, e, rtol=1e-8), "other data")
    one = PeakExtraction()
    one.setdata(r, y)
    one.setvars(quiet=True, effective_dy=e, **{k: getattr(pe, k) for k in ("cres", "pf", "baseline", "error_method", "initial_peaks")})
    d = one.fit_single()
    want = one.extracted
    a, b = ([list(map(float, p.pars)) for p in m.model] for m in (got, want))
    ensure(len(a) == len(b) == len(s.true) and np.allclose(a, b, rtol=1e-5, atol=1e-6), "peaks %s instead of %s", a, b)
    ensure(np.allclose(got.value(), want.value(), rtol=1e-5, atol=1e-6 * s.y.max()), "another model")
    ensure((c.cov is None) == (d.cov is None) and (c.cov is None or np.allclose(c.cov, d.cov, rtol=1e-3, atol=1e-9)), "another covariance")
    for p, q in zip(got.model, start):
        ensure(p.owner() is f and [bool(v) for v in p.free] == [bool(v) for v in q.free], "other functions or free parameters")
        ensure(all(u == v for u, v, k in zip(p.pars, q.pars, q.free) if not k), "a fixed parameter was fit")
    if case["fixed"] is None and case["ripples"] and (case["qmax"] == 0 or not case["nyquist"]):
        ensure(np.allclose([pwa(p) for p in got.model], s.true, rtol=1e-4, atol=1e-4), "fit %s instead of %s", [pwa(p) for p in got.model], s.true)
    cov.outcome((case["func"], case["qmax"], case["nyquist"], case["fixed"], case["ripples"], len(a)))
    return None


def cases_fit(tier):
    sets = [[[1.6, 0.3, 2.0]], [[1.6, 0.3, 2.0], [2.4, 0.25, 1.0], [3.7, 0.4, 3.0]], [[2.0, 0.4, 2.0], [2.4, 0.3, 1.5]]]
    for func in FUNC:
        for peaks in sets:
            for rng in (None, [1.3, 4.2], [1.5, None]):
                for qmax in (0.0, 9.0, 14.0, 20.0, 30.0):
                    for nyquist in (True, False):
                        for scaled, ss in ((True, 4.0), (False, 1.0)):
                            for mode in ("pdf", "pdfline"):
                                for ripples in (False, True):
                                    for fixed in (None, 0, 1, 2) if tier != "quick" else (None, 1):
                                        if tier == "quick" and (mode == "pdfline" or not scaled) and (fixed or rng):
                                            continue
                                        yield {"func": func, "mode": mode, "peaks": peaks, "rng": rng, "qmax": qmax, "nyquist": nyquist,
                                               "scaled": scaled, "supersample": ss, "ripples": ripples, "fixed": fixed}


POS = [()] + [(a,) for a in (1.5, 2.03, 3.0, 4.1)] + list(itertools.combinations((1.5, 2.03, 2.6, 3.1, 4.1), 2)) \
    + [(1.5, 2.6, 4.1), (1.8, 2.7, 3.6)]
POS4 = [(1.4, 2.2, 3.0, 3.8), (1.6, 2.4, 3.1, 4.2), (1.5, 2.3, 3.2, 3.9)]


def peaksets(tier, pos=POS, widths=(0.2, 0.4), areas=(1.0, 3.0)):
    for ps in pos:
        for ws in itertools.product(widths, repeat=len(ps)):
            for a in itertools.product(areas, repeat=len(ps)):
                yield [list(t) for t in zip(ps, ws, a)]


def hidden(tier):
    """A narrow peak on top of two wide ones, close to a boundary of the data."""
    for gaps in itertools.product((0.25, 0.35, 0.5), repeat=2):
        for off in (0.2, 0.3, 0.4, 0.5):
            for side in "rl":
                pos = [off, off + gaps[0], off + sum(gaps)]
                pos = [X[-1] - p for p in reversed(pos)] if side == "r" else [X[0] + p for p in pos]
                yield [[round(float(p), 6), w, 1.0] for p, w in zip(pos, (0.4, 0.15, 0.4))]


def cases_recover(tier):
    for func in FUNC:
        for ps in hidden(tier):
            yield {"func": func, "mode": "plain", "peaks": ps, "cres": 0.1}
    modes = ["plain", "line", "aicc", "init", "kept", "fixedline"]
    for func in FUNC:
        for mode in modes:
            for ps in peaksets(tier):
                if tier == "quick" and mode in ("line", "fixedline") and len(ps) > 2:
                    continue
                yield {"func": func, "mode": mode, "peaks": ps}
        for sc in (1e-6, 1e5):
            for ps in peaksets(tier):
                if len(ps) < 3:
                    yield {"func": func, "mode": "plain", "peaks": ps, "scale": sc}
        if tier != "quick":
            for ps in peaksets(tier, POS4):
                yield {"func": func, "mode": "plain", "peaks": ps}
            for ps in peaksets(tier, POS[1:-2], (0.15, 0.3, 0.5), (0.5, 1.0, 2.0)):
                yield {"func": func, "mode": "plain", "peaks": ps}


def cases_noise(tier):
    for func in FUNC:
        for mode in ("plain", "line", "both", "kept"):
            for k in (5, 7) if tier == "quick" else (2, 3, 5, 7, 11):
                for ps in peaksets(tier, POS[:15:2] if tier == "quick" else POS[:15]):
                    yield {"func": func, "mode": mode, "peaks": ps, "noise": k, "recover": False}


def cases_pdf(tier):
    for func in FUNC:
        for mode in ("pdf", "pdfraw", "pdfscale"):
            for ps in peaksets(tier, POS[:8:2] if tier == "quick" else POS[:12], (0.3, 0.4)):
                yield {"func": func, "mode": mode, "peaks": ps, "recover": False}


def cases_plot(tier):
    for func in FUNC:
        for mode in ("plain", "line", "init"):
            for rng in (None, [1.5, 4.0]):
                for ps in peaksets(tier, POS[:12] if tier == "quick" else POS, (0.2,)):
                    yield {"func": func, "mode": mode, "peaks": ps, "rng": rng}


CHECK = Check(
    "C20",
    "exploration",
    [
        Scenario("recover", cases_recover, run_recover, timeout=300,
                 doc="all sets of peaks of the alphabet x functions x baselines, evaluators, initial peaks and scales"),
        Scenario("close", cases_close, run_close, timeout=300,
                 doc="two and three overlapping peaks: gaps, widths, areas, functions, baselines, resolutions"),
        Scenario("types", cases_types, run_types, timeout=300, doc="data and variables as whole numbers, lists and tuples against arrays of floats"),
        Scenario("noise", cases_noise, run_recover, timeout=300, doc="the same with perturbed data: invariants only"),
        Scenario("plot", cases_plot, run_plot, timeout=300, doc="curves drawn before and after extraction"),
        Scenario("stages", cases_stages, run_stages, timeout=300,
                 doc="extraction of PDFs against its documented stages: supersampled, with ripples, resampled, with baseline"),
        Scenario("fit", cases_fit, run_fit, timeout=300, doc="fits of given peaks to PDFs, with all samplings, against the fit of the same data alone"),
        Scenario("pdf", cases_pdf, run_recover, timeout=300, doc="extraction with ripples and resampling: invariants only"),
    ],
    rule="the result of the real extraction is compared with the known peaks and with data and variables given",
)
