"""C21: fitting, estimating and adding peaks depend on data and variables only, not on history."""
import itertools
import logging

import numpy as np

from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from mc.harness import Check, Scenario, ensure

X = 1.0 + 0.06 * np.arange(60)
FUNC = {"gauss": Gaussian(0.7), "gor": GaussianOverR(0.7)}
TRUE = [[1.6, 0.25, 1.0], [2.5, 0.3, 2.0], [3.6, 0.2, 1.5]]
LINE = [-0.2, 0.4]
QMAX = 18.0


def data(func, line):
    y = sum(FUNC[func].actualize(t, "pwa").value(X) for t in TRUE)
    return y + (LINE[0] * X + LINE[1] if line else 0.0)


def peaks(func, sel, off=0.0, **kw):
    return Peaks([FUNC[func].actualize([p + off, w * (1 + off), a * (1 - off)], "pwa", **kw) for p, w, a in sel])


# Values of the variables, built anew each time they are used.
def values(case):
    f = case["func"]
    line = case["line"]
    return {
        "none": lambda: {"initial_peaks": Peaks()},
        "one": lambda: {"initial_peaks": peaks(f, TRUE[:1], 0.03)},
        "two": lambda: {"initial_peaks": peaks(f, TRUE[:2], 0.02, removable=False)},
        "all": lambda: {"initial_peaks": peaks(f, TRUE, 0.05)},
        "fixed": lambda: {"initial_peaks": peaks(f, TRUE[1:], 0.04, free=[True, False, True])},
        "left": lambda: {"rng": [1.0, 3.1]},
        "full": lambda: {"rng": [None, None]},
        "base": lambda: {"baseline": Baseline(Polynomial(1), [v * 1.1 for v in LINE] if line else [0.01, -0.02])},
        "nobase": lambda: {"baseline": Baseline(Polynomial(1), LINE if line else [0.0, 0.0], free=[False, False])},
        "aicc": lambda: {"error_method": AICc},
        "dg": lambda: {"effective_dy": 0.1},
    }


def ops(case):
    out = [("set", k) for k in ("one", "two", "all", "fixed", "left", "full", "base", "aicc")]
    out += [("fit",), ("extract",), ("clearcalc",), ("est", 1.6, True), ("est", 2.5, True), ("est", 3.6, False), ("est", 0.5, True),
            ("add", 0), ("plot",), ("write",)]
    return out


def new(case):
    pe = PDFPeakExtraction() if case["pdf"] else PeakExtraction()
    pe.setdata(X, data(case["func"], case["line"]), None, 0.05 + 0 * X)
    kw = {"pf": [FUNC[case["func"]]], "cres": 0.15, "error_method": AIC}
    kw.update(values(case)["nobase"]())
    if case["pdf"]:
        kw.update(qmax=QMAX, nyquist=case["pdf"] == "nyquist", supersample=4.0, scale=False)
    pe.setvars(quiet=True, **kw)
    return pe


def parts(ps):
    return [(type(p.owner()).__name__, p.pars.tolist(), [bool(v) for v in p.free], bool(p.removable)) for p in ps]


def variables(pe):
    out = [pe.x.tolist(), pe.y.tolist(), pe.dx.tolist(), pe.dy.tolist(), pe.effective_dy.tolist(), list(pe.rng), pe.cres,
           [id(f) for f in pe.pf], pe.error_method.__name__, parts([pe.baseline])[0][1:3], parts(pe.initial_peaks)]
    if isinstance(pe, PDFPeakExtraction):
        out += [pe.qmax, pe.nyquist, pe.supersample, pe.scale]
    return out


def result(pe):
    mc = pe.extracted
    if mc is None:
        return (None, pe.extraction_type)
    return (pe.extraction_type, parts(mc.model), mc.baseline.pars.tolist(), mc.r_data.tolist(), mc.y_data.tolist(),
            mc.y_error.tolist(), mc.slice.indices(len(mc.r_data)), mc.quality().stat)


def same(a, b, tol=1e-7):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(u, v, tol) for u, v in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None:
            return a is b
        return abs(a - b) <= tol * (1 + abs(a))
    return a == b


def matrix(cov):
    return None if cov is None or cov.cov is None else np.asarray(cov.cov).tolist()


class Short:
    """The shortest history leading to the same state: variables, last calculation, peaks added since."""

    def __init__(self, case):
        self.case, self.sets, self.calc, self.init, self.added = case, [], None, [], []

    def copy_key(self):
        return (tuple(self.sets), self.calc, tuple(self.init), tuple(self.added))

    def build(self):
        """A new object in this state."""
        if self.calc is None:
            pe = new(self.case)
            self.apply(pe, self.sets, self.init)
        else:
            kind, sets, init = self.calc
            pe = new(self.case)
            self.apply(pe, sets, init)
            calculate(pe, kind, self.case)
            for a in self.added:
                pe.add_peaks(extra(self.case, a))
            keep, kept = pe.extracted, pe.extraction_type
            pe.extracted = pe.extraction_type = None
            self.apply(pe, self.sets, self.init)
            pe.extracted, pe.extraction_type = keep, kept
        return pe

    def apply(self, pe, sets, init):
        v = values(self.case)
        for k in sets:
            pe.setvars(quiet=True, **v[k]())
        if init is not None and len(init):
            pe.add_peaks(Peaks([p for a in init for p in extra(self.case, a)]))


def extra(case, a):
    """Peaks to add: described by internal parameters, so that estimated ones can be described too."""
    return Peaks([FUNC[case["func"]].actualize(list(p), "internal") for p in a])


def calculate(pe, kind, case):
    if kind == "fit":
        return pe.fit() if case["pdf"] else pe.fit_single()
    return pe.extract() if case["pdf"] else pe.extract_single()


def pwa(p):
    return [float(v) for v in p.owner().transform_parameters(p.pars, "internal", "pwa")]


VARKEY = {"one": "i", "two": "i", "all": "i", "fixed": "i", "left": "r", "full": "r", "base": "b", "aicc": "e"}


def run_history(case, cov):
    logging.disable(logging.CRITICAL)
    alpha = ops(case)
    for tail in itertools.product(alpha, repeat=case["depth"]):
        hist = [tuple(o) for o in case["head"]] + list(tail)
        cov.trace()
        pe = new(case)
        short = Short(case)
        given = count = None
        for n, op in enumerate(hist):
            cov.transition()
            last = n == len(hist) - 1
            where = str(hist[: n + 1])
            before = (variables(pe), result(pe)) if last else None
            if op[0] == "set":
                kw = values(case)[op[1]]()
                if "initial_peaks" in kw:
                    given, count = kw["initial_peaks"], parts(kw["initial_peaks"])
                pe.setvars(quiet=True, **kw)
                short.sets = [s for s in short.sets if VARKEY[s] != VARKEY[op[1]]] + [op[1]]
                if VARKEY[op[1]] == "i":
                    short.init = []
                if last:
                    ensure(same(result(pe), before[1]), "setting a variable changed the result", where=where)
            elif op[0] in ("fit", "extract"):
                c = calculate(pe, op[0], case)
                short.calc = (op[0], list(short.sets), list(short.init))
                short.added = []
                if last:
                    ensure(variables(pe) == before[0], "%s changed data or variables", op[0], where=where)
                    other = new(case)
                    short.apply(other, short.sets, short.init)
                    d = calculate(other, op[0], case)
                    ensure(same(result(pe), result(other)), "the result of %s depends on the history: %s, %s", op[0],
                           result(pe)[1:3], result(other)[1:3], where=where)
                    ensure(same(matrix(c), matrix(d), 1e-5), "the covariance depends on the history", where=where)
                    if op[0] == "fit":
                        check_fit(case, pe, c, where)
            elif op[0] == "clearcalc":
                pe.clearcalc()
                short.calc, short.added = None, []
                if last:
                    ensure(variables(pe) == before[0], "clearing the result changed variables", where=where)
                    ensure(pe.extracted is None and pe.extraction_type is None, "the result is not cleared", where=where)
            elif op[0] == "est":
                estimate(case, pe, short, op, before, last, where)
            elif op[0] == "add":
                p = FUNC[case["func"]].actualize([2.05, 0.3, 0.2], "pwa")
                add(pe, short, p.pars)
                extra_peaks = Peaks([p])
                pe.add_peaks(extra_peaks)
                if last:
                    added(pe, before, p, where)
                    ensure(len(extra_peaks) == 1, "the peaks given were changed", where=where)
            elif op[0] in ("plot", "write"):
                if op[0] == "plot":
                    import matplotlib

                    matplotlib.use("Agg")
                    pe.plot()
                else:
                    pe.writestr()
                if last:
                    ensure((variables(pe), result(pe)) == before, "%s changed the object", op[0], where=where)
            if given is not None:
                ensure(parts(given) == count, "the peaks given were changed", where=where)
            if last:
                cov.state(repr(short.copy_key()))
    return None


def add(pe, short, pars):
    item = ((tuple(float(v) for v in pars)),)
    if pe.extracted is not None:
        short.added.append(item)
    else:
        short.init.append(item)


def added(pe, before, p, where):
    """p was added at the right place, and nothing else changed."""
    if before[1][0] is not None:
        ensure(variables(pe) == before[0], "adding to the result changed data or variables", where=where)
        had, have = before[1][1], parts(pe.extracted.model)
        rest_had, rest = before[1][2:7], result(pe)[2:7]
    else:
        ensure(pe.extracted is None, "adding an initial peak made a result", where=where)
        had, have = before[0][10], parts(pe.initial_peaks)
        rest_had, rest = [v for i, v in enumerate(before[0]) if i != 10], [v for i, v in enumerate(variables(pe)) if i != 10]
    ensure(rest == rest_had, "more than the peaks changed", where=where)
    want = sorted(had + parts([p]), key=lambda t: t[1][0])
    ensure([t[1] for t in have] == [t[1] for t in want] and sorted(map(repr, have)) == sorted(map(repr, want)),
           "the peaks are not those before and the new one, by position: %s, %s", have, want, where=where)


def estimate(case, pe, short, op, before, last, where):
    x, doadd = op[1], op[2]
    mc = pe.extracted
    lo, hi = (pe.rng[0], pe.rng[1]) if mc is None else (mc.r_data[mc.slice][0], mc.r_data[mc.slice][-1])
    inside = X[(X >= lo) & (X <= hi)] if mc is None else [lo, hi]
    if x < inside[0] or x > inside[-1]:
        state = (variables(pe), result(pe))
        try:
            pe.estimate_peak(x, doadd)
            ensure(False, "a peak was estimated outside of the range", where=where)
        except ValueError:
            pass
        ensure((variables(pe), result(pe)) == state, "a refused estimate changed the object", where=where)
        return
    trial = None
    if last:
        trial = pe.estimate_peak(x, False)
        ensure((variables(pe), result(pe)) == before, "an estimate without adding changed the object", where=where)
        other = short.build()
        ensure(same(result(other), result(pe)), "the state depends on the history", where=where)
        fresh = other.estimate_peak(x, False)
        ensure((fresh is None) == (trial is None) and (trial is None or same(parts([trial]), parts([fresh]), 1e-6)),
               "the estimate depends on the history", where=where)
        if trial is not None:
            ensure(trial.owner() is pe.pf[0], "the peak estimated is of another function", where=where)
            ensure(np.all(np.isfinite(trial.pars)), "the peak estimated is not finite", where=where)
    p = pe.estimate_peak(x, doadd)
    if p is not None and doadd:
        add(pe, short, p.pars)
    if last:
        ensure((p is None) == (trial is None) and (p is None or parts([p]) == parts([trial])),
               "the same estimate gives another peak", where=where)
        if p is None or not doadd:
            ensure((variables(pe), result(pe)) == before, "the object changed though no peak was added", where=where)
        else:
            added(pe, before, p, where)


def check_fit(case, pe, c, where):
    """The fit improves on the initial peaks and keeps what is fixed."""
    mc = pe.extracted
    r, y, dy = mc.r_data, mc.y_data, mc.y_error
    ini = pe.initial_peaks
    if len(ini) == 0:
        ensure(len(mc.model) == 0, "peaks appeared in a fit", where=where)
        return
    ensure(len(mc.model) <= len(ini), "peaks appeared in a fit", where=where)
    first = (((y - pe.baseline.value(r) - sum(p.value(r) for p in ini)) / dy) ** 2).sum()
    final = (((y - mc.baseline.value(r) - sum((p.value(r) for p in mc.model), 0 * r)) / dy) ** 2).sum()
    k0 = sum(int(sum(p.free)) for p in ini) + int(sum(pe.baseline.free))
    k1 = sum(int(sum(p.free)) for p in mc.model) + int(sum(mc.baseline.free))
    ensure(final + 2 * k1 <= (first + 2 * k0) * (1 + 1e-9) + 1e-6 or len(mc.model) == len(ini) and final <= first * (1 + 1e-9) + 1e-6,
           "the fit is worse than the initial peaks", where=where)
    if len(mc.model) == len(ini):
        def kept(ps):
            return sorted(repr((bool(p.removable), [None if fr else float(v) for v, fr in zip(p.pars, p.free)])) for p in ps)

        ensure(kept(mc.model) == kept(ini), "flags or fixed parameters changed", where=where)
    for v, w, fr in zip(mc.baseline.pars, pe.baseline.pars, pe.baseline.free):
        ensure(fr or v == w, "a fixed parameter of the baseline changed", where=where)


def cases_history(tier):
    for func in FUNC:
        for pdf in (False, "raw", "nyquist"):
            for line in (False, True):
                case = {"func": func, "pdf": pdf, "line": line}
                alpha = [list(o) for o in ops(case)]
                yield dict(case, head=[], depth=1)
                for o in alpha:
                    yield dict(case, head=[o], depth=1)
                    if tier != "quick" or (line and not pdf):
                        for q in alpha:
                            yield dict(case, head=[o, q], depth=1)


# ------------------------------------------------------- fits of exact models
def run_exact(case, cov):
    """From approximate peaks of clean data, the fit finds the exact ones; a missing peak is estimated."""
    logging.disable(logging.CRITICAL)
    f = FUNC[case["func"]]
    y = sum((f.actualize(t, "pwa").value(X) for t in case["peaks"]), 0.0 * X) * case["scale"]
    pe = PDFPeakExtraction() if case["pdf"] else PeakExtraction()
    pe.setdata(X, y)
    dy = 0.02 * y.max() * np.ones(len(X))
    kw = dict(pf=[f], cres=0.15, effective_dy=dy, error_method=AIC)
    if case["pdf"]:
        kw.update(qmax=QMAX, nyquist=False)
    true = [[p, w, a * case["scale"]] for p, w, a in case["peaks"]]
    miss = case["miss"]
    start = [[p + case["off"], w * (1 + case["off"]), a * (1 - 2 * case["off"])] for p, w, a in true]
    if miss is None:
        pe.setvars(quiet=True, initial_peaks=Peaks([f.actualize(t, "pwa") for t in start]), **kw)
        calculate(pe, "fit", case)
        got = pe.extracted.model
    else:
        exact = Peaks([f.actualize(t, "pwa") for i, t in enumerate(true) if i != miss])
        pe.setvars(quiet=True, initial_peaks=exact, **kw)
        p = pe.estimate_peak(true[miss][0] + case["off"])
        ensure(p is not None, "no peak was estimated at %s", true[miss])
        got = pe.initial_peaks
    got = [pwa(p) for p in got]
    ensure(len(got) == len(true), "%d peaks instead of %d", len(got), len(true))
    for g, t in zip(got, sorted(true)):
        ok = abs(g[0] - t[0]) < 0.02 and abs(g[1] / t[1] - 1) < 0.05 and abs(g[2] / t[2] - 1) < 0.05
        ensure(ok, "peak %s found as %s", t, np.round(g, 4).tolist())
    cov.outcome(np.round(got, 2).tolist())
    return None


def cases_exact(tier):
    for func in FUNC:
        for pdf in (False, True):
            for scale in (1.0, 1e4):
                for n in (1, 2, 3):
                    for pos in itertools.combinations((1.5, 2.1, 2.9, 3.9), n):
                        for w in itertools.product((0.2, 0.35), repeat=n):
                            for a in itertools.product((1.0, 3.0), repeat=n):
                                ps = [list(t) for t in zip(pos, w, a)]
                                for off in ((0.05,) if tier == "quick" else (-0.08, -0.03, 0.03, 0.1)):
                                    for miss in [None] + list(range(n)):
                                        yield {"func": func, "pdf": pdf, "scale": scale, "peaks": ps, "off": off, "miss": miss}


CHECK = Check(
    "C21",
    "model_checking",
    [
        Scenario("history", cases_history, run_history, timeout=600,
                 doc="every history of setting variables, fitting, extracting, estimating, adding, clearing, plotting and writing"),
        Scenario("exact", cases_exact, run_exact, timeout=300, doc="every set of peaks fit from approximate ones, or completed by an estimate"),
    ],
    rule="after every history the real object is compared with a new one brought to the same state by the shortest history",
)
