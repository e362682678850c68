"""C23: stability analysis and multimodel selection report the models and probabilities there are."""
import contextlib
import io
import itertools
import logging
import os
import shutil
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from diffpy.srmise.baselines.base import Baseline  # noqa: E402
from diffpy.srmise.baselines.fromsequence import FromSequence  # noqa: E402
from diffpy.srmise.baselines.polynomial import Polynomial  # noqa: E402
from diffpy.srmise.modelevaluators.aic import AIC  # noqa: E402
from diffpy.srmise.modelevaluators.aicc import AICc  # noqa: E402
from diffpy.srmise.multimodelselection import MultimodelSelection  # noqa: E402
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction  # noqa: E402
from diffpy.srmise.peaks.base import Peaks  # noqa: E402
from diffpy.srmise.peaks.gaussian import Gaussian  # noqa: E402
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR  # noqa: E402
from diffpy.srmise.peakstability import PeakStability  # noqa: E402
from mc.harness import Check, Scenario, ensure  # noqa: E402

X = 1.0 + 0.05 * np.arange(80)
FUNC = {"gauss": Gaussian(0.7), "gor": GaussianOverR(0.7)}
LINE = Polynomial(1)


def four_parameters(f):
    """A function like f, with one parameter more, which does nothing."""
    cls = type("Four", (type(f),), {
        "__module__": type(f).__module__,
        "_valueraw": lambda self, pars, r: type(f)._valueraw(self, list(pars)[:3], r),
        "_transform_parametersraw": lambda self, pars, *a, **k: np.append(type(f)._transform_parametersraw(self, list(pars)[:3], *a, **k), pars[3]),
    })
    four = cls(f.maxwidth)
    four.parameterdict = dict(f.parameterdict, extra=3)
    four.npars = 4
    return four


FLAT = Polynomial(0)
CLASS_GRID = np.arange(1.2, 4.7, 0.02)
FLAT_VALUE = -np.sqrt(np.mean((0.1 - 0.12 * CLASS_GRID) ** 2))  # as large as LINE on average
SEQ = FromSequence(np.linspace(0.5, 6, 12), 0.1 - 0.12 * np.linspace(0.5, 6, 12))
QMAX = 15.0
ERRS = (0.04, 0.15, 0.6)


@contextlib.contextmanager
def silent():
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def extraction(case):
    f = FUNC[case["func"]]
    y = sum(f.actualize(t, "pwa").value(X) for t in ([1.7, 0.3, 2.0], [2.6, 0.4, 1.0], [2.95, 0.3, 0.6], [4.0, 0.35, 1.5]))
    y = y - 0.12 * X + 0.1 + 0.03 * np.sin(11 * X)
    pe = PDFPeakExtraction()
    pe.setdata(X, y)
    base = Baseline(LINE, [-0.12, 0.1]) if case["base"] == "line" else SEQ.actualize([], "internal")
    pe.setvars(quiet=True, pf=[f], qmax=QMAX, nyquist=case["nyquist"], cres=0.15, baseline=base, rng=[1.2, 4.7], supersample=4.0,
               error_method=AICc if case.get("aicc") else AIC)
    return pe


def parts(ps):
    return [([float(v) for v in p.pars], [bool(v) for v in p.free], bool(p.removable), type(p.owner()).__name__) for p in ps]


def results(ps):
    return [(float(e), parts(m), None if b is None else parts([b]), float(dr), np.asarray(b.value(X)).tolist()) for e, m, b, dr in ps.results]


def same(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(u, v, tol) for u, v in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= tol * (1 + abs(a))
    return a == b


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c23")
        return self.d

    def __exit__(self, *a):
        plt.close("all")
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------- stability
def current(ps, i, where):
    """The current model is that of the i-th result."""
    e, model, base, dr = ps.results[i]
    mc = ps.ppe.extracted
    ensure(ps.current == i, "the current model is %s", ps.current, where=where)
    ensure(same(parts(mc.model), parts(model)), "the model is not that of the result", where=where)
    ensure(np.allclose(mc.baseline.value(X), base.value(X), rtol=1e-12), "the baseline is not that of the result", where=where)
    ensure(same(parts([mc.baseline]), parts([base])), "the baseline is not that of the result", where=where)
    ensure(np.allclose(ps.ppe.effective_dy, e * np.ones(len(X))), "the uncertainty is not that of the result", where=where)
    r, y, _, dy = ps.ppe.resampledata(dr)
    ensure(np.array_equal(mc.r_data, r) and np.array_equal(mc.y_data, y) and np.array_equal(mc.y_error, dy) and mc.size == len(r),
           "the data are not resampled as those of the result", where=where)
    ensure(mc.error_method is ps.ppe.error_method, "another evaluator", where=where)


def run_stability(case, cov):
    with Scratch() as d, silent():
        pe = extraction(case)
        ps = PeakStability()
        ps.setppe(pe)
        covs = ps.run(list(case["errs"]), savecovs=case["covs"])
        ensure(len(ps.results) == len(case["errs"]), "%d results", len(ps.results))
        ensure(len(covs) == (len(case["errs"]) if case["covs"] else 0), "%d covariances", len(covs))
        for i, e in enumerate(case["errs"]):
            one = extraction(case)
            one.setvars(quiet=True, effective_dy=float(e))
            c = one.extract()
            mc = one.extracted
            want = (float(e), parts(mc.model), parts([mc.baseline]))
            got = results(ps)[i]
            ensure(same(got[:3], want, 1e-6), "result %d is not that of extraction alone: %s, %s", i, got[:3], want)
            ensure(abs(got[3] - (mc.r_cluster[1] - mc.r_cluster[0])) < 1e-9, "sampling interval")
            if case["covs"] and c.cov is not None:
                ensure(covs[i].cov is not None and np.allclose(covs[i].cov, c.cov, rtol=1e-4, atol=1e-9), "covariance")
            cov.outcome((case["func"], case["base"], case["nyquist"], e, len(mc.model)))
        first = results(ps)
        # The results are kept apart from the last extraction.
        mc = ps.ppe.extracted
        for p in list(mc.model) + [mc.baseline]:
            keep, p.pars = p.pars.copy(), p.pars
            p.pars += 0.01
            p.free[:1] = False
            ensure(same(results(ps), first), "changing the last extraction changed the results")
            p.pars[:] = keep
            p.free[:1] = True
        ops = list(range(len(case["errs"]))) + ["none", "missing", "plot", "series", "animate", "animate1", "addpeak", "shift", "extract", "function", "saveload", "save"]
        for hist in itertools.product(ops, repeat=case["depth"]):
            if hist[0] != 0 and not isinstance(hist[0], int):
                hist = (0,) + hist
            cur = None
            cov.trace()
            for n, op in enumerate(hist):
                cov.transition()
                where = str(hist[: n + 1])
                if isinstance(op, int):
                    ps.setcurrent(op)
                    cur = op
                    current(ps, op, where)
                elif op == "none":
                    ps.setcurrent(None)
                    cur = None
                    ensure(ps.ppe.extracted is None, "a model is left", where=where)
                elif op == "missing":
                    try:
                        ps.setcurrent(len(ps.results))
                    except IndexError:
                        pass
                    else:
                        ensure(False, "a result that does not exist was chosen", where=where)
                    ensure(ps.current == cur, "the current model is %s", ps.current, where=where)
                elif op == "series":
                    ps.plotseries()
                    lines = plt.gca().get_lines()
                    ensure([(sorted(line.get_xdata().tolist() if hasattr(line.get_xdata(), "tolist") else list(line.get_xdata())),
                             sorted(set(line.get_ydata()))) for line in lines]
                           == [(sorted(p["position"] for p in m), sorted({e} if len(m) else set())) for e, m, b, dr in ps.results],
                           "the positions plotted are not those of the results", where=where)
                elif op in ("animate", "animate1"):
                    ps.animate(*([[0]] if op == "animate1" else []))
                    ensure(ps.current == cur, "the current model changed", where=where)
                    if cur is not None:
                        current(ps, cur, where)
                elif op == "saveload":
                    ps.save(os.path.join(d, "s"))
                    ps = PeakStability()
                    ps.load(os.path.join(d, "s"))
                    cur = 0
                    current(ps, 0, where)
                elif op == "save":
                    ps.save(os.path.join(d, "s"))
                elif op == "function":
                    ps.ppe.setvars(quiet=True, baseline=ps.results[0][2].owner())
                elif ps.ppe.extracted is not None:
                    if op == "plot":
                        ps.plot()
                        title = plt.gcf().get_suptitle()
                        ensure("[%d/%d]" % (ps.current + 1, len(ps.results)) in title and "Peaks: %d." % len(ps.ppe.extracted.model) in title,
                               "title %s", title, where=where)
                    elif op == "addpeak":
                        ps.ppe.add_peaks(Peaks([ps.ppe.pf[0].actualize([3.4, 0.3, 0.5], "pwa")]))
                    elif op == "shift":
                        for p in list(ps.ppe.extracted.model) + [ps.ppe.extracted.baseline]:
                            p.pars = np.asarray(p.pars) * 1.01
                    elif op == "extract":
                        ps.ppe.extract()
                ensure(same(results(ps), first), "the results changed", where=where)
                plt.close("all")
            cov.state((cur, hist[-1]))
    return None


def cases_stability(tier):
    for func in FUNC:
        for base in ("line", "seq"):
            for nyq in (False, True):
                for n in (1, 2, 3):
                    for errs in itertools.product(ERRS, repeat=n):
                        if tier == "quick" and (n == 3 and len(set(errs)) < 3 or n == 2 and len(set(errs)) < 2 and nyq):
                            continue
                        if tier == "quick" and n == 3 and base == "seq" and nyq:
                            continue
                        yield {"func": func, "base": base, "nyquist": nyq, "errs": list(errs), "covs": n == 2,
                               "depth": 2 if n == 2 and (tier != "quick" or errs == (0.04, 0.15)) else 1}


# ------------------------------------------------------------------- selection
def models(func):
    """Alphabet: models and the name of the class each belongs to."""
    f = FUNC[func]

    def m(*ts, base=(-0.12, 0.1), free=None, bfree=None):
        return Peaks([f.actualize(t, "pwa", free=free) for t in ts]), Baseline(LINE, list(base), bfree)

    return {
        "a": m([1.7, 0.3, 2.0], [2.7, 0.5, 1.6], [4.0, 0.35, 1.5]) + ("A",),
        "A": m([1.7, 0.3, 2.0005], [2.7, 0.5, 1.6], [4.0, 0.35, 1.5005]) + ("A",),
        "f": m([1.7, 0.3, 2.001], [2.7, 0.5, 1.6], [4.0, 0.35, 1.501], free=[True, False, True], bfree=[True, False]) + ("A",),
        "b": m([1.7, 0.3, 2.0], [2.6, 0.4, 1.0], [2.95, 0.3, 0.6], [4.0, 0.35, 1.5]) + ("B",),
        "c": m([1.7, 0.3, 2.0], [2.7, 0.3, 3.0], [4.0, 0.35, 1.5]) + ("C",),
        "d": m([1.7, 0.3, 2.0], [2.7, 0.5, 1.6], [4.0, 0.35, 1.5], base=(-0.4, 0.2)) + ("D",),
        "h": m([1.7, 0.3, 2.0 * 1.0255], [2.7, 0.5, 1.6], [4.0, 0.35, 1.5]) + ("H",),
        "i": m([1.7, 0.3, 2.0], [2.7, 0.5, 1.6], [4.0, 0.35, 1.5], base=(-0.12 * 1.0255, 0.1 * 1.0255)) + ("I",),
        "e": m([1.7, 0.3, 2.0], [2.7, 0.5, 1.6], [4.0, 0.35, 1.5])[:1] + (Baseline(FLAT, [FLAT_VALUE]), "E"),
        "p": (Peaks([f.actualize([1.7, 0.3, 2.0], "pwa"), four_parameters(f).actualize([2.7, 0.5, 1.6, 1.0], "pwa", free=[True, True, True, False]),
                     f.actualize([4.0, 0.35, 1.5], "pwa")]), Baseline(LINE, [-0.12, 0.1]), "P"),
        "z": (Peaks([]), Baseline(LINE, [-0.12, 0.1]), "Z"),
    }


def counts(model, base):
    return sum(int(sum(p.free)) for p in model) + int(sum(base.free))


def run_selection(case, cov):
    with Scratch() as d, silent():
        pe = extraction(case)
        alpha = models(case["func"])
        ms = MultimodelSelection()
        ms.setppe(pe)
        seq = case["models"]
        ms.results = [[0.1 * (i + 1), alpha[k][0].copy(), alpha[k][1].copy(), np.pi / QMAX] for i, k in enumerate(seq)]
        before = results(ms)
        dgs = case["dgs"]
        dr = case["dr"]
        path = os.path.join(d, "aics")
        ms.makeaics(dgs, dr, path)
        r, y, _, _ = pe.resampledata(dr)
        n = len(r)
        stat = {}
        for dg in dgs:
            stat[dg] = []
            for k in seq:
                model, base = alpha[k][:2]
                res = y - base.value(r) - sum((p.value(r) for p in model), 0.0 * r)
                nk = sum(int(sum(p.free)) for p in model)
                s = ((res / dg) ** 2).sum() + 2 * nk
                if case["aicc"]:
                    s += 2.0 * nk * (nk + 1) / (n - nk - 1)
                stat[dg].append(s)

        def weights(stats):
            return np.exp((min(stats) - np.asarray(stats)) / 2)

        def close(a, b, what, *args):
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            ensure(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9), what + ": %s, %s", *args, a, b)

        def check_models(ms):
            ensure(list(ms.dgs) == sorted(dgs) if ms is not first else list(ms.dgs) == list(dgs), "uncertainties")
            for dg in dgs:
                close([a.stat for a in ms.aics[dg]], stat[dg], "statistics at %s", dg)
                close(ms.aicweights[dg], weights(stat[dg]), "weights at %s", dg)
                close(ms.aicprobs[dg], weights(stat[dg]) / weights(stat[dg]).sum(), "probabilities at %s", dg)
                ensure(sorted(ms.sortedprobs[dg]) == list(range(len(seq))), "order at %s", dg)
                close([ms.aicprobs[dg][i] for i in ms.sortedprobs[dg]], sorted(ms.aicprobs[dg]), "order at %s", dg)
                best = ms.maxprobmodel_bymodel(dg)
                ensure(best == max(i for i in range(len(seq)) if ms.aicprobs[dg][i] == max(ms.aicprobs[dg])), "best model at %s", dg)
                for i in range(len(seq)):
                    got = ms.maxprobdG_bymodel(i)
                    ensure(ms.aicprobs[got][i] == max(ms.aicprobs[g][i] for g in dgs), "uncertainty of greatest probability")
                    ensure(ms.dg_key(dg * 1.001) == dg and ms.dg_key(dg) == dg, "nearest uncertainty")

        first = ms
        check_models(ms)
        # Classes: by first appearance, members in order.
        want = {}
        for i, k in enumerate(seq):
            want.setdefault(alpha[k][2], []).append(i)
        want = list(want.values())
        grid = CLASS_GRID
        ms.classify(grid)
        check_classes(ms, want, dgs, stat, weights, close, seq, alpha)
        # Statistics saved and loaded
        other = MultimodelSelection()
        other.setppe(pe)
        other.results = ms.results
        other.loadaics(path)
        check_models(other)
        other.classify(grid)
        check_classes(other, want, dgs, stat, weights, close, seq, alpha)
        # again, with other uncertainties
        if len(dgs) > 1:
            keep = dgs
            dgs = dgs[1:]
            ms.makeaics(dgs, dr)
            check_models(ms)
            ms.classify(grid)
            check_classes(ms, want, dgs, stat, weights, close, seq, alpha)
            dgs = keep
            ms.makeaics(dgs, dr)
            ms.classify(grid)
        if case["plots"]:
            plots(ms, want, dgs)
            if len(dgs) == len(seq):
                ms.animate_probs()
                plt.close("all")
                ms.animate_classprobs()
                plt.close("all")
        if not set("ep") & set(seq):  # a file states one baseline function only
            ms.save(os.path.join(d, "s"))
            ms.load(os.path.join(d, "s"))
        for i in range(len(seq)):
            ms.setcurrent(i)
            current(ms, i, None)
        ensure(same(results(ms), before), "the results changed")
        cov.outcome((case["func"], case["aicc"], "".join(seq), dgs))
    return None


def check_classes(ms, want, dgs, stat, weights, close, seq, alpha):
    ensure([list(c) for c in ms.classes] == want, "classes are %s instead of %s", ms.classes, want)
    ensure({i: ms.classes_idx[i] for i in range(len(seq))} == {i: c for c, m in enumerate(want) for i in m}, "class of each model")
    best_cls, best_mod = set(), set()
    tied = False
    for dg in dgs:
        s = stat[dg]
        for c, members in enumerate(want):
            ensure(sorted(ms.sortedclasses[dg][c]) == members, "members of class %d at %s", c, dg)
            close([s[i] for i in ms.sortedclasses[dg][c]], sorted((s[i] for i in members), reverse=True), "order in class %d", c)
        bests = [min(s[i] for i in members) for members in want]
        w = weights(bests)
        close(ms.classweights[dg], w, "weights of classes at %s", dg)
        close(ms.classprobs[dg], w / w.sum(), "probabilities of classes at %s", dg)
        close([ms.classprobs[dg][c] for c in ms.sortedclassprobs[dg]], sorted(w / w.sum()), "order of classes at %s", dg)
        order = sorted(range(len(want)), key=lambda c: bests[c])
        tied = tied or min(np.diff(sorted(bests)), default=1) < 1e-6 or any(min(np.diff(sorted(s[i] for i in m)), default=1) < 1e-6 for m in want)
        top = [min(m, key=lambda i: s[i]) for m in want]
        best_cls.add(order[0])
        best_mod.add(top[order[0]])
        for corder in range(len(want)):
            c = ms.get_class(dg, corder=corder)
            close((w / w.sum())[c], sorted(w / w.sum())[-1 - corder], "class of order %d", corder)
            for morder in range(len(want[c])):
                m = ms.get_model(dg, corder=corder, morder=morder)
                ensure(m in want[c], "a model of another class")
                close(s[m], sorted(s[i] for i in want[c])[morder], "model of order %d", morder)
                kw = {"corder": corder, "morder": morder}
                close(ms.get_prob(dg, **kw), (w / w.sum())[c], "probability of the class")
                ensure(ms.get_nfree(dg, **kw) == counts(*alpha[seq[m]][:2]), "free parameters")
                close(ms.get_aic(dg, **kw), s[m], "statistic")
                got = ms.get(dg, "dG", "model", "class", "aic", "nfree", "prob", **kw)
                ensure(got[0] == dg and got[1] == m and got[2] == c and got[4] == ms.get_nfree(dg, **kw), "values got together: %s", got)
                close([got[3], got[5]], [s[m], (w / w.sum())[c]], "values got together")
        for c in range(len(want)):
            m = ms.get_model(dg, cls=c)
            ensure(m in want[c], "a model of another class")
            close(s[m], bests[c], "best of class %d", c)
        for morder in range(len(seq)):
            m = ms.get_model(dg, cls=None, morder=morder)
            p = weights(s) / weights(s).sum()
            close(p[m], sorted(p)[-1 - morder], "model of order %d without classes", morder)
            close(ms.get_prob(dg, cls=None, morder=morder), p[m], "its probability")
        m = ms.maxprobmodel_byclass(dg)
        close(s[m], min(bests), "best model of the best class")
    sub = [list(dgs[:k]) for k in range(1, len(dgs) + 1)]
    if not tied:
        ensure(set(ms.bestclasses()) == best_cls and set(ms.bestmodels()) == best_mod, "best classes and models")
        for some in sub:
            where = [(min(range(len(want)), key=lambda c: min(stat[g][i] for i in want[c])), g) for g in some]
            ensure(sorted(ms.bestclasses(some)) == sorted({c for c, g in where}), "best classes at some uncertainties")
            for c, members in enumerate(want):
                if len(some) == len(dgs):
                    ensure(list(ms.classbestdgs(c)) == list(ms.classbestdgs(c, ms.dgs)), "all uncertainties where class %d is best", c)
                    ensure(all(list(ms.modelbestdgs(i)) == list(ms.modelbestdgs(i, ms.dgs)) for i in members), "all uncertainties of models")
                ensure(list(ms.classbestdgs(c, some)) == [g for k, g in where if k == c], "uncertainties where class %d is best", c)
                for i in members:
                    ensure(list(ms.modelbestdgs(i, some)) == [g for k, g in where if k == c and stat[g][i] == min(stat[g][j] for j in members)],
                           "uncertainties where model %d is best", i)
    for i in range(len(seq)):
        c = ms.classes_idx[i]
        g = ms.maxprobdG_byclass(i)
        ensure(ms.classprobs[g][c] == max(ms.classprobs[h][c] for h in dgs), "uncertainty of greatest probability of the class")


def plots(ms, want, dgs):
    top = [max(ms.classprobs[g][c] for g in dgs) for c in range(len(want))]
    for kw, shown in (
        ({}, list(range(len(want)))),
        ({"class_size": "fraction", "norm": "full"}, list(range(len(want)))),
        ({"highlight": [dgs[0]], "scale": 2.0, "norm": "full"}, list(range(len(want)))),
        ({"classes": [len(want) - 1], "title": "own"}, [len(want) - 1]),
        ({"probfilter": [0.3, 1.0]}, [c for c in range(len(want)) if top[c] >= 0.3]),
    ):
        if not shown:
            continue
        plt.figure()
        out = ms.plot3dclassprobs(**kw)
        ax = out["axis"]
        ensure([t.get_text() for t in ax.get_yticklabels()] == [str(c) for c in shown], "classes shown")
        title = plt.gcf().get_suptitle()
        if "title" in kw:
            ensure(title == "own", "title")
        else:
            ensure("%d/%d classes" % (len(shown), len(want)) in title and "%d/%d models" % (sum(len(want[c]) for c in shown), len(ms.results))
                   in title, "title %s", title)
        if "highlight" in kw:
            lines = ax.get_lines()
            ensure(len(lines) == len(shown), "highlights")
            for line, c in zip(lines, shown):
                xs, ys, zs = line.get_data_3d()
                ensure(np.allclose(xs, kw["scale"] * dgs[0]) and np.allclose(zs[1], ms.classprobs[dgs[0]][c]), "highlight of class %d", c)
        plt.close("all")


def cases_selection(tier):
    sets = ([0.05, 0.1, 0.4], [0.3, 0.02], [0.2])
    for x, y in itertools.permutations("abdz", 2):  # many models of equal probability
        yield {"func": "gor", "base": "line", "nyquist": True, "aicc": False, "models": [x, y] * 12 + [y] * 9, "dgs": sets[0],
               "dr": np.pi / QMAX, "plots": False}
    for func in FUNC:
        for aicc in (False, True):
            for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                for seq in itertools.product("aAfbcdzehi" if n == 2 else "aAfbcdzep", repeat=n):
                    if "p" in seq and not set(seq) <= set("apd"):
                        continue
                    if n == 4 and ("p" in seq or "e" in seq and seq[1] != "e"):
                        continue
                    for i, dgs in enumerate(sets):
                        if n >= 3 and i and tier == "quick":
                            continue
                        if n == 4 and (i or aicc):
                            continue
                        yield {"func": func, "base": "line", "nyquist": True, "aicc": aicc, "models": list(seq), "dgs": dgs,
                               "dr": np.pi / QMAX if i == 0 else 0.1, "plots": n == 3 and len(set(seq)) == 3 and func == "gor" and not aicc}


CHECK = Check(
    "C23",
    "model_checking",
    [
        Scenario("stability", cases_stability, run_stability, timeout=600,
                 doc="every sequence of uncertainties against extraction alone, and every history of operations on the results"),
        Scenario("selection", cases_selection, run_selection, timeout=300,
                 doc="every sequence of models of the alphabet against directly computed statistics, probabilities and classes"),
    ],
    rule="results of extraction alone, formulas of the Akaike criterion, and a given partition into classes",
)
