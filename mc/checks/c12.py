"""C12: fitting under every outcome of the solver."""
import contextlib
import io
import itertools

import numpy as np
import scipy.optimize

import diffpy.srmise.modelparts as mp
from diffpy.srmise.modelcluster import ModelCluster, ModelCovariance
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.srmiseerrors import SrMiseFitError
from mc.harness import Check, Scenario, ensure
from mc.models import make, part_class

REAL = scipy.optimize.leastsq


class Solver:
    """Stands in for the solver and returns the outcome it is told to."""

    def __init__(self, kind):
        self.kind, self.calls = kind, 0

    def __call__(self, func, x0, args=(), Dfun=None, full_output=0, col_deriv=0, **kw):
        self.calls += 1
        x0 = np.array(x0, dtype=float)
        kind = self.kind
        real = REAL(func, x0.copy(), args=args, Dfun=Dfun, full_output=True, col_deriv=col_deriv, **kw)
        best = np.array(real[0], dtype=float)
        self.best = best
        if kind == "real":
            self.x, self.pcov, self.fvec = best, real[1], real[2]["fvec"]
            return real
        wander = x0 + 0.7 + 0.1 * np.arange(len(x0))
        if kind == "raise":
            func(wander, *args)
            raise ValueError("solver failed")
        if kind == "nojac" and Dfun is not None:
            func(wander, *args)
            raise NotImplementedError("no derivative")
        if kind == "nan":
            func(best * np.nan, *args)
        if kind == "unconverged":
            x, ier = wander, 5
        elif kind == "unconverged-better":
            x, ier = 0.5 * (best + x0), 8
        elif kind == "badinput":
            x, ier = x0, 0
        elif kind == "worse":
            x, ier = wander, 1
        elif kind == "far":
            x, ier = x0 + 50.0, 4
        elif kind == "same":
            x, ier = x0, 2
        elif kind == "singular":
            x, ier = best, 3
        elif kind == "halfway":
            x, ier = 0.5 * (best + x0), 1
        elif kind == "reflected":
            x, ier = self.reflect(best), 1
        else:
            x, ier = best, 1
        n = len(x)
        a = np.array([[np.sin(1.3 + 2.1 * i + 0.7 * j * j) for j in range(n)] for i in range(n)])
        pcov = None if kind == "singular" else 0.01 * (a @ a.T + np.eye(n))
        fvec = np.array(func(x, *args))
        self.x, self.pcov, self.fvec = x, pcov, fvec
        func(wander, *args)  # the solver need not end where it found its solution
        return x.copy(), pcov, {"fvec": fvec, "nfev": 3}, "scripted", ier

    reflect = staticmethod(lambda x: x)


@contextlib.contextmanager
def solver(kind):
    s = Solver(kind)
    old = getattr(mp, "leastsq", None)
    scipy.optimize.leastsq = s
    if old is not None:
        mp.leastsq = s
    try:
        yield s
    finally:
        scipy.optimize.leastsq = REAL
        if old is not None:
            mp.leastsq = old


FAIL = ("raise", "nan", "unconverged", "unconverged-better", "badinput")
KINDS = ("real", "nojac", "worse", "far", "same", "singular", "halfway", "reflected", "best") + FAIL

# models: (names, parameters, offsets of the starting point)
MODELS = {
    "one": (["gor:0.7"], [[2.5, 0.1, 1.5]], [[0.05, 0.2, -0.3]]),
    "gauss": (["gauss:0.7"], [[2.5, -0.2, 1.5]], [[-0.04, 0.1, 0.4]]),
    "two": (["gor:0.7", "gor:0.7"], [[2.2, 0.1, 1.5], [3.0, -0.4, 0.8]], [[0.03, 0.2, -0.2], [-0.02, 0.1, 0.2]]),
    "peak+line": (["gor:0.7", "poly:1"], [[2.5, 0.1, 1.5], [-0.3, 0.2]], [[0.02, 0.1, 0.2], [0.1, -0.1]]),
    "peak+seq": (["gor:0.7", "seq"], [[2.5, 0.1, 1.5], []], [[0.02, 0.1, 0.2], []]),
    "line": (["poly:1"], [[-0.3, 0.2]], [[0.4, 0.4]]),
    "sphere": (["gauss:0.7", "nano"], [[2.5, 0.1, 1.5], [0.8, 6.0]], [[0.02, 0.1, 0.2], [0.1, 0.3]]),
    "ripple": (["tr:gor:0.7/20.0"], [[2.5, 0.1, 1.5]], [[0.03, 0.1, -0.2]]),
}
R = np.arange(1.5, 4.0, 0.08)


def build(model, mask, exact=False):
    names, pars, off = MODELS[model]
    owners, parts, at = {}, [], 0
    for n, p, d in zip(names, pars, off):
        o = owners.setdefault(n, make(n))
        f = list(mask[at : at + len(p)])
        # fixed parameters are at their true value
        start = [v + (0 if exact or not free else w) for v, w, free in zip(p, d, f)]
        parts.append(part_class(n)(o, start, f))
        at += len(p)
    return ModelParts(parts)


def data(model, noise):
    m = build(model, [True] * 20, exact=True)
    k = np.arange(len(R))
    return np.array(m.value(R)) + noise * np.sin(7.3 * k + k * k), 0.05 + 0.001 * k


def masks(model):
    n = sum(len(p) for p in MODELS[model][1])
    return [m for m in itertools.product((True, False), repeat=n)]


RNG = {"all": None, "part": slice(3, 27), "open": slice(None, 25)}


def chisq(m, y, e, s):
    return float((((y - np.asarray(m.value(R))) / e)[s] ** 2).sum())


def numgrad(owner, raw, fmt):
    g = np.zeros((len(raw), len(raw)))
    for k in range(len(raw)):
        h = 1e-6
        up, dn = np.array(raw), np.array(raw)
        up[k] += h
        dn[k] -= h
        g[:, k] = (np.array(owner.transform_parameters(up, "internal", fmt)) - np.array(owner.transform_parameters(dn, "internal", fmt))) / (2 * h)
    return g


def reflector(names, lens, mask):
    """Other parameters for the same functions."""

    def f(x):
        x = np.array(x)
        k = at = 0
        for n, l in zip(names, lens):
            for j in range(l):
                if mask[at]:
                    if n.split(":")[0] in ("gor", "gauss", "tr"):
                        if j == 1:
                            x[k] = np.pi - x[k]
                        if j == 2:
                            x[k] = -x[k]
                    if n == "nano":
                        x[k] = -x[k]
                    k += 1
                at += 1
        return x

    return f


def run_parts(case, cov):
    model, mask, kind = case["model"], case["mask"], case["kind"]
    names = MODELS[model][0]
    lens = [len(p) for p in MODELS[model][1]]
    y, e = data(model, case["noise"])
    y0, e0 = y.copy(), e.copy()
    m = build(model, mask)
    start = [np.array(p.pars) for p in m]
    rng = RNG[case["range"]]
    sel = slice(None) if rng is None else rng
    before = chisq(m, y, e, sel)
    c = ModelCovariance()
    fmt = case["fmt"]
    with solver(kind) as s:
        s.reflect = reflector(names, lens, mask)
        try:
            m.fit(R, y, e, rng, 0, c, fmt)
            failed = False
        except SrMiseFitError:
            failed = True
    cov.transition()
    ensure(np.array_equal(y, y0) and np.array_equal(e, e0), "fitting changed the data")
    nfree = sum(mask)
    at = 0
    for p, p0, l in zip(m, start, lens):
        f = np.array(mask[at : at + l], dtype=bool)
        ensure(np.array_equal(p.pars[~f], p0[~f]), "a fixed parameter was changed")
        ensure(list(p.free) == list(f), "free flags changed")
        at += l
    if nfree == 0:
        ensure(not failed and s.calls == 0, "nothing to fit")
        return repr(case)
    if s.calls == 0:
        return repr(case)  # another solver is in use
    ensure(failed == (kind in FAIL), "the fit %s", "failed" if failed else "did not fail")
    if failed:
        return repr(case)
    if kind == "real":
        after = chisq(m, y, e, sel)
        ensure(after <= before * (1 + 1e-9) + 1e-9, "chi-squared grew from %s to %s", before, after)
        # no better parameters nearby: the gradient vanishes
        v = m.unpack_freepars()
        if not model == "ripple":
            g = []
            for j in range(nfree):
                d = []
                for h in (1e-5, -1e-5):
                    w = v.copy()
                    w[j] += h
                    m.pack_freepars(w)
                    d.append(chisq(m, y, e, sel))
                curv = (d[0] + d[1] - 2 * after) / 1e-10
                g.append((d[0] - d[1]) / 2e-5 / np.sqrt(abs(curv) + 1))
            m.pack_freepars(v)
            ensure(np.abs(g).max() < 0.02 * (1 + np.sqrt(after)), "not at a minimum: %s", g)
        if not case["noise"]:
            ensure(after < 1e-6 * (1 + before), "exact data are not found: chi-squared %s of %s", after, before)
    # the parameters found, in the preferred range
    k = at = 0
    raw = []
    for p, p0, l in zip(m, start, lens):
        w = np.array(p0)
        for j in range(l):
            if mask[at + j]:
                w[j] = s.x[k]
                k += 1
        at += l
        raw.append(w)
        want = p.owner().transform_parameters(w, "internal", "internal")
        ensure(np.allclose(p.pars, want, rtol=1e-9, atol=1e-12), "parameters %s instead of %s", list(p.pars), list(want))
    # covariance
    if s.pcov is None:
        ensure(c.cov is None, "covariance of a singular fit")
        return repr(case)
    npts = len(R[sel])
    v = np.zeros((len(mask), len(mask)))
    idx = [i for i in range(len(mask)) if mask[i]]
    v[np.ix_(idx, idx)] = s.pcov * float((np.asarray(s.fvec) ** 2).sum()) / (npts - nfree)
    g = np.eye(len(mask))
    at = 0
    pars = []
    for p, w, l in zip(m, raw, lens):
        o = p.owner()
        try:
            o.transform_derivatives(p.pars, "internal", fmt)
            f2 = fmt
        except Exception:
            f2 = "internal"
        try:
            t = o.transform_parameters(w, "internal", f2)
        except Exception:
            f2, t = "internal", o.transform_parameters(w, "internal", "internal")
        if l:
            g[at : at + l, at : at + l] = numgrad(o, w, f2)
        pars.extend(float(z) for z in t)
        at += l
    v = g @ v @ g.T
    got = np.asarray(c.cov)
    sc = np.sqrt(np.outer(np.diag(v), np.diag(v)))
    ensure(got.shape == v.shape and np.all(np.abs(got - v) <= 2e-4 * sc + 1e-12), "covariance of the fit\n%s\n%s", got, v)
    vals = [c.getvalue(i) for i in range(len(mask))]
    ensure(np.allclose(vals, pars, rtol=1e-6, atol=1e-9), "values in the covariance")
    return repr(case)


def parts_cases(tier):
    for model in MODELS:
        ms = masks(model)
        if len(ms) > 32 and tier != "thorough":
            ms = [m for m in ms if sum(m) in (0, 1, len(m) - 1, len(m))]
        for mask in ms:
            for noise in (0.0, 0.02):
                yield {"model": model, "mask": list(mask), "kind": "real", "noise": noise, "range": "all", "fmt": "default_output"}
            for rng in ("part", "open"):
                yield {"model": model, "mask": list(mask), "kind": "real", "noise": 0.02, "range": rng, "fmt": "internal"}
            for kind in KINDS[1:]:
                for fmt in ("default_output", "mu_sigma_area", "internal"):
                    if fmt != "default_output" and kind != "reflected":
                        continue
                    yield {"model": model, "mask": list(mask), "kind": kind, "noise": 0.02, "range": "part", "fmt": fmt}


def run_live(case, cov):
    """Plotting while fitting changes nothing and shows the data and the model fitted."""
    import builtins

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from diffpy.srmise import srmiselog

    model, mask, kind = case["model"], case["mask"], case["kind"]
    lens = [len(p) for p in MODELS[model][1]]
    y, e = data(model, 0.02)
    rng = RNG[case["range"]]

    def go():
        m, c = build(model, mask), ModelCovariance()
        with solver(kind) as s:
            s.reflect = reflector(MODELS[model][0], lens, mask)
            try:
                m.fit(R, y, e, rng, 0, c)
                failed = False
            except SrMiseFitError:
                failed = True
        return m, failed, s.calls, None if c.cov is None else np.array(c.cov)

    want = go()
    asked = []
    old = builtins.input
    builtins.input = lambda *a: asked.append(a) or ""
    try:
        srmiselog.liveplotting(True, case["wait"])
        plt.close("all")
        with contextlib.redirect_stdout(io.StringIO()):
            got = go()
        axes = [[(np.asarray(k.get_xdata(), dtype=float), np.asarray(k.get_ydata(), dtype=float)) for k in ax.get_lines()]
                for num in plt.get_fignums() for ax in plt.figure(num).axes]
    finally:
        builtins.input = old
        srmiselog.liveplotting(False, False)
        plt.close("all")
    cov.transition()
    ensure(got[1:3] == want[1:3], "outcome with plots is %s instead of %s", got[1:3], want[1:3])
    for a, b in zip(got[0], want[0]):
        ensure(np.array_equal(a.pars, b.pars) and np.array_equal(a.free, b.free), "parameters with plots differ")
    ensure((got[3] is None) == (want[3] is None) and (got[3] is None or np.array_equal(got[3], want[3])), "covariance with plots differs")
    if want[2] == 0:
        ensure(not asked, "waited without a fit")
        return
    tops = axes[:1] if want[1] and kind in ("raise", "nan") else axes
    for ax in tops:
        ensure(any(len(u) == len(R) and np.array_equal(u, R) and np.array_equal(v, y) for u, v in ax), "the data are not shown")
    if not want[1]:
        ensure(len(axes) == 2, "%d plots", len(axes))
        ensure(len(asked) == (1 if case["wait"] else 0), "waited %d times", len(asked))
        rest = list(axes[1])
        for p in got[0]:
            v = p.value(R) if rng is None else p.value(R, rng)
            hit = [i for i, (u, w) in enumerate(rest) if len(w) == len(v) and np.allclose(w, v, rtol=1e-7, atol=1e-9)]
            ensure(hit, "a fitted part is not shown")
            del rest[hit[0]]
    cov.outcome((model, kind, case["range"], want[1]))


def live_cases(tier):
    for model in MODELS:
        ms = masks(model)
        if tier != "thorough":
            ms = [m for m in ms if sum(m) in (0, len(m)) or sum(m) == len(m) - 1 and not m[0]]
        for mask in ms:
            for kind in KINDS if tier == "thorough" else ("real", "nojac", "singular", "raise", "nan", "unconverged", "worse"):
                for rng in RNG:
                    yield {"model": model, "mask": list(mask), "kind": kind, "range": rng, "wait": kind in ("real", "unconverged")}


def run_few(case, cov):
    """No fit with fewer data points than needed."""
    m = build(case["model"], case["mask"])
    y, e = data(case["model"], 0.0)
    nfree = sum(case["mask"])
    start = [list(p.pars) for p in m]
    s = slice(3, 3 + case["n"])
    try:
        if case["how"] == "range":
            m.fit(R, y, e, s)
        else:
            m.fit(R[s], y[s], e[s])
    except SrMiseFitError:
        ensure(case["n"] <= nfree or case["n"] < 8, "%s parameters not fit to %s points", nfree, case["n"])
        if case["n"] <= nfree:
            ensure([list(p.pars) for p in m] == start, "parameters changed")
    else:
        ensure(nfree == 0 and case["n"] > 0 or case["n"] > nfree, "%s parameters fit to %s points", nfree, case["n"])
    return repr(case)


def few_cases(tier):
    for model in ("one", "line", "peak+line", "peak+seq"):
        for mask in masks(model):
            for n in range(1, 8):
                for how in ("range", "data"):
                    yield {"model": model, "mask": list(mask), "n": n, "how": how}


def run_cluster(case, cov):
    """ModelCluster.fit(): never worse, reverted as a whole."""
    model, mask, kind = case["model"], case["mask"], case["kind"]
    names = MODELS[model][0]
    y, e = data(model, 0.02)
    y = y * case["scale"]
    parts = build(model, mask)
    bl = None
    if names[-1] in ("poly:1", "seq", "nano"):
        bl = parts[-1]
        peaks = Peaks(parts[:-1])
    else:
        peaks = Peaks(parts)
    for p, rm in zip(peaks, case["removable"]):
        p.removable = rm
    mc = ModelCluster(peaks, bl, R, y, e, slice(3, 28), {"AIC": AIC, "AICc": AICc}[case["ev"]], [p.owner() for p in peaks][:1])
    snap = lambda: [list(p.pars) for p in mc.model] + [None if mc.baseline is None else list(mc.baseline.pars)]
    start = snap()
    q0 = mc.quality().stat
    y0 = y.copy()
    fixed = {i: [v for v, f in zip(p.pars, p.free) if not f] for i, p in enumerate(mc.model)}
    kept = sorted((tuple(v for v, f in zip(p.pars, p.free) if not f), tuple(p.free)) for p in mc.model if not p.removable)
    blfree = None if mc.baseline is None else mc.baseline.free.copy()
    c = ModelCovariance()
    with solver(kind) as s:
        s.reflect = lambda x: x
        got = mc.fit(justify=case["justify"], fitbaseline=case["fitbl"], cov=c)
    cov.transition()
    end = snap()
    q1 = mc.quality().stat
    ensure(np.isfinite(q1) and q1 <= q0 + 1e-7 * (1 + abs(q0)), "the quality of the model went from %s to %s", q0, q1)
    ensure(np.array_equal(mc.y_data, y0) and mc.slice == slice(3, 28), "data or extent changed")
    if got is None:
        ensure(end == start, "no fit reported, but the model changed from %s to %s", start, end)
    else:
        ensure(abs(got.stat - q1) < 1e-9 * (1 + abs(q1)), "reported quality %s of a model of quality %s", got.stat, q1)
    if not case["fitbl"]:
        ensure(end[-1] == start[-1], "the baseline changed")
    if blfree is not None:
        ensure(list(mc.baseline.free) == list(blfree), "free flags of the baseline")
        ensure(all(a == b for a, b, f in zip(start[-1], end[-1], blfree) if not f), "fixed parameter of the baseline changed")
    now = sorted((tuple(v for v, f in zip(p.pars, p.free) if not f), tuple(p.free)) for p in mc.model if not p.removable)
    ensure(now == kept, "a peak that may not be removed was removed or its fixed parameters changed")
    if s.calls and kind in FAIL and sum(mask):
        ensure(got is None, "a failed fit was reported as done")
    if kind == "real" and case["scale"] == 1.0 and not case["justify"] and all(mask) and (bl is None or case["fitbl"] or names[-1] == "seq"):
        ensure(got is not None and q1 < q0, "a fit that succeeds was not accepted")
    pos = [p["position"] for p in mc.model]
    ensure(pos == sorted(pos), "peaks not sorted")
    return repr(case)


def cluster_cases(tier):
    for model in MODELS:
        if model == "line":
            continue
        ms = masks(model)
        if len(ms) > 8 and tier != "thorough":
            ms = [m for m in ms if sum(m) in (0, len(m) - 1, len(m))]
        for mask in ms:
            for kind in KINDS:
                for fitbl in (False, True):
                    if fitbl and not MODELS[model][0][-1] in ("poly:1", "seq", "nano"):
                        continue
                    for justify in (False, True):
                        for rm in ([True, True], [False, True]):
                            for ev, scale in (("AICc", 1.0), ("AIC", 1.0), ("AICc", 3.0)):
                                if ev == "AIC" and (justify or rm[0] is False):
                                    continue
                                yield {"model": model, "mask": list(mask), "kind": kind, "fitbl": fitbl, "justify": justify, "removable": rm, "ev": ev, "scale": scale}


def run_never(case, cov):
    """Below the errors nothing is fit; contingent fits wait for growth."""
    o = make("gor:0.7")
    y = case["h"] * np.exp(-((R - 2.5) ** 2) / 0.1)
    e = 0.2 + 0 * R
    mc = ModelCluster(None, None, R, y, e, slice(10, 10 + case["n"]), AICc, [o])
    below = not (y[10 : 10 + case["n"]] - e[10 : 10 + case["n"]] >= 0).any()
    with solver("real") as s:
        got = mc.contingent_fit(case["minpoints"], case["growth"])
        first = s.calls
        if below or case["n"] < case["minpoints"]:
            ensure(got is None and len(mc.model) == 0 and mc.last_fit_size == 0, "fit of %s points, %s needed", case["n"], case["minpoints"])
        elif len(mc.model):
            ensure(mc.last_fit_size == case["n"], "size of the last fit")
        size = mc.last_fit_size
        was = s.calls
        for n in range(case["n"], min(case["n"] + 8, len(R) - 10)):
            mc.change_slice(slice(10, 10 + n))
            never = mc.never_fit
            before = s.calls
            had = len(mc.model)
            mc.contingent_fit(case["minpoints"], case["growth"])
            if s.calls > before:
                ensure(not never, "a cluster below the errors was fit")
                if size:
                    ensure(n / size >= case["growth"] - 1e-12, "fit again at %s points after %s", n, size)
                else:
                    ensure(n >= case["minpoints"], "fit at %s points", n)
                ensure(mc.last_fit_size == n, "size of the last fit")
            elif not never and size and had:
                ensure(n / size < case["growth"] - 1e-12 or n <= 3 * had, "not fit at %s points after %s", n, size)
            size = mc.last_fit_size
            cov.transition()
    return repr(case)


def never_cases(tier):
    for h in (0.1, 0.19, 0.21, 1.0, 5.0):
        for n in range(1, 13):
            for mpts in (1, 4, 5, 8):
                for g in (1.0, 1.5, 2.0):
                    yield {"h": h, "n": n, "minpoints": mpts, "growth": g}


CHECK = Check(
    "C12",
    "exploration",
    [
        Scenario("live", live_cases, run_live, doc="models x choices of free parameters x outcomes x ranges, with and without live plots"),
        Scenario("few", few_cases, run_few, doc="every choice of free parameters x 1..7 points"),
        Scenario("never", never_cases, run_never, doc="heights x sizes x thresholds, growing point by point"),
        Scenario("parts", parts_cases, run_parts, doc="8 models x choices of free parameters x 14 outcomes of the solver"),
        Scenario("cluster", cluster_cases, run_cluster, doc="7 models x choices of free parameters x 14 outcomes x baseline x justification x removability"),
    ],
    rule="one case per model, choice of free parameters and outcome of the solver",
    assumptions=["a stand-in replaces scipy.optimize.leastsq to produce the outcomes"],
)
