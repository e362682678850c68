"""C13: searching for better models by removing and adding peaks."""
import itertools

import numpy as np

from diffpy.srmise import srmiselog
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peak, Peaks
from mc.checks.c12 import solver
from mc.harness import Check, Scenario, ensure
from mc.models import make

R = np.arange(1.0, 6.0, 0.1)
SL = {"all": slice(0, len(R)), "inner": slice(6, 40)}
EV = {"AIC": AIC, "AICc": AICc}
# peaks of the alphabet: position, width parameter, area
TRUE = [[1.9, 0.2, 1.6], [2.8, -0.2, 1.1], [4.0, 0.3, 2.4]]
ALPHA = {
    "a": TRUE[0],
    "b": TRUE[1],
    "c": TRUE[2],
    "a+": [1.97, 0.1, 1.3],
    "c-": [3.93, 0.35, 1.2],
    "n": [3.4, 0.0, 0.02],
    "w": [3.0, 1.5, 0.9],
    "z": [5.2, 0.0, 0.3],
}
BL = {"none": None, "line": [-0.25, 0.4]}
MASKS = {"f": [True] * 3, "p": [False, True, True], "x": [False] * 3, "s": [True, False, True]}


def data(true, bl, noise):
    o = make("gor:0.7")
    y = np.zeros(len(R))
    for k in true:
        y = y + o.value(Peak(o, ALPHA[k]), R)
    if BL[bl] is not None:
        y = y + BL[bl][0] * R + BL[bl][1]
    k = np.arange(len(R))
    return y + noise * np.sin(7.3 * k + k * k), 0 * R + 0.05


def peaks(o, model):
    ps = []
    for name, mask, rm in model:
        p = Peak(o, ALPHA[name], MASKS[mask], rm)
        ps.append(p)
    return Peaks(sorted(ps, key=lambda p: p["position"]))


def cluster(case, model):
    y, e = data(case["true"], case["bl"], case["noise"])
    o = make("gor:0.7")
    bl = None
    if BL[case["bl"]] is not None:
        f = make("poly:1")
        bl = Baseline(f, BL[case["bl"]])
    return ModelCluster(peaks(o, model), bl, R, y, e, SL[case["slice"]], EV[case["ev"]], [o])


def snap(mc):
    return (
        mc.slice,
        mc.size,
        mc.y_data.tobytes(),
        mc.y_error.tobytes(),
        mc.r_data.tobytes(),
        mc.y_cluster.tobytes(),
        mc.r_cluster.tobytes(),
        mc.error_cluster.tobytes(),
        None if mc.baseline is None else (tuple(mc.baseline.pars), tuple(mc.baseline.free)),
        len(mc.peak_funcs),
        mc.error_method,
        mc.never_fit,
    )


def fixed(model, only=None):
    return sorted(
        (tuple(bool(f) for f in p.free), tuple(float(v) for v, f in zip(p.pars, p.free) if not f))
        for p in model
        if only is None or bool(p.removable) == only
    )


def contained(a, b):
    """Every element of list a is in b, as often."""
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


def params(model):
    return sorted(tuple(float(v) for v in p.pars) for p in model)


def stat(mc, model):
    old = mc.model
    mc.model = Peaks([p.copy() for p in model])
    q = mc.quality().stat
    mc.model = old
    return q


def common(mc, before, models, tr, q0):
    ensure(snap(mc) == before, "data, extent or baseline of the cluster changed")
    t = srmiselog.tracer
    ensure((t.call, t.recursion) == tr, "the tracer is left at %s instead of %s", (t.call, t.recursion), tr)
    q1 = mc.quality().stat
    ensure(np.isfinite(q1) and q1 <= q0 + 1e-6 * (1 + abs(q0)), "quality went from %s to %s", q0, q1)
    for p in mc.model:
        ensure(np.all(np.isfinite(p.pars)), "parameters %s", list(p.pars))
    return q1


def tracer():
    t = srmiselog.settracer()
    t.pushc()
    t.pushr()
    return t, (t.call, t.recursion)


def run_prune(case, cov):
    mc = cluster(case, case["model"])
    start = mc.model.copy()
    before, q0 = snap(mc), mc.quality().stat
    t, tr = tracer()
    kind = case["kind"]
    with solver(kind) as s:
        s.reflect = lambda x: x
        mc.prune()
    cov.transition(1 + s.calls)
    try:
        q1 = common(mc, before, start, tr, q0)
    finally:
        srmiselog.settracer()
    ensure(len(mc.model) <= len(start), "pruning added peaks")
    keep = fixed(start, False)
    ensure(fixed(mc.model, False) == keep, "peaks that may not be removed: %s became %s", keep, fixed(mc.model, False))
    ensure(contained(fixed(mc.model), fixed(start)), "fixed parameters changed from %s to %s", fixed(start), fixed(mc.model))
    pos = [p["position"] for p in mc.model]
    ensure(pos == sorted(pos), "peaks are not sorted: %s", pos)
    # a model no removable peak of which can be left out with profit
    tol = 1e-6 * (1 + abs(q1))
    for i, p in enumerate(mc.model):
        if p.removable:
            q = stat(mc, [v for j, v in enumerate(mc.model) if j != i])
            ensure(q >= q1 - tol, "without the peak at %s the quality is %s, better than %s", p["position"], q, q1)
    if kind in ("raise", "unconverged"):
        # without fits only peaks are removed, one by one the best choice
        ref = [p.copy() for p in start]
        best = q0
        close = False
        while True:
            cand = [(stat(mc, ref[:i] + ref[i + 1 :]), i) for i, p in enumerate(ref) if p.removable]
            if not cand:
                break
            cand.sort()
            close |= abs(cand[0][0] - best) < 1e-7 * (1 + abs(best))
            close |= len(cand) > 1 and abs(cand[0][0] - cand[1][0]) < 1e-7 * (1 + abs(best))
            if not cand[0][0] < best:
                break
            best = cand[0][0]
            del ref[cand[0][1]]
        if not close:
            ensure(np.allclose(params(mc.model), params(ref), rtol=1e-9) if len(ref) == len(mc.model) else False, "pruned to %s instead of %s", params(mc.model), params(ref))
    return (len(start), len(mc.model), kind, round(q1, 2))


def models(names, sizes):
    for n in sizes:
        for c in itertools.combinations(names, n):
            yield c


def prune_cases(tier):
    deep = tier == "thorough"
    names = list(ALPHA)
    kinds = ["real", "raise", "worse", "halfway", "singular"]
    kinds += ["unconverged", "same", "nan", "far"] if deep else []
    base = {"true": ["a", "b", "c"], "bl": "none", "noise": 0.02, "slice": "all", "ev": "AICc"}
    # every set of peaks
    for c in models(names, (0, 1, 2, 3, 4) if not deep else (0, 1, 2, 3, 4, 5)):
        for kind in kinds:
            if len(c) == 4 and kind in ("worse", "singular", "halfway") and not deep:
                continue
            yield dict(base, model=[(k, "f", True) for k in c], kind=kind)
    # every choice of removable peaks, and of fixed parameters
    for c in models(names, (1, 2, 3)):
        for rm in itertools.product((True, False), repeat=len(c)):
            for masks in ("fff", "ppp", "xxx", "pfx", "fxs"):
                if all(rm) and masks == "fff":
                    continue
                if len(c) == 3 and not deep and (masks in ("fff", "ppp") or sum(rm) == 1):
                    continue
                for kind in ("raise", "real"):
                    yield dict(base, model=[(k, m, r) for k, m, r in zip(c, masks, rm)], kind=kind)
    # baselines, extents, evaluators, other data
    for c in models(names, (1, 2, 3)):
        for bl, sl, ev, true, noise in itertools.product(BL, SL, EV, (["a", "c"], ["a", "b", "c", "z"], []), (0.0, 0.02, 0.2)):
            if len(c) == 3 and not deep and (ev == "AIC" or not true or noise == 0.2 or sl == "all"):
                continue
            for kind in ("raise", "real") if deep or len(c) < 3 else ("raise",):
                if kind == "real" and not deep and len(c) == 2 and (sl == "all" or ev == "AIC"):
                    continue
                yield {"true": true, "bl": bl, "noise": noise, "slice": sl, "ev": ev, "model": [(k, "f", True) for k in c], "kind": kind}
    # models larger than the neighbourhood that is fit
    for c in models(names, (5, 6, 7, 8)):
        for kind in ("raise", "real") if deep or len(c) > 6 else ("raise",):
            if not (deep and len(c) == 5):
                yield dict(base, model=[(k, "f", True) for k in c], kind=kind)


def run_augment(case, cov):
    mc = cluster(case, case["model"])
    src = cluster(case, case["source"])
    start, offered = mc.model.copy(), src.model.copy()
    sb = (snap(src), params(src.model))
    before, q0 = snap(mc), mc.quality().stat
    t, tr = tracer()
    kind = case["kind"]
    with solver(kind) as s:
        s.reflect = lambda x: x
        mc.augment(src)
    cov.transition(1 + s.calls)
    try:
        q1 = common(mc, before, start, tr, q0)
    finally:
        srmiselog.settracer()
    ensure((snap(src), params(src.model)) == sb, "the source changed")
    ensure(len(mc.model) <= len(start) + len(offered), "more peaks than offered")
    ensure(contained(fixed(start, False), fixed(mc.model, False)), "a peak that may not be removed is gone")
    ensure(contained(fixed(mc.model), fixed(start) + fixed(offered)), "fixed parameters changed")
    pos = [p["position"] for p in mc.model]
    ensure(pos == sorted(pos), "peaks are not sorted: %s", pos)
    for p in mc.model:
        ensure(not any(p is q for q in src.model), "peaks of the source are shared")
    if kind in ("raise", "unconverged"):
        ref = [p.copy() for p in start]
        left = [p.copy() for p in offered]
        best, close = q0, False
        while left:
            cand = sorted((stat(mc, ref + [p]), i) for i, p in enumerate(left))
            close |= abs(cand[0][0] - best) < 1e-7 * (1 + abs(best))
            close |= len(cand) > 1 and abs(cand[0][0] - cand[1][0]) < 1e-7 * (1 + abs(best))
            if not cand[0][0] < best:
                break
            best = cand[0][0]
            ref.append(left.pop(cand[0][1]))
        if not close:
            ensure(np.allclose(params(mc.model), params(ref), rtol=1e-9) if len(ref) == len(mc.model) else False, "augmented to %s instead of %s", params(mc.model), params(ref))
    return (len(start), len(offered), len(mc.model), kind, round(q1, 2))


def augment_cases(tier):
    deep = tier == "thorough"
    names = list(ALPHA)
    base = {"true": ["a", "b", "c"], "bl": "none", "noise": 0.02, "slice": "all", "ev": "AICc"}
    for c in models(names, (0, 1, 2)):
        for d in models(names, (0, 1, 2) if not deep else (0, 1, 2, 3)):
            for kind in ("raise", "real") if not deep else ("raise", "real", "halfway", "worse", "singular"):
                if kind != "raise" and not deep and (len(c) + len(d) > 3 or len(d) > 1 and "b" not in d):
                    continue
                yield dict(base, model=[(k, "f", True) for k in c], source=[(k, "f", True) for k in d], kind=kind)
    for c in models(names[:5], (1,)):
        for d in models(names[:6], (1, 2)):
            for m1, m2 in itertools.product(MASKS, MASKS):
                for rm in itertools.product((True, False), repeat=2):
                    for kind in ("raise", "real") if deep or rm == (False, True) else ("raise",):
                        yield dict(base, model=[(k, m1, rm[0]) for k in c], source=[(k, m2, rm[1]) for k in d], kind=kind)
    for bl, sl, ev, noise in itertools.product(BL, SL, EV, (0.0, 0.2)):
        for c in models(names, (0, 1)):
            for d in models(names, (2,)):
                for kind in ("raise", "real") if deep else ("raise",):
                    yield {"true": ["a", "c"], "bl": bl, "noise": noise, "slice": sl, "ev": ev, "model": [(k, "f", True) for k in c], "source": [(k, "f", True) for k in d], "kind": kind}


def run_reduce(case, cov):
    mc = cluster(case, case["model"])
    start, before = mc.model.copy(), snap(mc)
    x = case["x"]
    v0 = float(np.asarray(mc.value(np.array([x])))[0])
    y = case["y"] + v0
    # what the documentation composes it of: match the height, fit, and keep it if hidden peaks are unlikely
    want, tie = None, abs(case["y"]) < 1e-9
    if case["y"] < 0:
        ref = cluster(case, case["model"])
        ref.model.match_at(x, y - ref.valuebl(x))
        with solver(case["kind"]) as s:
            s.reflect = lambda x: x
            q = ref.fit()
        if q is not None and not q.growth_justified(ref, 3):
            want = params(ref.model)
    with solver(case["kind"]) as s:
        s.reflect = lambda x: x
        got = mc.reduce_to(x, y)
    cov.transition(1 + s.calls)
    ensure(snap(mc) == before, "data, extent or baseline of the cluster changed")
    if case["y"] > 0:
        ensure(got is None, "reduced where the model was below")
    if got is None:
        ensure(params(mc.model) == params(start), "not reduced, but changed from %s to %s", params(start), params(mc.model))
    else:
        q = mc.quality().stat
        ensure(abs(got.stat - q) < 1e-7 * (1 + abs(q)), "quality %s is reported as %s", q, got.stat)
        ensure(not got.growth_justified(mc, 3), "reduced although hidden peaks are likely")
    if not tie:
        ensure((got is None) == (want is None), "reduced: %s, though matching, fitting and checking for hidden peaks says %s", got is not None, want is not None)
        ensure(want is None or np.allclose(params(mc.model), want), "reduced to %s instead of %s", params(mc.model), want)
    if case["kind"] == "raise":
        ensure(got is None, "a failed fit was reported as success")
    ensure(fixed(mc.model, False) == fixed(start, False), "a peak that may not be removed is gone")
    ensure(contained(fixed(mc.model), fixed(start)), "fixed parameters changed")
    pos = [p["position"] for p in mc.model]
    ensure(pos == sorted(pos), "peaks are not sorted: %s", pos)
    return (case["kind"], got is None, len(mc.model))


def reduce_cases(tier):
    names = list(ALPHA)
    base = {"true": ["a", "b", "c"], "noise": 0.02, "slice": "inner", "ev": "AICc"}
    for c in models(names, (1, 2)):
        for masks in ("ff", "fp", "xs"):
            for bl in BL:
                for x in (1.6, 3.0, 4.95):
                    for y in (0.3, 0.0, -0.2, -2.0):
                        for kind in ("raise", "real", "same"):
                            if tier != "thorough" and len(c) == 2 and kind == "real" and (y >= 0 or x == 3.0):
                                continue
                            yield dict(base, bl=bl, model=[(k, m, True) for k, m in zip(c, masks)], x=x, y=y, kind=kind)
                            if masks == "ff" and kind != "raise":
                                # data no further peaks are hidden in
                                yield dict(base, true=list(c), bl=bl, model=[(k, m, True) for k, m in zip(c, masks)], x=x, y=y, kind=kind)


CHECK = Check(
    "C13",
    "exploration",
    [
        Scenario("prune", prune_cases, run_prune, doc="every set of up to 4 (thorough 8) of 8 peaks x removable x fixed x outcomes of the solver"),
        Scenario("augment", augment_cases, run_augment, doc="every pair of sets of up to 2 (3) of 8 peaks"),
        Scenario("reduce", reduce_cases, run_reduce, doc="sets of 1 or 2 peaks x borders x heights"),
    ],
    rule="one case per set of peaks, choice of removable peaks and fixed parameters, and outcome of the solver",
    assumptions=["a stand-in replaces scipy.optimize.leastsq to produce the outcomes"],
)
