"""C10: quality of models by AIC and AICc."""
import itertools
import math

import numpy as np

from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.srmiseerrors import SrMiseModelEvaluatorError
from mc.harness import Check, Scenario, ensure
from mc.models import make, part_class, ref_value

EV = {"AIC": AIC, "AICc": AICc}
PEAKS = [[2.0, -0.2, 1.5], [2.6, 0.3, 0.7], [3.1, 0.1, 1.1]]


def penalty(ev, k, n):
    return 2.0 * k if ev == "AIC" else 2.0 * k + 2.0 * k * (k + 1) / (n - k - 1)


def minpoints(ev, k):
    return 1 if ev == "AIC" else k + 2


def cluster(case):
    o, b = make("gor:0.7"), make("poly:1")
    n = case["n"]
    r = 1.5 + 0.13 * np.arange(n + 4)
    parts = [part_class("gor:0.7")(o, PEAKS[i], list(m)) for i, m in enumerate(case["masks"])]
    bl = part_class("poly:1")(b, [-0.2, 0.3], case["blfree"]) if case["blfree"] is not None else None
    y = np.sin(3 * r) * case["h"] + case["h"]
    dy = 0.3 + 0.05 * np.arange(len(r))
    s = slice(2, 2 + n)
    mc = ModelCluster(Peaks(parts), bl, r, y, dy, s, EV[case["ev"]], [o])
    model = sum((ref_value("gor:0.7", PEAKS[i], r) for i in range(len(parts))), 0 * r)
    if bl is not None:
        model = model + -0.2 * r + 0.3
    chi = float((((y - model) / dy)[s] ** 2).sum())
    return mc, chi


def run_value(case, cov):
    ev = case["ev"]
    mc, chi = cluster(case)
    free = sum(sum(m) for m in case["masks"])
    allp = 3 * len(case["masks"])
    before = [np.array(p.pars) for p in mc.model], np.array(mc.y_data), mc.slice
    for kshift, count in itertools.product(range(-4, 5), (None, False, True)):
        k = (allp if count else free) + kshift
        kw = {"kshift": kshift} if kshift else {}
        if count is not None:
            kw["count_fixed"] = count
        inst = EV[ev]()
        where = (kshift, count)
        try:
            stat = inst.evaluate(mc, **kw)
        except SrMiseModelEvaluatorError:
            ensure(k < 0, "refused for %s parameters", k, where=where)
            continue
        ensure(k >= 0, "evaluated for %s parameters", k, where=where)
        n = max(case["n"], minpoints(ev, k))
        want = chi + penalty(ev, k, n)
        ensure(np.isclose(stat, want, rtol=1e-9), "%s is %s, not %s", ev, stat, want, where=where)
        ensure(stat == inst.stat and np.isclose(inst.chisq, chi, rtol=1e-9), "statistic or chi-squared kept", where=where)
        ensure(inst.evaluate(mc, **kw) == stat, "evaluated again", where=where)
        cov.transition()
    q = mc.quality()
    ensure(type(q) is EV[ev] and np.isclose(q.stat, chi + penalty(ev, free, max(case["n"], minpoints(ev, free)))), "quality() of a cluster")
    for other in EV:
        qo = mc.quality(EV[other])
        ensure(type(qo) is EV[other] and np.isclose(qo.stat, chi + penalty(other, free, max(case["n"], minpoints(other, free)))), "quality(%s)", other)
    if free:
        qk = mc.quality(kshift=-1)
        ensure(np.isclose(qk.stat, chi + penalty(ev, free - 1, max(case["n"], minpoints(ev, free - 1)))), "quality(kshift)")
    for kp in range(0, 8):
        for inst in (EV[ev](), mc.quality()):
            got = bool(inst.growth_justified(mc, kp))
            if case["n"] < minpoints(ev, free + kp):
                want = False
            else:
                n = max(case["n"], minpoints(ev, free))
                cost = penalty(ev, free + kp, n) - penalty(ev, free, n)
                if abs(cost - chi) < 1e-9 * (1 + chi):
                    continue
                want = cost < chi
            ensure(got == want, "%s more parameters justified: %s", kp, got, where=kp)
    for k in range(0, 9):
        ensure(EV[ev]().minpoints(k) == minpoints(ev, k), "points needed for %s parameters", k)
    ensure(all(np.array_equal(p.pars, b) for p, b in zip(mc.model, before[0])), "evaluating changed the model")
    ensure(np.array_equal(mc.y_data, before[1]) and mc.slice == before[2], "evaluating changed the data")
    return repr(case)


def value_cases(tier):
    some = [(1, 1, 1), (1, 0, 1), (0, 0, 0), (0, 1, 1)]
    masks = [()] + [(m,) for m in itertools.product((1, 0), repeat=3)] + list(itertools.product(some, repeat=2))
    if tier == "thorough":
        masks += list(itertools.product(some, repeat=3))
    for ev in EV:
        for m in masks:
            for n in range(1, 15) if tier == "thorough" else (1, 2, 3, 4, 5, 6, 8, 9, 12):
                for bf in (None, [True, True], [True, False]):
                    for h in (0.0, 0.4, 2.0):
                        yield {"ev": ev, "masks": [list(map(bool, x)) for x in m], "n": n, "blfree": bf, "h": h}


STATS = [-3.0, 0.0, 0.5, 0.5 + 1e-9, 7.0, 7.0, 1500.0, float("inf")]


def run_order(case, cov):
    a, b = EV[case["a"]](), EV[case["b"]]()
    a.stat, b.stat = case["x"], case["y"]
    ops = {
        "<": (lambda: a < b, lambda x, y: x > y),
        "<=": (lambda: a <= b, lambda x, y: x >= y),
        "==": (lambda: a == b, lambda x, y: x == y),
        "!=": (lambda: a != b, lambda x, y: x != y),
        ">": (lambda: a > b, lambda x, y: x < y),
        ">=": (lambda: a >= b, lambda x, y: x <= y),
    }
    ok = case["a"] == case["b"] and case["x"] is not None and case["y"] is not None
    for name, (f, want) in ops.items():
        try:
            got = bool(f())
        except AssertionError:
            ensure(not ok, "comparison %s refused", name)
        else:
            ensure(ok, "comparison %s accepted", name)
            ensure(got == want(case["x"], case["y"]), "%s of statistics %s and %s is %s", name, case["x"], case["y"], got)
    return repr(case)


def order_cases(tier):
    for a, b in itertools.product(EV, EV):
        for x, y in itertools.product(STATS + [None], repeat=2):
            yield {"a": a, "b": b, "x": x, "y": y}


def run_weights(case, cov):
    ev = EV[case["ev"]]
    qs = []
    for s in case["stats"]:
        q = ev()
        q.stat = s
        qs.append(q)
    w, p = ev.akaikeweights(qs), ev.akaikeprobs(qs)
    lo = min(case["stats"])
    want = [math.exp(-(s - lo) / 2) for s in case["stats"]]
    ensure(np.allclose(w, want, rtol=1e-9), "weights %s", list(w))
    ensure(np.allclose(p, np.array(want) / sum(want), rtol=1e-9), "probabilities %s", list(p))
    ensure(np.isclose(np.sum(p), 1) and max(w) == 1, "normalization")
    srt = sorted(qs)
    ensure([q.stat for q in srt] == sorted(case["stats"], reverse=True), "sorting")
    arg = np.array(qs, dtype=object).argsort()
    ensure([qs[i].stat for i in arg] == sorted(case["stats"], reverse=True), "sorting as an array")
    ensure(max(qs).stat == lo and min(qs).stat == max(case["stats"]), "best and worst")
    return repr(case)


def weights_cases(tier):
    vals = [-3.0, 0.0, 0.5, 7.0, 1500.0]
    for ev in EV:
        for n in range(1, 6 if tier == "thorough" else 5):
            for s in itertools.product(vals, repeat=n):
                yield {"ev": ev, "stats": list(s)}


def run_tie(case, cov):
    """Chi-squared is exactly the given number: some points are off by their error, all others not at all."""
    ev, n, ones, blfree = case["ev"], case["n"], case["ones"], case["bl"]
    r = 1.0 + np.arange(n + 3.0)
    y = np.array([1.0] * ones + [0.0] * (n - ones) + [5.0] * 3)
    bl = part_class("poly:1")(make("poly:1"), [0.0, 0.0]) if blfree else None
    mc = ModelCluster(Peaks([]), bl, r, y, 0 * r + 1.0, slice(0, n), EV[ev], [make("gor:0.7")])
    for kp in range(0, 6):
        if n < minpoints(ev, kp):
            want = False
        else:
            want = penalty(ev, kp, max(n, minpoints(ev, 0))) < ones
        for inst in (EV[ev](), mc.quality()):
            ensure(bool(inst.growth_justified(mc, kp)) == want, "%s more parameters justified: %s", kp, not want)
        cov.transition()
    ensure(mc.quality().stat == ones, "quality of a cluster without free parameters")
    return repr(case)


def tie_cases(tier):
    for ev in EV:
        for n in range(1, 25 if tier == "thorough" else 13):
            for ones in range(n + 1):
                for bl in (False, True):
                    yield {"ev": ev, "n": n, "ones": ones, "bl": bl}


CHECK = Check(
    "C10",
    "exploration",
    [
        Scenario("value", value_cases, run_value, doc="choices of fixed parameters of up to 2 (thorough 3) peaks x sizes x baselines x heights x shifts"),
        Scenario("tie", tie_cases, run_tie, doc="chi-squared exactly every integer up to the number of points, which is up to 12 (24), without peaks"),
        Scenario("order", order_cases, run_order, doc="all pairs of statistics, also missing and of different kind"),
        Scenario("weights", weights_cases, run_weights, doc="every list of up to 4 (thorough 5) of 5 statistics"),
    ],
    rule="one case per cluster, pair or list of statistics",
)
