"""C11: clusters of data with a model, under every history of operations, and joining of clusters."""
import itertools

import numpy as np

from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peaks
from mc.harness import Check, Scenario, ensure
from mc.models import make, part_class, ref_value

R = 1.0 + 0.25 * np.arange(12)
N = len(R)
ERR = 0.2 + 0.02 * np.arange(N)
ERRS = {"smooth": ERR, "spots": np.where(np.arange(N) % 5 == 0, 1e-3, ERR)}
# name -> (pars, removable)
PK = {
    "a": ([1.3, -0.3, 1.5], True),
    "b": ([2.1, 0.2, 0.8], False),
    "c": ([2.9, 0.4, 2.0], True),
    "x": ([9.0, -1.2, 0.5], True),  # far outside, no contribution inside
    "n": ([9.5, -1.2, 0.5], False),  # the same, not to be removed
    "e": ([4.2, 0.5, 6.0], True),  # outside, but contributes inside
    "s": ([0.2, -1.3, 0.1], True),  # outside on the left, no contribution
    "t": ([4.4, 0.5, 6.0], True),  # outside, contributes less than the smooth errors
    "q": ([float("nan"), 0.1, 1.0], True),  # broken
}
SLICES = [(0, 4), (0, None), (None, 5), (3, 7), (4, 8), (None, None), (2, 3), (-5, -1), (5, 12), (7, 20)]
F = "gor:0.7"


class St:
    """Reference state: names of the peaks by position, slice, names added to the data."""

    def __init__(self, peaks, sl, added=()):
        self.peaks, self.sl, self.added = tuple(peaks), tuple(sl), tuple(added)

    def key(self):
        return (self.peaks, self.sl, tuple(sorted(self.added)))


def by_pos(names):
    return tuple(sorted(names, key=lambda n: (np.isnan(PK[n][0][0]), PK[n][0][0])))


def mask(n):
    return [(ord(n) >> k) % 2 == 0 for k in range(3)]


BMASK = [True, False]


def mk(o, names):
    return Peaks([part_class(F)(o, PK[n][0], mask(n), PK[n][1]) for n in names])


def base(kind, o):
    return None if kind is None else part_class(kind)(o, [-0.2, 0.3], BMASK)


def ydata(kind):
    low = {"low": -0.5, "high": 1.5, "left": None}[kind]
    y = np.full(N, -0.5) if low is None else low + 0.05 * np.sin(R)
    if low is None:
        y[0] = 3.0
    return y


def clone(mc):
    """A copy that also keeps what copy() does not promise to keep."""
    c = ModelCluster(mc)
    c.never_fit, c.last_fit_size = mc.never_fit, mc.last_fit_size
    return c


def inspect(mc, st, y0, blk, where):
    sl = slice(*st.sl)
    vals = {n: ref_value(F, PK[n][0], R) for n in set(st.peaks + st.added)}
    bl = -0.2 * R + 0.3 if blk else 0 * R
    y = y0 + sum((vals[n] for n in st.added), 0 * R)
    ensure(len(mc.model) == len(st.peaks), "%s peaks instead of %s", len(mc.model), len(st.peaks), where=where)
    for p, n in zip(mc.model, st.peaks):
        ensure(np.array_equal(p.pars, PK[n][0], equal_nan=True) and p.removable == PK[n][1], "peak %s instead of %s", list(p.pars), n, where=where)
    ensure(np.array_equal(mc.r_data, R) and np.allclose(mc.y_data, y, equal_nan=True), "data", where=where)
    ensure(np.array_equal(mc.r_cluster, R[sl]) and np.allclose(mc.y_cluster, y[sl]), "data of the cluster", where=where)
    ensure(np.array_equal(mc.error_cluster, ERR[sl]) and mc.size == len(R[sl]), "errors or size of the cluster", where=where)
    above = ((y - bl - ERR)[sl] >= 0).any()
    ensure(not (mc.never_fit and above), "cluster with data above the errors is never fit", where=where)
    ensure(mc.npars() == 3 * len(st.peaks) + (2 if blk else 0), "npars()", where=where)
    ensure(mc.npars(count_baseline=False) == 3 * len(st.peaks), "npars(False)", where=where)
    for p, n in zip(mc.model, st.peaks):
        ensure([bool(v) for v in p.free] == mask(n), "free parameters of peak %s", n, where=where)
    free = sum(sum(mask(n)) for n in st.peaks)
    ensure(mc.npars(count_fixed=False) == free + (sum(BMASK) if blk else 0), "npars() of free ones", where=where)
    ensure(mc.npars(False, False) == mc.npars(count_baseline=False, count_fixed=False) == free, "npars(False) of free ones", where=where)
    if "q" in st.peaks:
        return
    model = sum((vals[n] for n in st.peaks), 0 * R)
    ensure(np.allclose(mc.valuebl(), bl[sl]) and np.allclose(mc.valuebl(R), bl), "valuebl", where=where)
    ensure(np.allclose(mc.value(), (bl + model)[sl]) and np.allclose(mc.value(R), bl + model), "value", where=where)
    ensure(np.isclose(mc.value(2.25), (bl + model)[5]), "value of a number", where=where)
    ensure(np.allclose(mc.residual(), (y - bl - model)[sl]), "residual", where=where)
    pl = mc.plottable(True)
    ensure(len(pl) == 4 and np.allclose(pl[1], y[sl]) and np.allclose(pl[3], (bl + model)[sl]), "plottable(True)", where=where)
    pl = mc.plottable()
    ensure(len(pl) == 2 + 2 * len(st.peaks) and all(np.array_equal(v, R[sl]) for v in pl[0::2]), "plottable()", where=where)
    for n, v in zip(st.peaks, pl[3::2]):
        ensure(np.allclose(v, (bl + vals[n])[sl]), "plottable() of peak %s", n, where=where)
    pr = mc.plottable_residual()
    ensure(np.array_equal(pr[0], R[sl]) and np.allclose(pr[1], (y - bl - model)[sl]), "plottable_residual()", where=where)


def ops(st):
    for s in SLICES:
        yield ("slice",) + s
    k = len(st.peaks)
    for new in ("", "a", "b", "ce", "x"):
        if set(new) & set(st.peaks):
            continue
        if k + len(new) > 5:
            continue
        yield ("replace", new, 0, 0)
        for lo, hi in itertools.combinations(range(k + 1), 2):
            yield ("replace", new, lo, hi)
    for i in range(-k - 1, k + 1):
        yield ("delete", i)
    yield ("clean",)
    for new in "ac":
        if new not in st.peaks and len(st.added) < 1:
            yield ("external", new)
    yield ("copy",)


def apply(mc, st, op, o, y0, blk, where):
    """(cluster, new reference state)"""
    kind = op[0]
    if kind == "slice":
        mc.change_slice(slice(op[1], op[2]))
        return mc, St(st.peaks, op[1:3], st.added)
    if kind == "replace":
        gone = st.peaks[op[2] : op[3]]
        allowed = all(PK[n][1] for n in gone)
        new = mk(o, op[1])
        try:
            if op[2] == op[3] == 0:
                mc.replacepeaks(new)
            else:
                mc.replacepeaks(new, slice(op[2], op[3]))
        except ValueError:
            ensure(not allowed, "replacing %s refused", gone, where=where)
            return mc, st
        ensure(allowed, "a peak that may not be removed was replaced", where=where)
        ensure(len(new) == len(op[1]), "the peaks given were changed", where=where)
        return mc, St(by_pos(st.peaks[: op[2]] + tuple(op[1]) + st.peaks[op[3] :]), st.sl, st.added)
    if kind == "delete":
        k = len(st.peaks)
        ok = -k <= op[1] < k and PK[st.peaks[op[1]]][1]
        try:
            mc.deletepeak(op[1])
        except (ValueError, IndexError):
            ensure(not ok, "peak not deleted", where=where)
            return mc, st
        if not -k <= op[1] < k:
            return mc, st
        ensure(ok, "a peak that may not be removed was deleted", where=where)
        i = op[1] % k
        return mc, St(st.peaks[:i] + st.peaks[i + 1 :], st.sl, st.added)
    if kind == "clean":
        r, e = R[slice(*st.sl)], ERR[slice(*st.sl)]
        drop = []
        for n in st.peaks:
            pos = PK[n][0][0]
            if np.isnan(pos):
                drop.append(n)
            elif (pos < r[0] or pos > r[-1]) and PK[n][1] and (ref_value(F, PK[n][0], r) < e).all():
                drop.append(n)
        got = mc.cleanfit()
        ensure(got == len(drop), "%s peaks cleaned instead of %s", got, drop, where=where)
        return mc, St([n for n in st.peaks if n not in drop], st.sl, st.added)
    if kind == "external":
        ysrc, yold = mc.y_data, np.array(mc.y_data)
        other = ModelCluster(mc)
        mc.addexternalpeaks(mk(o, op[1]))
        new = St(by_pos(st.peaks + (op[1],)), st.sl, st.added + (op[1],))
        ensure(np.array_equal(ysrc, yold) and np.array_equal(other.y_data, yold), "data of another cluster changed", where=where)
        inspect(other, st, y0, blk, where)
        return mc, new
    if kind == "copy":
        c = mc.copy()
        inspect(c, st, y0, blk, where)
        for p in c.model:
            p.pars[:] = 7.0
            p.free[:] = ~p.free
        if blk:
            c.baseline.pars[:] = 5.0
            c.baseline.free[:] = ~c.baseline.free
        del c.model[:]
        c.change_slice(slice(1, 3))
        c.peak_funcs.append(None)
        inspect(mc, st, y0, blk, where)
        ensure(None not in mc.peak_funcs, "peak functions shared with the copy", where=where)
        return mc, st


def run_history(case, cov):
    global ERR
    ERR = ERRS[case["err"]]
    o, bo = make(F), make("poly:1")
    y0 = ydata(case["y"])
    start = by_pos(case["peaks"])
    s0 = tuple(case["slice"])
    data = y0.copy()
    mc = ModelCluster(mk(o, start) if start or not case["none"] else None, base(case["bl"], bo), R, data, ERR, None if s0 == (None, None) else slice(*s0), AICc, [o])
    st = St(start, s0)
    inspect(mc, st, y0, case["bl"], "start")
    bl = -0.2 * R + 0.3 if case["bl"] else 0 * R
    ensure(mc.never_fit == bool(((y0 - bl - ERR)[slice(*s0)] < 0).all()), "never_fit of a new cluster is %s", mc.never_fit)
    seen = {(st.key(), mc.never_fit)}
    level = [(mc, st, ())]
    for depth in range(case["depth"]):
        nxt = []
        for mc, st, hist in level:
            for op in ops(st):
                where = hist + (op,)
                m2, s2 = apply(clone(mc), st, op, o, y0, case["bl"], where)
                inspect(m2, s2, y0, case["bl"], where)
                cov.transition()
                key = (s2.key(), m2.never_fit)
                if key not in seen:
                    seen.add(key)
                    cov.state((case["y"], case["bl"], key))
                    nxt.append((m2, s2, where))
        level = nxt
    ensure(np.array_equal(data, y0), "the data given were changed")
    return repr(case)


def history_cases(tier):
    deep = 3 if tier == "thorough" else 2
    for y in ("low", "high", "left"):
        for bl in (None, "poly:1"):
            for peaks in ("", "a", "ab", "abc", "acx", "bnx", "aes", "sq", "acq"):
                for s in ((0, 4), (None, None), (3, 7)):
                    for none in ((False, True) if not peaks else (False,)):
                        yield {"y": y, "bl": bl, "peaks": peaks, "slice": list(s), "none": none, "err": "smooth", "depth": deep}
    for peaks in ("aes", "acx", "act"):
        for s in ((0, 4), (None, None), (3, 7), (0, 8)):
            yield {"y": "high", "bl": None, "peaks": peaks, "slice": list(s), "none": False, "err": "spots", "depth": deep}


# ---------------------------------------------------------------- joining
JP = {  # positions; the clusters meet between points 5 and 6, at 2.375
    "l1": (1.4, -0.2, 1.0), "l2": (2.0, 0.1, 1.2), "l3": (2.7, -0.4, 0.7), "l4": (2.375, -0.3, 0.5),
    "r1": (2.1, -0.3, 0.8), "r2": (2.9, 0.2, 1.5), "r3": (3.4, -0.1, 0.9), "r4": (2.375, -0.2, 0.4),
}
BX = 2.375


def join_peaks(o, names, fixed):
    names = sorted(names, key=lambda n: JP[n][0])
    return Peaks([part_class(F)(o, list(JP[n]), [n not in fixed] * 3, n not in fixed) for n in names])


def run_join(case, cov):
    o, o2, o3, bo = make(F), make("gauss:0.7"), make("gauss:0.5"), make("poly:1")
    fixed = case["fixed"]
    y = case["h"] + 0.05 * np.sin(R)
    bpars = [-0.2, 0.3] if case["bl"] else None
    ml, mr = join_peaks(o, case["left"], fixed), join_peaks(o, case["right"], fixed)
    bl = lambda: None if bpars is None else part_class("poly:1")(bo, bpars)
    sl, sr = slice(*case["sl"]), slice(*case["sr"])
    left = ModelCluster(ml, bl(), R, y, ERR, sl, AIC, [o] if case["pf"] != "both" else [o, o2])
    right = ModelCluster(mr, bl(), R, y, ERR, sr, AIC, {True: [o, o2], False: [o2], "both": [o2, o3, o]}[case["pf"]])
    before = [[list(p.pars) for p in m.model] + [m.slice, list(m.y_data), list(m.peak_funcs)] for m in (left, right)]
    a, b, e = sl.indices(N), sr.indices(N), None
    results = []
    for m1, m2 in ((left, right), (right, left)):
        try:
            new = ModelCluster.join_adjacent(m1, m2)
        except ValueError:
            ensure(a[1] != b[0], "adjacent clusters were not joined")
            continue
        ensure(a[1] == b[0], "clusters that are not adjacent were joined")
        after = [[list(p.pars) for p in m.model] + [m.slice, list(m.y_data), list(m.peak_funcs)] for m in (left, right)]
        ensure(after == before, "joining changed the clusters")
        results.append([list(p.pars) for p in new.model])
        ensure(new.slice.indices(N)[:2] == (a[0], b[1]) and new.size == b[1] - a[0], "extent %s", new.slice)
        want_pf = list(m1.peak_funcs) + [f for f in m2.peak_funcs if f not in m1.peak_funcs]
        ensure(len(new.peak_funcs) == len(want_pf) and set(new.peak_funcs) == set(want_pf), "peak functions")
        ensure(new.peak_funcs == want_pf, "order of the peak functions")
        ensure(new.error_method is AIC and np.array_equal(new.y_data, y), "data and method")
        # independence
        if bpars:
            ensure(list(new.baseline.pars) == bpars, "baseline")
            new.baseline.pars[:] = 9.0
        for p in new.model:
            p.pars[:] = p.pars + 0.0
            p.free[:] = False
        ensure([[list(p.pars) for p in m.model] for m in (left, right)] == [c[:-3] for c in before], "peaks are shared")
        ensure(all(m.baseline is None or list(m.baseline.pars) == bpars for m in (left, right)), "the baseline is shared")
        ensure(all(p.free.all() == (tuple(p.pars) not in [JP[n] for n in fixed]) for m in (left, right) for p in m.model), "flags are shared")
    if not results:
        return repr(case)
    ensure(len(results) == 2 and np.allclose(np.array(results[0], dtype=float), np.array(results[1], dtype=float)) if len(results[0]) == len(results[1]) else False, "the result depends on the order of the clusters")
    got = results[0]
    # which peaks stay
    both = bool(case["left"]) and bool(case["right"])
    order = [(JP[n][0], n) for n in sorted(case["left"], key=lambda n: JP[n][0])] + [(JP[n][0], n) for n in sorted(case["right"], key=lambda n: JP[n][0])]
    ranked = sorted(range(len(order)), key=lambda i: order[i][0])
    keep = []
    for i, src in enumerate(ranked):
        pos, n = order[src]
        wrong = (n[0] == "l" and pos > BX) or (n[0] == "r" and pos < BX)
        dup = pos == BX and i > 0 and order[ranked[i - 1]][0] == BX
        if both and n not in fixed and ((wrong and src != i) or dup):
            continue
        keep.append(n)
    poss = [g[0] for g in got]
    ensure(len(got) == len(keep), "%s peaks instead of %s", len(got), keep)
    ensure(poss == sorted(poss), "peaks not sorted")
    # their shape
    tot = lambda plist: float(sum((ref_value(F, p, np.array([BX]))[0] for p in plist), 0.0))
    raw = [list(JP[n]) for n in keep]
    data = 0.5 * (y[a[1] - 1] + y[b[0]]) - (0 if bpars is None else -0.2 * BX + 0.3)
    for g, n in zip(got, keep):
        if n in fixed:
            ensure(np.allclose(g, JP[n]), "a fixed peak was changed")
        fw, gw = (0.7 * np.sqrt(0.5 * (np.sin(p[1]) + 1)) / 2.3548200450309493 for p in (JP[n], g))
        top = [0.5 * (p[0] + np.sqrt(p[0] ** 2 - 4 * s**2)) for p, s in ((JP[n], fw), (g, gw))]
        ensure(abs(top[0] - top[1]) < 1e-6, "the maximum of a peak moved from %s to %s", *top)
        h = [ref_value(F, p, np.array([t]))[0] for p, t in ((JP[n], top[0]), (g, top[1]))]
        ensure(abs(h[0] - h[1]) < 1e-6 * h[0], "the height of a peak changed")
    if not both or tot(raw) <= data - 1e-9:
        ensure(np.allclose(got, raw), "peaks were changed though they do not exceed the data")
    elif tot(raw) > data + 1e-9:
        ensure(tot(got) <= tot(raw) + 1e-9, "peaks exceeding the data were increased")
        if not np.allclose(got, raw) and not fixed and data > 0:
            scal = [n for n, g in zip(keep, got) if not np.allclose(g, JP[n])]
            if len(scal) == len(keep):
                ensure(abs(tot(got) - data) < 1e-6 * (1 + data), "sum at the border %s instead of %s", tot(got), data)
        if data > 0 and not fixed and all(JP[n][0] not in (BX,) for n in keep):
            ensure(abs(tot(got) - data) < 1e-6 * (1 + data), "sum at the border %s instead of %s", tot(got), data)
    cov.transition()
    return repr(case)


def join_cases(tier):
    L = ["l1", "l2", "l3", "l4"]
    Rr = ["r1", "r2", "r3", "r4"]
    k = 3 if tier == "thorough" else 2
    subs = lambda names: [c for n in range(k + 1) for c in itertools.combinations(names, n)]
    for l in subs(L):
        for r in subs(Rr):
            for h in (0.3, 2.0, 6.0):
                for bl in (False, True):
                    fx = [[]] + [[n] for n in l + r] if h == 2.0 else [[]]
                    for f in fx:
                        yield {"left": list(l), "right": list(r), "h": h, "bl": bl, "fixed": f, "sl": [1, 6], "sr": [6, 11], "pf": len(l) % 2 == 0}
    for sl, sr in itertools.product([(0, 6), (None, 6), (0, 5), (0, 7), (-12, -6)], [(6, 11), (6, None), (7, 12), (5, 11), (-6, None), (6, 40)]):
        yield {"left": ["l2"], "right": ["r2"], "h": 2.0, "bl": True, "fixed": [], "sl": list(sl), "sr": list(sr), "pf": True}
    for l, r in itertools.product(["l1", "l2"], ["r1", "r2"]):
        yield {"left": [l], "right": [r], "h": 2.0, "bl": True, "fixed": [], "sl": [1, 6], "sr": [6, 11], "pf": "both"}


def run_refuse(case, cov):
    o, bo = make(F), make("poly:1")
    y = 2.0 + 0 * R
    args = dict(r=R, y=y, e=ERR, m=AIC, b=part_class("poly:1")(bo, [-0.2, 0.3]))
    other = dict(r=R.copy(), y=y.copy(), e=ERR.copy(), m=AICc, b=part_class("poly:1")(bo, [-0.2, 0.4]), none=None)
    two = dict(args)
    for w in case["differ"]:
        if w == "none":
            two["b"] = None
        elif w == "bothnone":
            args["b"] = two["b"] = None
        else:
            two[w] = other[w]
    cl = [ModelCluster(join_peaks(o, n, []), d["b"], d["r"], d["y"], d["e"], s, d["m"], [o]) for d, n, s in ((args, ["l1"], slice(0, 6)), (two, ["r2"], slice(6, 12)))]
    if case["swap"]:
        cl.reverse()
    try:
        ModelCluster.join_adjacent(*cl)
    except ValueError:
        ensure([w for w in case["differ"] if w != "bothnone"], "joining was refused")
    else:
        ensure(not [w for w in case["differ"] if w != "bothnone"], "clusters were joined though they differ in %s", case["differ"])
    return repr(case)


def refuse_cases(tier):
    for k in range(3):
        for d in itertools.combinations(["r", "y", "e", "m", "b", "none", "bothnone"], k):
            if sum(w in ("b", "none", "bothnone") for w in d) > 1:
                continue
            for swap in (False, True):
                yield {"differ": list(d), "swap": swap}


CHECK = Check(
    "C11",
    "model_checking",
    [
        Scenario("refuse", refuse_cases, run_refuse, doc="every choice of up to two differing members"),
        Scenario("join", join_cases, run_join, doc="every choice of up to 2 (thorough 3) of 4 peaks in either cluster x heights x baseline x fixed peaks; extents"),
        Scenario(
            "histories",
            history_cases,
            run_history,
            doc="breadth-first to depth 2 (thorough 3) over extents, replacing any range, deleting, cleaning, external peaks, copying; "
            "9 starting models x 3 extents x 3 kinds of data x with and without baseline",
        ),
    ],
    rule="one case per starting cluster with a breadth-first search of histories, or per pair of clusters",
)
