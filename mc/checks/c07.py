"""C07: scaling a peak at a point, and matching a sum of peaks there, keep every maximum."""
import itertools

import numpy as np

from mc.harness import Check, Scenario, ensure
from mc.models import S2F, Peaks, make

MASKS = [list(m) for m in itertools.product((True, False), repeat=3)]


def top(name, f, pars):
    if name.startswith("tr"):
        return f.base.max(pars)
    return f.max(pars)


def base_value(p, x):
    f = p.owner()
    return float(f._valueraw(p.pars, x)) if f.base is None else float(f.base._valueraw(p.pars, x))


def gauss_solution(mw, pos, fwhm, area, x, s):
    """Width of the peak with the same maximum and s times the value at x, or None."""
    sig = fwhm / S2F
    if s <= 0 or x == pos:
        return None
    # exp(-d2/(2 sig2^2)) = s * exp(-d2/(2 sig^2)),  same height at the maximum
    d2 = (x - pos) ** 2
    z = 1 / sig**2 - 2 * np.log(s) / d2
    if z <= 0:
        return None
    w = S2F / np.sqrt(z)
    return w


def run_scale(case, cov):
    name = case["f"]
    f = make(name)
    mw = float(name.split(":")[-1].split("/")[0])
    pos, fwhm, area = case["pos"], case["frac"] * mw, case["area"]
    out = []
    for x, s, mask in itertools.product(case["x"], case["s"], MASKS):
        w = [x, s, mask]
        p = f.actualize([pos, fwhm, area], "pwa", free=list(mask))
        old = p.copy()
        try:
            m0 = top(name, f, p.pars)
        except ValueError:
            m0 = None
        v0 = base_value(p, x)
        done = p.scale_at(x, s)
        ensure(done in (True, False), "answer %s", done, where=w)
        ensure(list(p.free) == mask and p.owner() is f, "flags changed", where=w)
        out.append(bool(done))
        if not done:
            ensure(p == old, "an unscalable peak was changed", where=w)
        else:
            ensure(np.isfinite(p.pars).all(), "parameters %s", p.pars, where=w)
            for k in range(3):
                ensure(mask[k] or p.pars[k] == old.pars[k], "a fixed parameter was changed", where=w)
            if s == 1:
                ensure(p == old, "scaling by 1 changed the peak", where=w)
                continue
            ensure(np.isclose(base_value(p, x), s * v0, rtol=1e-5, atol=1e-12), "value %s instead of %s", base_value(p, x), s * v0, where=w)
            m1 = top(name, f, p.pars)
            ensure(np.allclose(m0, m1, rtol=1e-6), "the maximum moved from %s to %s", m0, m1, where=w)
        # what has to work
        if name.startswith("gauss"):
            sol = gauss_solution(mw, pos, fwhm, area, x, s) if area else None
            if s == 1:
                must, mustnot = any(mask), not any(mask)
            else:
                feasible = sol is not None and sol <= mw * (1 - 1e-9)
                impossible = sol is None or sol > mw * (1 + 1e-9)
                must = feasible and mask[1] and mask[2]
                mustnot = impossible or not (mask[1] and mask[2])
            ensure(done or not must, "a scalable peak was not scaled", where=w)
            ensure(not done or not mustnot, "a peak was scaled where it cannot be", where=w)
        elif not all(mask) and area:
            ensure(not done or s == 1 and any(mask), "a peak with fixed parameters was scaled", where=w)
        elif m0 is not None and area and 0.5 <= s < 1 and abs(x - m0[0]) > 0.02 and case["frac"] < 0.6:
            ensure(done, "a peak was not scaled down", where=w)
    return repr(out)


def scale_cases(tier):
    for f in ("gauss:0.7", "gor:0.7", "gor:5.0", "gauss:5.0", "tr:gor:0.7/20.0"):
        for pos in (0.5, 0.7, 1.0, 1.5, 2.0, 5.0, 20.0):
            for frac in (0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 1.0):
                for area in (3.0, 0.0):
                    xs = [pos, pos + 0.05, pos - 0.05, pos + 0.3, pos - 0.3, pos + 0.6, pos + 1.0, pos + 3.0, 0.75 * pos, 0.5 * pos, 0.25 * pos]
                    ss = [-1.0, 0.0, 0.01, 0.2, 0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 1.3, 1.6, 2.0, 3.0, 5.0, 10.0, 100.0]
                    yield {"f": f, "pos": pos, "frac": frac, "area": area, "x": xs, "s": ss}


SPEC = {  # position, fwhm, area
    "a": [2.0, 0.3, 4.0],
    "b": [2.5, 0.4, 6.0],
    "c": [3.0, 0.2, 2.0],
    "w": [2.2, 0.69, 5.0],
}
FIX = {"": [True] * 3, "w": [True, False, True], "p": [False, True, True], "all": [False] * 3}


def run_match(case, cov):
    f = make(case["f"])
    out = []
    for x, rel in itertools.product(case["x"], case["rel"]):
        w = [x, rel]
        ps = Peaks([f.actualize(SPEC[n], "pwa", free=list(FIX[fx])) for n, fx in case["peaks"]])
        old = ps.copy()
        tops = [f.max(p.pars) for p in old]
        h = float(old.value(x))
        y = rel * h if rel is not None else 0.0
        done = ps.match_at(x, y)
        ensure(done in (True, False), "answer %s", done, where=w)
        ensure(len(ps) == len(old), "number of peaks", where=w)
        changed = []
        for p, q, t in zip(ps, old, tops):
            ensure(np.isfinite(p.pars).all(), "parameters %s", p.pars, where=w)
            ensure(p.owner() is f and list(p.free) == list(q.free) and p.removable == q.removable, "flags changed", where=w)
            for k in range(3):
                ensure(q.free[k] or p.pars[k] == q.pars[k], "a fixed parameter was changed", where=w)
            ensure(np.allclose(f.max(p.pars), t, rtol=1e-6), "a maximum moved", where=w)
            changed.append(not np.array_equal(p.pars, q.pars))
        if not done:
            ensure(not any(changed), "peaks changed although they were not matched", where=w)
        elif y != h:
            ensure(any(changed), "no peak was changed by a match", where=w)
        ratios = [float(p.value(x)) / float(q.value(x)) for p, q, c in zip(ps, old, changed) if c]
        ensure(not ratios or np.allclose(ratios, ratios[0], rtol=1e-5), "peaks scaled differently: %s", ratios, where=w)
        if len(ps) and h > 0 and y > 0:
            can = [p.copy().scale_at(x, y / h) for p in old]
            u = sum(float(p.value(x)) for p, c in zip(old, can) if not c)
            if all(can):
                ensure(np.isclose(float(ps.value(x)), y, rtol=1e-5), "the sum is %s instead of %s", float(ps.value(x)), y, where=w)
                ensure(done, "matched without saying so", where=w)
            elif any(can) and u < y and u < h:
                s2 = (y - u) / (h - u)
                if all(p.copy().scale_at(x, s2) for p, c in zip(old, can) if c):
                    ensure(np.isclose(float(ps.value(x)), y, rtol=1e-5), "the sum is %s instead of %s", float(ps.value(x)), y, where=w)
                    ensure(done, "matched without saying so", where=w)
            elif any(can) and u >= y:
                # the others are too high already: the best is to scale what can be scaled
                ensure(done and [c for c in changed] == [c and y != h for c in can], "%s were scaled, %s can be", changed, can, where=w)
                ensure(abs(float(ps.value(x)) - y) <= abs(h - y) * (1 + 1e-9), "the sum moved away", where=w)
            elif not any(can):
                ensure(not any(changed), "unscalable peaks were changed", where=w)
        else:
            ensure(not any(changed), "peaks changed where there is nothing to match", where=w)
        out.append((done, changed))
    return repr(out)


def match_cases(tier):
    xs = [1.6, 2.0, 2.25, 2.7, 3.3]
    rel = [None, -1.0, 0.2, 0.5, 0.9, 1.0, 1.1, 1.25, 1.5, 2.0, 3.0, 5.0, 20.0]
    for f in ("gauss:0.7", "gor:0.7"):
        yield {"f": f, "peaks": [], "x": xs, "rel": rel}
        one = [(n, fx) for n in SPEC for fx in FIX]
        for k in (1, 2) if tier == "quick" else (1, 2, 3):
            for c in itertools.combinations(one, k):
                yield {"f": f, "peaks": [list(z) for z in c], "x": xs, "rel": rel}
        for fx in itertools.product(FIX, repeat=3):
            yield {"f": f, "peaks": [list(z) for z in zip("abc", fx)], "x": xs, "rel": rel}


def run_order(case, cov):
    f = make("gor:0.7")
    pos = case["pos"]
    ps = Peaks([f.actualize([p, 0.3, 1.0 + k], "pwa") for k, p in enumerate(pos)])
    before = list(ps)
    idx = [int(i) for i in ps.argsort()]
    ensure(sorted(idx) == list(range(len(pos))), "not a permutation: %s", idx)
    ensure([pos[i] for i in idx] == sorted(pos), "not in order: %s", idx)
    ensure(all(a is b for a, b in zip(ps, before)), "asking for the order changed it")
    ps.sort(reverse=case["rev"])
    ensure([float(p["position"]) for p in ps] == sorted(pos, reverse=case["rev"]), "not sorted")
    ensure(len(ps) == len(pos) and all(any(p is q for q in before) for p in ps), "other peaks after sorting")
    ps = Peaks(before)
    key = [float(p["area"]) for p in ps]
    ensure([key[int(i)] for i in ps.argsort("area")] == sorted(key), "order by area")
    return repr(case)


def order_cases(tier):
    for n in range(1, 6):
        for pos in itertools.permutations([1.0, 2.0, 3.0, 4.0, 5.0][:n]):
            for rev in (False, True):
                yield {"pos": pos, "rev": rev}
    for pos in ([1.0, 1.0], [2.0, 1.0, 2.0], [1.0, 2.0, 2.0, 1.0], [1.0001, 1.0], [1.0, 1.0 + 1e-9, 1.0 + 5e-10], [1.0 + 1e-6, 1.0, 2.0]):
        yield {"pos": pos, "rev": False}


CHECK = Check(
    "C07",
    "exploration",
    [
        Scenario("order", order_cases, run_order, doc="all permutations of 1..5 positions, some ties"),
        Scenario("scale", scale_cases, run_scale, doc="5 functions x 7 positions x 8 widths x 2 areas, each with 11 points x 17 factors x all 8 choices of free parameters"),
        Scenario("match", match_cases, run_match, doc="all pairs (thorough triples) of 4 peaks x 4 choices of fixed parameters and all 64 choices of 3 peaks, each with 5 points x 13 heights"),
    ],
    rule="every combination of the listed alphabets; distinct by which peaks were scaled",
)
