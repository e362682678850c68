"""C27: estimates of parameters are valid, follow the data and are exact where the data determine them."""
import itertools
import math

import numpy as np

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseEstimationError
from mc.harness import Check, Scenario, ensure

KINDS = {
    "gauss": Gaussian,
    "gor": GaussianOverR,
    "tr": lambda w: TerminationRipples(Gaussian(w), 20.0),
    "trgor": lambda w: TerminationRipples(GaussianOverR(w), 12.0),
}
GRIDS = {
    "even": lambda n: 2.0 + 0.1 * np.arange(n),
    "fine": lambda n: 5.0 + 0.02 * np.arange(n),
    "odd": lambda n: np.cumsum(np.resize([1.5, 0.07, 0.02, 0.11, 0.05], n)),
}


def ask(f, r, y):
    """Position, width and area, or None if refused."""
    keep = np.array(r), np.array(y)
    try:
        pars = f.estimate_parameters(r, y)
    except SrMiseEstimationError:
        return None
    ensure(np.array_equal(keep[0], r) and np.array_equal(keep[1], y), "the data were changed")
    ensure(len(pars) == 3 and np.all(np.isfinite(pars)), "parameters %s", pars)
    part = f.actualize(pars, "internal")
    ensure(np.array_equal(part.pars, np.asarray(pars)), "parameters are not in the internal format")
    return [float(v) for v in f.transform_parameters(pars, "internal", "pwa")]


def close(a, b, tol=1e-7):
    return (a is None) == (b is None) and (a is None or all(abs(u - v) <= tol * (1 + abs(v)) for u, v in zip(a, b)))


def run_single(case, cov):
    kind, w = case["f"], case["maxwidth"]
    f = KINDS[kind](w)
    over = kind in ("gor", "trgor")
    for y in itertools.product(case["values"], repeat=case["n"] - 1):
        y = np.array((case["first"],) + y, dtype=float)
        r = GRIDS[case["grid"]](len(y))
        where = [float(v) for v in y]
        use = y > 0
        got = ask(f, r, y)
        cov.transition()
        if use.sum() < 3:
            ensure(got is None, "estimated from %d positive points", use.sum(), where=where)
            cov.outcome("few", trivial=True)
            continue
        ensure(got is not None, "refused %d positive points", use.sum(), where=where)
        pos, width, area = got
        lo, hi = r[use][0], r[use][-1]
        ensure(lo - 1e-9 <= pos <= hi + 1e-9, "position %s outside the points", pos, where=where)
        ensure(0 <= width <= w * (1 + 1e-9), "width %s above the limit", width, where=where)
        ensure(area > 0 or width < 1e-6, "area %s", area, where=where)
        cov.outcome((use.tolist(), round(width, 9) == round(w, 9), y[use].min() == y[use].max()))
        if y[use].min() == y[use].max():
            ensure(abs(pos - (lo + hi) / 2) < 1e-9, "position %s between %s and %s of equal values", pos, lo, hi, where=where)
        if width > 1e-6:
            base = (GaussianOverR if over else Gaussian)(w)
            top = base.actualize([pos, width, area], "pwa").value(pos)
            ensure(abs(top - y.max()) < 1e-6 * (1 + y.max()), "the peak is %s high instead of %s", top, y.max(), where=where)
        # Points that are not positive do not matter.
        ensure(close(got, ask(f, r[use], y[use])), "points that are not positive matter", where=where)
        ensure(close(got, ask(f, r, np.where(use, y, -5.0))), "points that are not positive matter", where=where)
        # A higher peak, the same peak elsewhere, wider or mirrored
        ensure(close([pos, width, 3.5 * area], ask(f, r, 3.5 * y)), "scaled data", where=where)
        moved = ask(f, r + 4.0, y)
        ensure(close([pos + 4.0, width, area * ((pos + 4.0) / pos if over else 1)], moved, 1e-6), "moved data: %s, %s", got, moved, where=where)
        wide = ask(KINDS[kind](2 * w), 2 * r, y)
        ensure(close([2 * pos, 2 * width, 2 * area * (2 if over else 1)], wide, 1e-6), "stretched data: %s, %s", got, wide, where=where)
        mirror = ask(f, (20.0 - r)[::-1], y[::-1])
        ensure(close([20.0 - pos, width, area * ((20.0 - pos) / pos if over else 1)], mirror, 1e-6), "mirrored data: %s, %s", got, mirror, where=where)
        # The limit of the width matters to wider peaks only.
        if width < w * (1 - 1e-6):
            ensure(close(got, ask(KINDS[kind](3 * w), r, y), 1e-6), "the limit matters", where=where)
    return None


def cases_single(tier):
    values = (-1.0, 0.0, 1.0, 2.0, 5.0)
    for f in KINDS:
        for w in (0.15, 0.7):
            for grid in GRIDS:
                for n in range(1, 6 if tier == "quick" else 7):
                    if tier == "quick" and n == 5 and (f.startswith("tr") or grid == "fine"):
                        continue
                    for v in values:
                        yield {"f": f, "maxwidth": w, "grid": grid, "n": n, "values": values, "first": v}


def run_exact(case, cov):
    """Gaussians sampled symmetrically, one point at the maximum, are determined by the points."""
    f = KINDS[case["f"]](case["maxwidth"])
    over = case["f"] in ("gor", "trgor")
    pos, width, area, n, dr = (case[k] for k in ("pos", "width", "area", "n", "dr"))
    r = pos + dr * np.arange(-n, n + 1)
    s = width / math.sqrt(8 * math.log(2))
    y = area / (s * math.sqrt(2 * math.pi)) * np.exp(-((r - pos) ** 2) / (2 * s * s))
    got = ask(f, r, y)
    if width <= case["maxwidth"]:
        want = [pos, width, area * (pos if over else 1)]
    else:
        want = [pos, case["maxwidth"], area * case["maxwidth"] / width * (pos if over else 1)]
    ensure(close(got, want, 1e-6), "estimated %s instead of %s", got, want)
    # More points on one side only do not make it a different height.
    got = ask(f, r[: 2 * n], y[: 2 * n])
    if got is not None:
        top = (GaussianOverR if over else Gaussian)(case["maxwidth"]).actualize(got, "pwa").value(got[0])
        ensure(abs(top - y[: 2 * n].max()) < 1e-6 * (1 + top), "the height of part of a peak")
        ensure(r[0] <= got[0] <= r[2 * n - 1], "position of part of a peak")
    for bad in ((r[:-1], y), (r, y[:-1]), (r[:0], y), (r, y[:0]), (r[:0], y[:0])):
        ensure(ask(f, *bad) is None, "estimated from %d positions and %d values", len(bad[0]), len(bad[1]))
    return None


def cases_exact(tier):
    for f in KINDS:
        for w in (0.3, 0.7, 3.0):
            for pos in (1.0, 2.6, 12.5):
                for width in (0.1, 0.25, 0.4, 0.7, 1.5):
                    for area in (0.01, 1.0, 300.0):
                        for n in (1, 2, 3, 8, 20):
                            for k in (0.1, 0.4, 1.1):
                                if n * k > 12 or n * k * width >= pos:
                                    continue
                                yield {"f": f, "maxwidth": w, "pos": pos, "width": width, "area": area, "n": n, "dr": k * width / math.sqrt(n)}


def run_baseline(case, cov):
    n = case["n"]
    r = case["start"] + 0.1 * np.arange(n)
    for order in itertools.permutations(range(n)) if n <= 5 else case["orders"]:
        y = np.array([0.37 * v - 1.0 for v in order]) * case["scale"]
        low = max(1, n // 10)
        idx = np.argsort(y)[:low]
        want = float((r[idx] * y[idx]).sum() / (r[idx] ** 2).sum())
        got = Polynomial(1).estimate_parameters(r, y)
        ensure(len(got) == 2 and abs(got[0] - want) < 1e-9 * (1 + abs(want)) and got[1] == 0, "%s instead of a slope of %s", got, want, where=list(order))
        ensure(list(Polynomial(0).estimate_parameters(r, y)) == [0.0], "constant", where=list(order))
        ensure(len(Polynomial(-1).estimate_parameters(r, y)) == 0 and len(Polynomial(-3).estimate_parameters(r, y)) == 0, "nothing", where=list(order))
        for d in (2, 3, 5):
            try:
                Polynomial(d).estimate_parameters(r, y)
            except NotImplementedError:
                pass
            else:
                ensure(False, "estimated degree %d", d)
        ensure(not hasattr(NanoSpherical, "estimate_parameters") or refuses(NanoSpherical(), r, y, NotImplementedError), "estimated a sphere")
        ensure(len(FromSequence(np.arange(5.0), np.arange(5.0)).estimate_parameters(r, y)) == 0, "estimated a sequence")
        cov.transition()
    # A line below nonnegative peaks
    for slope in (-0.7, -0.1, -2.0):
        m = 10 * n
        x = case["start"] + 0.1 * np.arange(m)
        signal = np.where(np.arange(m) < m - n - 1, 1.0 + np.sin(np.arange(m)), 0.0)
        got = Polynomial(1).estimate_parameters(x, slope * x + signal)
        ensure(np.allclose(got, [slope, 0.0], atol=1e-9) or signal[np.argsort(slope * x + signal)[:n]].any(), "slope %s instead of %s", got, slope)
    for d in (-1, 0, 1):
        for bad in ((r[:-1], r), (r, r[:-1])):
            ensure(refuses(Polynomial(d), *bad, (ValueError, SrMiseEstimationError)), "estimated from data of different lengths")
    return None


def refuses(f, r, y, err):
    try:
        f.estimate_parameters(r, y)
    except err:
        return True
    return False


def cases_baseline(tier):
    some = {n: [list(range(n)), list(range(n))[::-1], [(7 * i + 3) % n for i in range(n)] if n % 7 else list(range(n))] for n in (10, 19, 20, 35, 43)}
    for start in (0.5, 1.5, 20.0):
        for scale in (1.0, -0.3, 50.0):
            for n in (1, 2, 3, 4, 5):
                yield {"n": n, "start": start, "scale": scale}
            for n in some:
                yield {"n": n, "start": start, "scale": scale, "orders": some[n]}


ERRORS = (ValueError, ZeroDivisionError, KeyError, IndexError, SrMiseEstimationError, NotImplementedError, RuntimeError, AttributeError)


def run_own(case, cov):
    """Estimation by a function of the user."""
    seen = []

    def value(pars, x):
        return sum((p * x**k for k, p in enumerate(pars)), 0 * x)

    def estimate(r, y):
        seen.append((r, y))
        if case["error"] is not None:
            raise ERRORS[case["error"]]("reason")
        return np.array(case["pars"])

    n = len(case["pars"])
    r, y = np.arange(4.0), np.array([0.0, 2.0, 1.0, 5.0])
    f = Arbitrary(n, value, None, estimate if case["given"] else None)
    try:
        got = f.estimate_parameters(r, y)
    except NotImplementedError:
        ensure(not case["given"], "estimation is there")
    except SrMiseEstimationError as err:
        ensure(case["given"] and case["error"] is not None, "failed")
        ensure("reason" in str(err), "the reason is not stated: %s", err)
    else:
        ensure(case["given"] and case["error"] is None, "estimated without estimation")
        ensure(np.array_equal(got, case["pars"]), "%s instead of %s", got, case["pars"])
    ensure(len(seen) == int(case["given"]) and all(np.array_equal(a, r) and np.array_equal(b, y) for a, b in seen), "not asked with the data")
    return None


def cases_own(tier):
    for pars in ([], [1.0], [2.0, -1.0], [0.0, 1.0, 2.0]):
        yield {"pars": pars, "given": False, "error": None}
        for e in (None,) + tuple(range(len(ERRORS))):
            yield {"pars": pars, "given": True, "error": e}


CHECK = Check(
    "C27",
    "model_checking",
    [
        Scenario("single", cases_single, run_single, timeout=300,
                 doc="every assignment of five values to up to 5 (6) points of three grids: validity, and agreement with the estimates of scaled, moved, stretched, mirrored and reduced data"),
        Scenario("exact", cases_exact, run_exact, doc="symmetrically sampled Gaussians over positions, widths, areas, limits and samplings"),
        Scenario("baseline", cases_baseline, run_baseline, doc="every order of up to 5 values and some of longer data"),
        Scenario("own", cases_own, run_own, doc="estimation given by the user: none, results and every kind of error"),
    ],
    rule="validity and symmetry relations of the estimate, and exact recovery where the data determine the peak",
)
