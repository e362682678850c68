"""C06: what functions and models evaluate to, over arrays, scalars and ranges."""
import itertools

import numpy as np

from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peak
from mc.checks.c05 import GRIDS, LISTED, PARS
from mc.harness import Check, Scenario, Violation, ensure
from mc.models import S2F, SEQX, SEQY, ModelParts, Peaks, is_peak, make, part_class, ref_value

NAMES = [n for n in PARS if not n.startswith("tr")]
GR = {
    "fine": np.arange(1.0, 5.0, 0.1),
    "odd": np.array([0.3, 0.31, 1.7, 2.0, 3.9, 4.0, 5.98, 6.0, 6.02, 11.5]),
    "ints": np.arange(1, 9),
    "one": np.array([2.2]),
    "origin": np.array([0.0, 0.5, 1.0, 1.5]),
}
ALLR = "all slices start:stop with bounds in None, -3, 0, 2, 4, n, n+3"


def ranges(n):
    b = [None, -3, 0, 2, 4, n, n + 3]
    return [None] + [slice(i, j) for i in b for j in b]


def listed(part, r, rng):
    """Lists and tuples are evaluated as arrays are."""
    want, wantj = part.value(r, rng), part.jacobian(r, rng)
    for kind in (list, tuple):
        x = kind(v.item() for v in r)
        for m in (part, ModelParts([part])):
            got = np.asarray(m.value(x, rng), dtype=float)
            ensure(got.shape == r.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12), "value over a %s", kind.__name__, where=str(rng))
        gotj = part.jacobian(x, rng)
        ensure(len(gotj) == len(wantj) and all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in zip(gotj, wantj)),
               "derivatives over a %s", kind.__name__, where=str(rng))
        ensure(x == kind(v.item() for v in r), "the %s was changed", kind.__name__)


def run_value(case, cov):
    name, pars = case["f"], PARS[case["f"]][case["i"]]
    f = make(name)
    r = GR[case["grid"]]
    if case["grid"] == "origin" and name.startswith("gor"):
        r = r[1:]
    part = part_class(name)(f, pars)
    keep = np.array(r)
    ref = ref_value(name, pars, r)
    atol = 1e-9 * (1 + np.abs(ref).max())
    for rng in ranges(len(r)):
        sel = np.zeros(len(r), dtype=bool)
        sel[slice(None) if rng is None else rng] = True
        for who in (lambda: part.value(r, rng), lambda: f.value(part, r, rng), lambda: ModelParts([part]).value(r, rng)):
            got = np.asarray(who(), dtype=float)
            ensure(got.shape == r.shape, "shape %s", got.shape, where=str(rng))
            ensure(np.allclose(got[sel], ref[sel], rtol=1e-9, atol=atol), "value %s instead of %s", got[sel], ref[sel], where=str(rng))
            ensure(not got[~sel].any(), "value outside the range", where=str(rng))
        listed(part, r, rng)
    for i, x in enumerate(r):
        for xx in (x, float(x)):
            got = part.value(xx)
            ensure(np.ndim(got) == 0, "value at a number is not a number", where=i)
            ensure(np.allclose(float(got), ref[i], rtol=1e-9, atol=atol), "value at %s: %s, not %s", xx, got, ref[i], where=i)
        jac, arr = part.jacobian(x), part.jacobian(r)
        for k in range(len(part)):
            ensure(np.allclose(float(jac[k]), arr[k][i], rtol=1e-9, atol=1e-12), "derivative at a number", where=i)
    ensure(np.array_equal(r, keep) and list(part.pars) == [float(p) for p in pars], "evaluation changed its input")
    return repr(case)


def value_cases(tier):
    for n in NAMES:
        for i in range(len(PARS[n])):
            for g in GR:
                if i >= LISTED[n] and tier == "quick" and (i % 3 or g in ("fine", "origin")):
                    continue
                yield {"f": n, "i": i, "grid": g}


def run_sum(case, cov):
    """A model is the sum of its parts, over every subset and range."""
    owners = {}
    parts = []
    for n, i in case["parts"]:
        f = owners.setdefault(n, make(n))
        parts.append(part_class(n)(f, PARS[n][i]))
    r = GRIDS[case["grid"]]
    n = len(r)
    for bits in range(2 ** len(parts)):
        sub = [p for k, p in enumerate(parts) if bits >> k & 1]
        m = (Peaks if all(is_peak(a) for a, b in case["parts"]) else ModelParts)(sub)
        for rng in ranges(n):
            tot = np.zeros(n)
            for p in sub:
                tot = tot + p.value(r, rng)
            got = np.asarray(m.value(r, rng), dtype=float)
            ensure(got.shape == (n,), "shape", where=[bits, str(rng)])
            ensure(np.allclose(got, tot, rtol=1e-9, atol=1e-9 * (1 + np.abs(tot).max())), "sum of the parts", where=[bits, str(rng)])
            got = np.asarray(m.value(list(r), rng), dtype=float)
            ensure(got.shape == (n,) and np.allclose(got, tot, rtol=1e-9, atol=1e-9 * (1 + np.abs(tot).max())), "sum over a list", where=[bits, str(rng)])
        for p in sub:
            listed(p, r, slice(1, n - 2))
        peaks, rest = [p for p in sub if type(p) is Peak], [p for p in sub if type(p) is not Peak]
        if len(rest) < 2:
            mc = ModelCluster(Peaks(peaks), rest[0] if rest else None, r, 0 * r, 0 * r + 1.0, None, AIC, [p.owner() for p in peaks])
            for x in (r, list(r), tuple(r)):
                base = rest[0].value(r) if rest else np.zeros(n)
                ensure(np.shape(mc.valuebl(x)) == (n,) and np.allclose(mc.valuebl(x), base, atol=1e-9), "baseline of a cluster", where=bits)
                ensure(np.shape(mc.value(x)) == (n,) and np.allclose(mc.value(x), sum((p.value(r) for p in peaks), base), atol=1e-9), "value of a cluster", where=bits)
        if not any(a.startswith("tr") for a, b in case["parts"]):
            for x in (r[0], float(r[n // 2])):
                ensure(np.isclose(float(m.value(x)), sum(float(p.value(x)) for p in sub)), "sum at a number", where=bits)
    return repr(case)


def sum_cases(tier):
    one = [("gauss:0.7", 0), ("gor:0.7", 3), ("poly:1", 0), ("nano", 0), ("seq", 0), ("tr:gor:0.7/20.0", 0), ("arb", 0)]
    for k in (1, 2, 3):
        for c in itertools.combinations_with_replacement(one, k):
            for g in ("nyquist", "coarse"):
                yield {"parts": [list(x) for x in c], "grid": g}


def run_meaning(case, cov):
    """Width is the full width at half maximum, area the integral, position the centre."""
    base = make("gauss:%s" % case["mw"])
    over = make("gor:%s" % case["mw"])
    pos, w, area = case["pos"], case["frac"] * case["mw"], case["area"]
    g = base.actualize([pos, w, area], "pwa")
    o = over.actualize([pos, w, area], "pwa")
    top = float(g.value(pos))
    for side in (-1, 1):
        ensure(np.isclose(float(g.value(pos + side * w / 2)), top / 2, rtol=1e-6), "half maximum is not at half the width")
    x = np.linspace(max(1e-6, pos - 6 * w), pos + 6 * w, 20001)
    dx = x[1] - x[0]
    if pos - 6 * w > 0:
        ensure(np.isclose(np.sum(g.value(x)) * dx, area, rtol=1e-6), "area is not the integral")
        ensure(np.isclose(np.sum(o.value(x) * x) * dx, area, rtol=1e-6), "area of the radial distribution")
    mx = base.max(g.pars)
    ensure(np.allclose(mx, [pos, top], rtol=1e-9), "maximum %s", mx)
    try:
        mo = over.max(o.pars)
    except ValueError:
        ensure(pos**2 <= 4 * (w / S2F) ** 2 * (1 + 1e-9), "a maximum was not found")
    else:
        v = o.value(x)
        ensure(np.isclose(mo[1], float(o.value(mo[0])), rtol=1e-9), "height at the maximum")
        loc = (x > 0.5 * mo[0]) & (x < 2 * mo[0])
        ensure(mo[1] >= v[(x > (w / S2F) ** 2 / mo[0])].max() * (1 - 1e-9), "a point is higher than the maximum")
    return repr(case)


def meaning_cases(tier):
    for mw in (0.7, 2.0):
        for pos in (1.0, 2.5, 10.0):
            for frac in (0.1, 0.4, 0.8, 1.0):
                for area in (0.5, 20.0):
                    yield {"mw": mw, "pos": pos, "frac": frac, "area": area}


def run_sequence(case, cov):
    """A baseline from a sequence goes through its points and follows cubics."""
    from diffpy.srmise.baselines.fromsequence import FromSequence

    x = np.array(case["x"])
    y = np.array([case["a"] * v**3 + case["b"] * v - 1.0 for v in x])
    for f in (FromSequence(x, y), FromSequence(list(x), list(y)), FromSequence(x=x, y=y)):
        p = f.actualize([])
        ensure(len(p) == 0 and p.npars(count_fixed=False) == 0, "parameters of a sequence")
        ensure(np.allclose(p.value(x), y, atol=1e-9), "does not go through its points")
        mid = 0.5 * (x[1:] + x[:-1])
        ensure(np.allclose(p.value(mid), case["a"] * mid**3 + case["b"] * mid - 1.0, atol=1e-8), "does not follow a cubic")
        ensure(list(f.estimate_parameters(x, y)) == [], "estimate of a sequence")
    for bad in ((x, y[:-1]), (x[:-1], y)):
        try:
            FromSequence(*bad)
        except ValueError:
            pass
        else:
            ensure(False, "sequences of different lengths accepted")
    for args, kw in (((x, y), {"x": x}), ((), {"x": x}), ((), {}), ((x, y, x), {}), ((), {"x": x, "y": y, "file": "f"})):
        try:
            FromSequence(*args, **kw)
        except TypeError:
            pass
        else:
            ensure(False, "an invalid call was accepted")
    return repr(case)


def sequence_cases(tier):
    for x in ([0.0, 1.0, 2.0, 3.0], [0.0, 0.5, 1.5, 3.0, 3.25, 6.0], [1, 2, 3, 4, 5, 6]):
        for a in (0.0, 0.5, -1.0):
            for b in (0.0, 2.0):
                yield {"x": x, "a": a, "b": b}


CHECK = Check(
    "C06",
    "exploration",
    [
        Scenario("value", value_cases, run_value, doc="11 functions, all parameter sets, 5 grids, 50 ranges each (" + ALLR + "), every point also as a number"),
        Scenario("sum", sum_cases, run_sum, doc="every multiset of 1..3 of 7 parts, every subset, 2 grids, 50 ranges"),
        Scenario("meaning", meaning_cases, run_meaning, doc="2 x 3 x 4 x 2 peaks: half maximum, integral, maximum"),
        Scenario("sequence", sequence_cases, run_sequence, doc="3 grids x 6 cubics, valid and invalid calls"),
    ],
    rule="every combination of the listed alphabets; distinct by the case",
    assumptions=["grids in increasing order, positive where a peak divides by r"],
)
