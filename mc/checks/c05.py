"""C05: derivatives offered by functions are the derivatives of their values, for every choice of free parameters."""
import itertools

import numpy as np

from mc.harness import Check, Scenario, ensure
from mc.models import ModelParts, make, part_class

# internal parameters of one part per line
PARS = {
    "gauss:0.7": [[2.0, 0.3, 5.0], [2, 1, 5], [1.05, -1.2, 0.5], [3.0, 1.5, -4.0], [2.5, 2.5, 1.0], [4.0, -4.0, 2.0], [2.0, 0.0, 0.0]],
    "gor:0.7": [[2.0, 0.3, 5.0], [2, 1, 5], [1.05, -1.2, 0.5], [3.0, 1.5, -4.0], [2.5, 2.5, 1.0], [4.0, -4.0, 2.0], [2.0, 0.0, 0.0]],
    "gor:3.0": [[2.0, 0.3, 5.0], [5.0, -0.5, -3.0]],
    "tr:gor:0.7/20.0": [[2.0, 0.3, 5.0], [3.0, -0.8, -4.0], [1.3, 1.2, 1.0], [3.0, -1.2, 2.0]],
    "tr:gauss:0.7/10.0": [[2.0, 0.3, 5.0], [3.0, -0.8, -4.0], [1.3, 1.2, 1.0]],
    "tr:gor:2.0/6.0": [[2.5, 0.3, 5.0]],
    "poly:-1": [[]],
    "poly:0": [[0.5], [3]],
    "poly:1": [[0.5, -1.0], [1, 2]],
    "poly:2": [[0.5, -1.0, 2.0]],
    "poly:3": [[0.1, 0.5, -1.0, 2.0]],
    "nano": [[0.5, 3.0], [-0.5, 3.0], [0.5, -3.0], [-0.5, -1.52], [2, 4], [0.25, 0.81]],
    "seq": [[]],
    "arb": [[1.0, 0.5, 0.1]],
}
LISTED = {n: len(s) for n, s in PARS.items()}  # the others come from these products
for _n in ("gauss:0.7", "gor:0.7", "gor:3.0", "gauss:3.0", "tr:gor:0.7/20.0"):
    PARS.setdefault(_n, []).extend(list(c) for c in itertools.product((1.05, 2.4, 4.7, -2.0)[: 3 if _n[0] == "t" else 4], (-7.0, -3.0, -0.9, 0.3, 3.0, 6.1), (-4.0, 0.01, 300.0)))
    LISTED.setdefault(_n, 0)
for _d, _v in ((0, (0.0, -2.0)), (1, (0.0, -2.0, 0.3)), (2, (0.0, -2.0, 0.3)), (3, (0.0, -2.0)), (4, (0.0, 0.7)), (5, (0.0, -0.1))):
    PARS.setdefault("poly:%d" % _d, []).extend(list(c) for c in itertools.product(_v, repeat=_d + 1))
    LISTED.setdefault("poly:%d" % _d, 0)
PARS["nano"].extend(list(c) for c in itertools.product((0.5, -2.0, 30.0), (0.81, 1.13, -1.52, 2.07, 3.03, 40.0)))
GRIDS = {
    "fine": np.arange(1.0, 5.0, 0.02),
    "nyquist": np.arange(1.0, 5.0, np.pi / 20.0),
    "coarse": np.arange(1.0, 6.0, np.pi / 10.0),
    "ints": np.arange(1, 7),
    "single": np.array([2.1]),
    "origin": np.arange(0.05, 5.0, 0.05),
    "scalar": 2.1,
    "scalar2": 3.3,
}
RANGES = {"all": None, "full": slice(None), "left": slice(0, 12), "mid": slice(5, 20), "right": slice(-9, None), "explicit": slice(3, 11, 1)}


def numeric(part, k, r, rng):
    h = 2e-6
    up, dn = part.copy(), part.copy()
    up.pars[k] += h
    dn.pars[k] -= h
    return (np.asarray(up.value(r, rng)) - np.asarray(dn.value(r, rng))) / (2 * h)


def run(case, cov):
    name = case["f"]
    f = make(name)
    r = GRIDS[case["grid"]]
    rng = RANGES[case["range"]]
    keep = np.array(r)
    pars = PARS[name][case["i"]]
    npars = len(pars)
    nums = None
    for mask in itertools.product((True, False), repeat=npars):
        part = part_class(name)(f, pars, list(mask))
        if nums is None:
            nums = [numeric(part, k, r, rng) for k in range(npars)]
            scale = np.abs(np.asarray(part.value(r, rng))).max() if npars else 0.0
        jac = part.jacobian(r, rng)
        ensure(len(jac) == npars, "%s derivatives for %s parameters", len(jac), npars, where=mask)
        for k in range(npars):
            if not mask[k]:
                ensure(jac[k] is None, "derivative by a fixed parameter", where=mask)
                continue
            # derivative by an area of exactly 0 is one-sided; by definition the positive side
            if pars[k] == 0.0 and k == 2 and name.startswith(("gauss", "gor")):
                one = part.copy()
                one.pars[2] = 1.0
                num = np.asarray(one.value(r, rng))
            else:
                num = nums[k]
            got = np.asarray(jac[k], dtype=float)
            ensure(got.shape == np.shape(r), "shape %s of a derivative", got.shape, where=mask)
            ensure(
                np.allclose(got, num, rtol=1e-4, atol=1e-5 * np.abs(num).max() + 1e-8 + 1e-8 * scale),
                "derivative by parameter %s is off by %s", k, np.abs(got - num).max(), where=mask,
            )
            if rng is not None and np.ndim(r):
                out = np.ones(len(r), dtype=bool)
                out[rng] = False
                ensure(not got[out].any(), "derivative outside the range", where=mask)
        ensure(list(part.pars) == [float(p) for p in pars], "parameters changed", where=mask)
        ensure([bool(b) for b in part.free] == list(mask), "free flags changed", where=mask)
    ensure(np.array_equal(keep, r), "the grid was changed")
    return repr(case)


def cases(tier):
    for name, sets in PARS.items():
        for i in range(len(sets)):
            for g in GRIDS:
                if i >= LISTED[name] and tier == "quick" and (i % 3 or g in ("fine", "origin")):
                    continue
                if np.ndim(GRIDS[g]) == 0 or len(np.atleast_1d(GRIDS[g])) < 12:
                    yield {"f": name, "i": i, "grid": g, "range": "all"}
                    continue
                for rg in RANGES:
                    yield {"f": name, "i": i, "grid": g, "range": rg}


MODELS = [
    ["gor:0.7"],
    ["gor:0.7", "gor:0.7"],
    ["gauss:0.7", "poly:1"],
    ["gor:0.7", "nano"],
    ["tr:gor:0.7/20.0", "poly:1"],
    ["poly:3", "gauss:0.7", "seq"],
    ["arb", "seq", "gor:0.7"],
    ["tr:gor:0.7/20.0", "tr:gor:0.7/20.0"],
]
CENTER = {"gor:0.7": [[2.0, 0.3, 5.0], [3.1, -0.4, 2.0]], "gauss:0.7": [[2.4, 0.1, 1.0]] * 2,
          "tr:gor:0.7/20.0": [[2.0, 0.3, 5.0], [3.1, -0.4, 2.0]]}


def run_model(case, cov):
    """The Jacobian of the weighted residual of a model, for every choice of free parameters."""
    names = case["parts"]
    owners = {n: make(n) for n in names}
    parts, used = [], {}
    for n in names:
        k = used.get(n, 0)
        used[n] = k + 1
        pars = CENTER[n][k] if n in CENTER else PARS[n][0]
        parts.append(part_class(n)(owners[n], pars))
    m = ModelParts(parts)
    r = GRIDS[case["grid"]]
    rng = RANGES[case["range"]]
    y = np.sin(r) + 1
    e = 0.5 + 0.1 * np.arange(len(r))
    sel = slice(None) if rng is None else rng
    npar = sum(len(p) for p in m)
    masks = itertools.product((True, False), repeat=npar)
    for mask in masks:
        if not any(mask):
            continue
        at = 0
        for p in m:
            p.free = np.array(mask[at : at + len(p)], dtype=bool)
            at += len(p)
        v = m.unpack_freepars()
        jac = m.residual_jacobian(v, r, y, e, rng)
        res = m.residual(v, r, y, e, rng)
        ensure(jac.shape == (sum(mask), len(r[sel])), "shape %s of the Jacobian", jac.shape, where=mask)
        tot = sum((np.asarray(p.value(r)) for p in m), 0 * r)
        if not any(n.startswith("tr") for n in names):
            ensure(np.allclose(res, ((y - tot) / e)[sel], rtol=1e-9, atol=1e-9), "residual", where=mask)
        for j in range(len(v)):
            h = 2e-6
            up, dn = v.copy(), v.copy()
            up[j] += h
            dn[j] -= h
            num = (m.residual(up, r, y, e, rng) - m.residual(dn, r, y, e, rng)) / (2 * h)
            ensure(
                np.allclose(jac[j], num, rtol=1e-4, atol=1e-5 * (1 + np.abs(num).max())),
                "derivative of the residual by free parameter %s", j, where=mask,
            )
        # The model now holds other parameters than v; the Jacobian is that at v.
        again = m.residual_jacobian(v, r, y, e, rng)
        ensure(np.array_equal(again, jac), "the Jacobian depends on the parameters held before", where=mask)
        ensure(np.array_equal(m.unpack_freepars(), v), "parameters after the Jacobian", where=mask)
        m.pack_freepars(v)
        cov.transition()
    return repr(case)


def model_cases(tier):
    for names in MODELS:
        for g in ("nyquist", "coarse") if tier == "quick" else ("nyquist", "coarse", "fine", "origin"):
            for rg in ("all", "mid", "right") if tier == "quick" else RANGES:
                yield {"parts": names, "grid": g, "range": rg}


CHECK = Check(
    "C05",
    "exploration",
    [
        Scenario("functions", cases, run, doc="14 functions, 1..7 parameter sets each, 8 grids and scalars, 6 ranges, all 2^n choices of free parameters"),
        Scenario("models", model_cases, run_model, doc="8 models of 1..3 parts, all 2^n choices of free parameters, 2..4 grids, 3..6 ranges"),
    ],
    rule="one case per (function or model, parameters, grid, range), every choice of free parameters within; distinct by the case",
    assumptions=["derivatives compared with central differences to 1e-4"],
)
