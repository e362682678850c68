"""C09: covariances of fitted models under every history of setting and transforming."""
import copy
import itertools

import numpy as np

from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.srmiseerrors import SrMiseUndefinedCovarianceError
from mc.harness import Check, Scenario, ensure
from mc.models import make, part_class

PARS = {
    "gor:0.7": [[2.0, -0.4, 1.5], [2.6, 0.3, 0.7]],
    "gauss:0.7": [[3.0, 0.2, 1.1], [3.5, -0.6, 2.0]],
    "tr:gor:0.7/20.0": [[2.2, -0.1, 1.0], [4.0, 0.5, 3.0]],
    "poly:1": [[-0.3, 0.1]],
    "poly:0": [[0.4]],
    "poly:-1": [[]],
    "poly:3": [[0.1, -0.2, 0.3, -0.4]],
    "seq": [[]],
    "nano": [[0.5, 20.0]],
    "arb": [[1.0, 0.4, -0.1]],
}
MODELS = [
    ("gor:0.7",),
    ("gauss:0.7",),
    ("poly:1",),
    ("gor:0.7", "poly:1"),
    ("gor:0.7", "seq"),
    ("gor:0.7", "gor:0.7"),
    ("gor:0.7", "poly:-1"),
    ("tr:gor:0.7/20.0", "poly:0"),
    ("gauss:0.7", "gor:0.7"),
    ("gor:0.7", "gauss:0.7", "nano"),
    ("gor:0.7", "gor:0.7", "poly:1"),
    ("gor:0.7", "seq", "gor:0.7"),
    ("tr:gor:0.7/20.0", "gor:0.7", "seq"),
    ("gor:0.7", "arb"),
    ("gor:0.7", "poly:3"),
]


def build(names, mask):
    used, parts, owners, at = {}, [], {}, 0
    for n in names:
        k = used.get(n, 0)
        used[n] = k + 1
        o = owners.setdefault(n, make(n))
        pars = PARS[n][k]
        parts.append(part_class(n)(o, pars, list(mask[at : at + len(pars)])))
        at += len(pars)
    return ModelParts(parts)


def npars(names):
    used, n = {}, 0
    for m in names:
        n += len(PARS[m][0])
    return n


def a_matrix(n, scale=1.0):
    """A symmetric positive definite matrix without special structure."""
    a = np.array([[np.sin(1.0 + 3.1 * i + 1.7 * j * (j + 1)) for j in range(n)] for i in range(n)]).reshape(n, n)
    return scale * 0.01 * (a @ a.T + np.eye(n))


class Ref:
    """Values and covariance kept independently."""

    def __init__(self, model, cov, free):
        self.owners = [p.owner() for p in model]
        self.pars = [np.array(p.pars, dtype=float) for p in model]
        n = sum(len(p) for p in self.pars)
        cov = np.asarray(cov, dtype=float)
        idx = list(range(n)) if len(cov) == n else [i for i in range(n) if free[i]]
        self.cov = np.zeros((n, n))
        for a, i in enumerate(idx):
            for b, j in enumerate(idx):
                self.cov[i, j] = cov[a, b]

    def transform(self, parts, a, b):
        n = len(self.cov)
        g = np.eye(n)
        starts = np.cumsum([0] + [len(p) for p in self.pars])
        for i in parts:
            o, p = self.owners[i], self.pars[i]
            if len(p) == 0:
                continue
            try:
                o.transform_derivatives(p, a, b)
                new = np.array(o.transform_parameters(p, a, b), dtype=float)
            except Exception:
                continue
            h = 1e-6
            for k in range(len(p)):
                up, dn = p.copy(), p.copy()
                up[k] += h
                dn[k] -= h
                d = (np.array(o.transform_parameters(up, a, b)) - np.array(o.transform_parameters(dn, a, b))) / (2 * h)
                g[starts[i] : starts[i + 1], starts[i] + k] = d
            self.pars[i] = new
        self.cov = g @ self.cov @ g.T

    def key(self):
        return [np.round(p, 7).tolist() for p in self.pars], np.round(self.cov, 9).tolist()


def close(a, b, tol=1e-6):
    return np.allclose(a, b, rtol=tol, atol=1e-9)


def queries(mc, ref, where):
    n = len(ref.cov)
    ij = [(i, j) for i, p in enumerate(ref.pars) for j in range(len(p))]
    flat = [float(v) for p in ref.pars for v in p]
    ensure(np.shape(mc.cov) == (n, n), "shape %s of the covariance", np.shape(mc.cov), where=where)
    var = np.diag(ref.cov)
    for k, t in enumerate(ij):
        for key in (k, t):
            ensure(close(mc.getvalue(key), flat[k]), "value %s of parameter %s is %s", mc.getvalue(key), key, flat[k], where=where)
            ensure(close(mc.getuncertainty(key), np.sqrt(var[k])), "uncertainty %s of parameter %s is %s", mc.getuncertainty(key), key, np.sqrt(var[k]), where=where)
            v, u = mc.get(key)
            ensure(close(v, flat[k]) and close(u, np.sqrt(var[k])), "(value, uncertainty) of %s", key, where=where)
            s = mc.prettypar(key)
            a, b = s.replace("(", " ").replace(")", " ").split()
            ensure(close(float(a), flat[k], 1e-4) and close(float(b), np.sqrt(var[k]), 1e-4), "printed parameter %s: %s", key, s, where=where)
    corr = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if var[a] > 0 and var[b] > 0:
                corr[a, b] = ref.cov[a, b] / np.sqrt(var[a] * var[b])
            for ka, kb in ((a, b), (ij[a], b), (a, ij[b]), (ij[a], ij[b])):
                ensure(close(mc.getcovariance(ka, kb), ref.cov[a, b]), "covariance of %s and %s", ka, kb, where=where)
                ensure(close(mc.getcorrelation(ka, kb), corr[a, b], 1e-5), "correlation %s of %s and %s is %s", mc.getcorrelation(ka, kb), ka, kb, corr[a, b], where=where)
    for t in (0.0, 0.3, 0.8, None):
        got = mc.correlationwarning() if t is None else mc.correlationwarning(t)
        th = 0.8 if t is None else t
        names = [(tuple(int(z) for z in a), tuple(int(z) for z in b)) for a, b, c in got]
        must = [(ij[a], ij[b]) for a in range(n) for b in range(a + 1, n) if abs(corr[a, b]) > th + 1e-6]
        may = [(ij[a], ij[b]) for a in range(n) for b in range(a + 1, n) if abs(corr[a, b]) > th - 1e-6 and corr[a, b] != 0]
        ensure(set(must) <= set(names) <= set(may) and len(names) == len(set(names)), "correlations over %s: %s", th, names, where=where)
        for a, b, c in got:
            ensure(close(c, corr[ij.index(tuple(a)), ij.index(tuple(b))], 1e-5), "reported correlation", where=where)
    lines = str(mc).split("\n")
    ensure(len(lines) == len(ref.pars), "printed lines", where=where)
    for p, l in zip(ref.pars, lines):
        nums = [float(w) for w in l.replace("(", " ").replace(")", " ").split()]
        ensure(len(nums) == 2 * len(p) and close(nums[0::2], p, 1e-4), "printed line %s", l, where=where)


def ops_for(names):
    fm = ["internal", "pwa", "mu_sigma_area", "default_output"]
    sel = [None, "peaks", "baseline"] + [[i] for i in range(len(names))]
    return [("transform", a, b, s) for a, b in itertools.product(fm, fm) for s in sel if a != b or a == "internal"]


def chosen(names, s):
    n = len(names)
    return list(range(n)) if s is None else list(range(n - 1)) if s == "peaks" else [n - 1] if s == "baseline" else s


def current(names, state_fmt, op):
    """The transformation is only meaningful if the parts are in its input format."""
    _, a, b, s = op
    return all(state_fmt[i] == ("pwa" if a == "default_output" else a) or names[i].split(":")[0] not in ("gor", "gauss", "tr") for i in chosen(names, s))


def run_history(case, cov):
    names, mask = case["parts"], case["free"]
    model = build(names, mask)
    before = [np.array(p.pars) for p in model]
    n, nfree = len(mask), sum(mask)
    size = n if case["full"] else nfree
    m0 = a_matrix(size)
    mc = ModelCovariance()
    if case["stale"]:
        other = build(("gor:0.7", "gor:0.7", "poly:1"), [True] * 8)
        mc.setcovariance(other, a_matrix(8))
    given = m0.copy()
    mc.setcovariance(model, given)
    ref = Ref(model, m0, mask)
    ensure(np.array_equal(given, m0), "the covariance given was changed")
    queries(mc, ref, "set")
    level = [(mc, ref, ["internal"] * len(names), ())]
    cov.state(ref.key())
    seen = set()
    ops = ops_for(names)
    for depth in range(case["depth"]):
        nxt = []
        for mc, ref, fmt, hist in level:
            for op in ops:
                if not current(names, fmt, op):
                    continue
                m2, r2, f2 = copy.deepcopy(mc), copy.deepcopy(ref), list(fmt)
                r2.owners = [p.owner() for p in m2.model]
                where = hist + (op,)
                _, a, b, s = op
                try:
                    if s is None:
                        m2.transform(a, b)
                    else:
                        m2.transform(a, b, parts=s)
                except Exception as e:
                    ensure(False, "transformation failed: %s %s", type(e).__name__, e, where=where)
                ch = chosen(names, s)
                old = [p.copy() for p in r2.pars]
                r2.transform(ch, a, b)
                for i in ch:
                    if len(old[i]) and (not np.array_equal(old[i], r2.pars[i])):
                        f2[i] = "pwa" if b == "default_output" else b
                cov.transition()
                queries(m2, r2, where)
                key = (tuple(f2), repr(r2.key()))
                if key not in seen:
                    seen.add(key)
                    cov.state((names, mask, case["full"], key))
                    nxt.append((m2, r2, f2, where))
        level = nxt
    # the fitted model itself never changes, also without the copies made above, nor depends the covariance on it
    mc = ModelCovariance()
    mc.setcovariance(model, m0)
    ref = Ref(model, m0, mask)
    mc.transform("internal", "pwa")
    for p, b in zip(model, before):
        ensure(np.array_equal(p.pars, b), "the model was changed")
    ref.transform(range(len(names)), "internal", "pwa")
    for p in model:
        p.pars = p.pars + 1.0
    queries(mc, ref, "afterwards")
    for p, b in zip(model, before):
        p.pars = np.array(b)
    for p, b in zip(model, before):
        ensure(np.array_equal(p.pars, b), "the model was changed")
    # afterwards, a new covariance or none
    mc.clear()
    for f in (lambda: mc.transform("internal", "pwa"), lambda: mc.getcovariance(0, 0), lambda: mc.getcorrelation(0, 0), mc.correlationwarning):
        try:
            f()
        except SrMiseUndefinedCovarianceError:
            pass
        else:
            ensure(False, "an undefined covariance was used")
    return repr(case)


def history_cases(tier):
    deep = 3 if tier == "thorough" else 2
    for names in MODELS:
        n = npars(names)
        masks = list(itertools.product((True, False), repeat=n))
        if n > 4:  # all, none, each fixed, each free, alternating
            masks = [m for m in masks if sum(m) in (0, 1, n - 1, n) or m == tuple(i % 2 == 0 for i in range(n))]
        for mask in masks:
            if not any(mask):
                continue
            for full in (False, True):
                if full and all(mask):
                    continue
                whole = sum(mask) in (n, n - 1)
                yield {"parts": list(names), "free": list(mask), "full": full, "stale": full or whole, "depth": deep if whole and not full else 1}


def run_size(case, cov):
    names, mask = case["parts"], case["free"]
    model = build(names, mask)
    mc = ModelCovariance()
    if case["before"]:
        mc.setcovariance(model, a_matrix(len(mask)))
    state = (None if mc.cov is None else np.array(mc.cov), mc.model, len(mc.pmap))
    k, l = case["shape"]
    ok = k == l and k in (len(mask), sum(mask))
    try:
        mc.setcovariance(model, np.ones((k, l)))
    except ValueError:
        ensure(not ok, "a %s x %s covariance was refused", k, l)
        ensure(mc.model is state[1] and len(mc.pmap) == state[2], "changed by a refused covariance")
        ensure((mc.cov is None) == (state[0] is None) and (mc.cov is None or np.array_equal(mc.cov, state[0])), "covariance changed")
    else:
        ensure(ok, "a %s x %s covariance was accepted for %s free of %s", k, l, sum(mask), len(mask))
        ensure(mc.cov.shape == (len(mask),) * 2, "shape")
    return repr(case)


def size_cases(tier):
    for names, mask in ((("gor:0.7",), (True, True, False)), (("gor:0.7", "seq"), (True,) * 3), (("poly:1",), (False, True))):
        for shape in itertools.product(range(1, 6), repeat=2):
            for before in (False, True):
                yield {"parts": list(names), "free": list(mask), "shape": list(shape), "before": before}


CHECK = Check(
    "C09",
    "model_checking",
    [
        Scenario("size", size_cases, run_size, doc="every shape up to 5 x 5"),
        Scenario(
            "histories",
            history_cases,
            run_history,
            doc="14 models, choices of free parameters, covariance over free or all parameters, then breadth-first over all "
            "transformations (format pairs x all/peaks/baseline/one part) to depth 2 (thorough 3); all queries in every state",
        ),
    ],
    rule="one case per model, choice of free parameters and kind of matrix; breadth-first search of transformations within",
)
