"""C14: functions, parts and clusters survive being written and read."""
import itertools

import numpy as np

from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from mc.harness import Check, Scenario, ensure
from mc.models import SEQX, SEQY, make, part_class

EV = {"AIC": AIC, "AICc": AICc, "none": None}
R = np.arange(1.0, 6.0, 0.05)
PARS = {"gauss": [2.1, -0.2, 1.5], "gor": [2.6, 0.3, 0.7], "tr": [3.1, 0.1, 1.1],
        "nano": [0.7, 3.2], "seq": []}


def pars_of(name):
    kind, _, arg = name.partition(":")
    if kind == "poly":
        return [0.3, -0.7, 0.11, 0.01][: int(arg) + 1]
    return list(PARS[kind])


# ------------------------------------------------------------ ways to write
PRINT = {
    "default": {},
    "short": dict(precision=3, threshold=5, suppress=True),
    "legacy": dict(legacy="1.13", precision=2),
}


# ------------------------------------------------------------ functions
W = [0.7, 1.0 / 3.0, 1e-7, 123456.789, 2]
Q = [20.0, 18.123456789012345, 7]


def build(spec, pool):
    """A function by specification; `pool` shares equal specifications."""
    key = repr(spec)
    if key in pool:
        return pool[key]
    kind = spec[0]
    if kind == "gauss":
        f = Gaussian(spec[1])
    elif kind == "gor":
        f = GaussianOverR(spec[1])
    elif kind == "tr":
        f = TerminationRipples(build(spec[1], pool), spec[2], *spec[3:])
    elif kind == "seq":
        f = FromSequence(*[np.array(v) for v in seqdata(spec[1])])
    elif kind == "seqlist":
        f = FromSequence(*[list(v) for v in seqdata(spec[1])])
    elif kind == "poly":
        f = make("poly:%d" % spec[1])
    else:
        f = make("nano")
    pool[key] = f
    return f


def seqdata(n):
    x = 0.1 + np.arange(n) / 7.0
    return x, np.sin(x) / 3.0


def fpars(spec):
    if spec[0] in ("seq", "seqlist"):
        return []
    if spec[0] == "poly":
        return pars_of("poly:%d" % spec[1])
    if spec[0] == "nano":
        return pars_of("nano")
    while spec[0] == "tr":
        spec = spec[1]
    w = spec[1]
    return [2.1, -0.2, 1.5] if w > 1e-3 else [2.1, 1.5, 1.5]


def alldeps(spec):
    return [spec] + (alldeps(spec[1]) if spec[0] == "tr" else [])


FUNCS = (
    [["gauss", w] for w in W] + [["gor", w] for w in W]
    + [["poly", d] for d in (-1, 0, 1, 3)] + [["nano"]]
    + [["seq", 5], ["seq", 1500], ["seqlist", 9]]
    + [["tr", ["gauss", 0.7], q] for q in Q]
    + [["tr", ["gor", 0.7], q, e, s] for q in Q for e, s in ((4.0, 5.0), (3, 4.25))]
    + [["tr", ["tr", ["gor", 0.7], 25.0], 18.0]]
)


def same_function(f, g, spec, what):
    ensure(type(f) is type(g), "%s: read as %s", what, type(g).__name__)
    cls = Baseline if spec[0] in ("poly", "nano", "seq", "seqlist") else Peak
    f0, g0 = f, g
    f, g = cls(f, fpars(spec)), cls(g, fpars(spec))
    ensure(f0.npars == g0.npars and f0.parameterdict == g0.parameterdict and f0.parformats == g0.parformats,
           "%s: parameters or formats differ", what)
    r = R[(R > 0.2)]
    ensure(np.array_equal(f.value(r), g.value(r)), "%s: values differ after reading", what)
    ensure(np.array_equal(f.value(r, slice(7, 30)), g.value(r, slice(7, 30))), "%s: values differ", what)
    if spec[0] == "tr":
        ensure(f.value(2.0) == g.value(2.0), "%s: value at a number differs", what)
    for a, b in zip(f.jacobian(r), g.jacobian(r)):
        ensure(np.array_equal(a, b), "%s: derivatives differ", what)
    if spec[0] in ("gauss", "gor"):
        ensure(f0.maxwidth == g0.maxwidth, "%s: maximum width differs", what)
    if spec[0] == "tr":
        ensure((f0.qmax, f0.extension, f0.supersample) == (g0.qmax, g0.extension, g0.supersample),
               "%s: cut-off, extension or supersampling differ", what)


def run_functions(case, cov):
    specs = case["funcs"]
    with np.printoptions(**PRINT[case["print"]]):
        pool = {}
        fs = [build(s, pool) for s in specs]
        bykey = dict(pool)
        safe = BaseFunction.safefunctionlist(fs)
        ensure(len(set(map(id, safe))) == len(safe), "a function is listed twice")
        want = {id(build(d, pool)) for s in specs for d in alldeps(s)}
        ensure({id(f) for f in safe} == want, "the list holds other functions than those given and their bases")
        for i, f in enumerate(safe):
            if getattr(f, "base", None) is not None:
                ensure(any(f.base is g for g in safe[:i]), "a function comes before its base")
        texts = [f.writestr(safe) for f in safe]
        back = []
        for t in texts:
            back.append(BaseFunction.factory(t, back))
        for f, g, t in zip(safe, back, texts):
            key = [k for k, v in bykey.items() if v is f][0]
            same_function(f, g, eval(key), "function %s" % key)
            if f.base is not None:
                i = [j for j, b in enumerate(safe) if b is f.base][0]
                ensure(g.base is back[i], "function %s: another base after reading", key)
            again = BaseFunction.factory(g.writestr(back), back)
            same_function(f, again, eval(key), "function %s written twice" % key)
            cov.trace()
    return None


def cases_functions(tier):
    for p in PRINT:
        for f in FUNCS:
            yield {"funcs": [f], "print": p}
    few = [["gauss", 0.7], ["gor", 0.7], ["tr", ["gauss", 0.7], 20.0], ["tr", ["gor", 0.7], 20.0],
           ["tr", ["tr", ["gor", 0.7], 20.0], 15.0]]
    for n in (2, 3) if tier == "quick" else (2, 3, 4, 5):
        for c in itertools.permutations(few, n):
            yield {"funcs": list(c), "print": "default"}


# ------------------------------------------------------------ parts
VALS = [0.1, -1.0 / 3.0, 1e-300, 123456789.123456789, 0.0]
PARTS = ["gauss:0.7", "gor:0.7", "tr:gor:0.7/20", "poly:1", "poly:2", "poly:-1", "nano", "seq"]


def run_parts(case, cov):
    name = case["part"]
    cls = part_class(name)
    with np.printoptions(**PRINT[case["print"]]):
        f = make(name)
        owners = BaseFunction.safefunctionlist([make("poly:0"), f] if cls is Baseline else [make("gauss:1"), f])
        owners = owners[case["rot"]:] + owners[:case["rot"]]
        p = cls(f, case["pars"], free=case["free"], removable=case["rem"], static_owner=case["static"])
        q = cls.factory(p.writestr(owners), owners)
        ensure(type(q) is cls and q.owner() is f, "read with another owner")
        ensure(np.array_equal(p.pars, q.pars) and np.array_equal(np.array(case["pars"]), q.pars),
               "parameters %s read as %s", list(case["pars"]), list(q.pars))
        ensure([bool(v) for v in q.free] == [bool(v) for v in case["free"]], "free parameters differ")
        ensure(q.removable == case["rem"] and q.static_owner == case["static"], "removable or static owner differ")
        again = cls.factory(q.writestr(owners), owners)
        ensure(np.array_equal(again.pars, p.pars), "parameters differ after writing twice")
        q.pars = q.pars * 2.0
        ensure(np.array_equal(p.pars, np.array(case["pars"])), "the part read is not independent")
    cov.trace()
    return None


def cases_parts(tier):
    vals = VALS[:3] if tier == "quick" else VALS
    for name in PARTS:
        n = make(name).npars
        for pars in itertools.product(vals, repeat=n):
            for free in itertools.product((True, False), repeat=n):
                for rem, static in itertools.product((True, False), repeat=2):
                    for pr in PRINT if (n < 2 or tier != "quick") else ("default",):
                        yield {"part": name, "pars": list(pars), "free": list(free), "rem": rem,
                               "static": static, "print": pr, "rot": 0}
    # more parameters than anything prints without shortening
    for n in (6, 9, 24):
        for k in range(n + 1):
            for pr in PRINT:
                yield {"part": "poly:%d" % n, "pars": [VALS[(i + k) % len(VALS)] for i in range(n + 1)],
                       "free": [(i + k) % 3 != 0 for i in range(n + 1)], "rem": k % 2 == 0, "static": k % 3 == 0, "print": pr, "rot": 0}
    for name in PARTS:
        n = make(name).npars
        for rot in (1, 2):
            yield {"part": name, "pars": [0.1] * n, "free": [True] * n, "rem": True, "static": False,
                   "print": "short", "rot": rot}


# ------------------------------------------------------------ clusters
CP = ["gauss:0.7", "gor:0.7", "tr:gor:0.7/20"]


def cluster(case):
    fpool = {}

    def fn(n):
        if n not in fpool:
            if n.startswith("tr:"):
                base = n[3:].split("/")[0]
                fpool[n] = TerminationRipples(fn(base), float(n.split("/")[1])) if case["shared"] else make(n)
            else:
                fpool[n] = make(n)
        return fpool[n]

    r = 1.0 + np.arange(case["n"]) / 30.0
    y = np.sin(3 * r) + 1.0 / 3.0
    dy = 0.3 + np.cos(r) ** 2 / 7.0
    if case["model"] is None:
        model = None
    else:
        model = Peaks([Peak(fn(n), [v + 0.17 * i for v in pars_of(n)], free=[True, i % 2 == 0, True], removable=i != 1)
                       for i, n in enumerate(case["model"])])
    bl = None
    if case["bl"] is not None:
        bl = Baseline(fn(case["bl"]), pars_of(case["bl"]))
    pf = None if case["pf"] is None else [fn(n) for n in case["pf"]]
    return ModelCluster(model, bl, r, y, dy, case["slice"] and slice(*case["slice"]), EV[case["ev"]], pf)


def same_cluster(a, b, shared_with=None):
    for k in ("r_data", "y_data", "y_error"):
        u, v = getattr(a, k), getattr(b, k)
        ensure(np.array_equal(u, v), "%s differs by %g", k, np.max(np.abs(np.array(u) - np.array(v)))
               if len(u) == len(v) else np.nan)
    ensure(a.slice == b.slice, "extent %s read as %s", a.slice, b.slice)
    ensure(a.error_method is b.error_method, "model evaluator differs")
    for m, n in ((a.model, b.model), ([a.baseline], [b.baseline])):
        if m is None or m == [None]:
            ensure(n is None or n == [None] or len(n) == 0, "a model appeared")
            continue
        ensure(len(m) == len(n), "%d parts read as %d", len(m), len(n))
        for p, q in zip(m, n):
            ensure(type(p) is type(q) and np.array_equal(p.pars, q.pars) and list(p.free) == list(q.free)
                   and p.removable == q.removable and p.static_owner == q.static_owner
                   and type(p.owner()) is type(q.owner()), "part %s read as %s", p, q)
            ensure(np.array_equal(p.value(R), q.value(R)), "a part has another value")
    if a.peak_funcs is None:
        ensure(b.peak_funcs is None, "peak functions appeared")
    else:
        ensure([type(f) for f in a.peak_funcs] == [type(f) for f in b.peak_funcs], "peak functions differ")
    for i, p in enumerate(a.model or []):  # the same sharing of functions
        for j, f in enumerate(a.peak_funcs or []):
            ensure((p.owner() is f) == (b.model[i].owner() is b.peak_funcs[j]), "peaks share their functions otherwise")
        for j, q in enumerate(a.model):
            ensure((p.owner() is q.owner()) == (b.model[i].owner() is b.model[j].owner()), "peaks share functions otherwise")
    if a.model is not None:
        ensure(np.array_equal(a.value(), b.value()), "value of the cluster differs")
        ensure(np.array_equal(a.valuebl(), b.valuebl()), "baseline of the cluster differs")
        if a.error_method is not None and len(a.r_cluster) > 4 + 3 * len(a.model):
            ensure(a.quality().stat == b.quality().stat, "quality differs")


def run_cluster(case, cov):
    with np.printoptions(**PRINT[case["print"]]):
        a = cluster(case)
        before = a.writestr()
        b = ModelCluster.factory(before)
        same_cluster(a, b)
        ensure(a.writestr() is not None, "written once only")
        c = ModelCluster.factory(b.writestr())
        same_cluster(a, c)
        same_cluster(a, cluster(case))
        # the functions given by the caller
        pf = [f for f in (a.peak_funcs or [])] + [p.owner() for p in (a.model or [])]
        pf = BaseFunction.safefunctionlist(pf)
        bf = [] if a.baseline is None else [a.baseline.owner()]
        d = ModelCluster.factory(a.writestr(pfbaselist=pf, blfbaselist=bf), pfbaselist=pf, blfbaselist=bf)
        same_cluster(a, d)
        for p, q in zip(a.model or [], d.model or []):
            ensure(p.owner() is q.owner(), "another function than that given")
        cov.trace(3)
    return None


def cases_cluster(tier):
    models = [None, []] + [[n] for n in CP] + [list(c) for c in itertools.product(CP, repeat=2)]
    if tier != "quick":
        models += [list(c) for c in itertools.product(CP, repeat=3)]
    pfs = [None, [], ["gor:0.7"], ["tr:gor:0.7/20", "gor:0.7"], ["gauss:0.7", "gor:0.7"]]
    for model, bl, pf, ev in itertools.product(models, (None, "poly:-1", "poly:1", "nano", "seq"), pfs, EV):
        for shared, sl, n in ((False, None, 40), (True, [3, 31], 40)) if tier == "quick" else itertools.product(
                (False, True), (None, [3, 31], [0, 40], [39, 40]), (40,)):
            yield {"model": model, "bl": bl, "pf": pf, "ev": ev, "shared": shared, "slice": sl, "n": n,
                   "print": "default"}
    for pr in PRINT:
        for n in (2, 40, 1200):
            yield {"model": CP, "bl": "seq", "pf": pfs[3], "ev": "AICc", "shared": True, "slice": [0, 2], "n": n,
                   "print": pr}


CHECK = Check(
    "C14",
    "exploration",
    [
        Scenario("functions", cases_functions, run_functions,
                 doc="every function, and all orders of functions depending on each other, written and read"),
        Scenario("parts", cases_parts, run_parts,
                 doc="peaks and baselines: all parameters, choices of free parameters and flags of the alphabet"),
        Scenario("clusters", cases_cluster, run_cluster,
                 doc="all combinations of model, baseline, functions, evaluator and extent"),
    ],
    rule="written text is read back by the real code and every observable compared with the original",
    assumptions=["parameters are finite numbers", "functions given as Python callables (Arbitrary) cannot be written"],
)
