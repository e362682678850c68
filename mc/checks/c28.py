"""C28: functions and parts accept every valid definition and refuse the others."""
import itertools
import os

import numpy as np

from diffpy.srmise import srmiselog
from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.base import Baseline, BaselineFunction
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.modelparts import ModelPart
from diffpy.srmise.peaks.base import Peak, PeakFunction
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseStaticOwnerError
from mc.harness import Check, Scenario, Scratch, ensure
from mc.models import make, part_class

CLASSES = {"base": BaseFunction, "peak": PeakFunction, "baseline": BaselineFunction}
KEYS = ("position", "a", 3)
FORMATS = (["internal"], ["internal", "pwa"], ("pwa", "internal", "x"), [])


def attempt(f, *errors):
    """The result, or None if refused by one of errors."""
    try:
        return f()
    except errors:
        return None


# ------------------------------------------------------------------- definitions
def run_definition(case, cov):
    cls = CLASSES[case["cls"]]
    names = {k: v for k, v in zip(KEYS, case["values"]) if v is not None}
    for formats in FORMATS:
        for di, do, more in itertools.product((None, "internal", "pwa", "y"), (None, "internal", "pwa"), (None, "internal", "z")):
            default = {k: v for k, v in (("default_input", di), ("default_output", do), ("other", more)) if v is not None}
            meta = {"a": (1, repr)}
            valid = (
                all(isinstance(k, str) for k in names)
                and sorted(names.values()) == list(range(len(names)))
                and di is not None and do is not None
                and all(v in formats for v in default.values())
                and (case["cls"] != "peak" or "position" in names)
            )
            f = attempt(lambda: cls(dict(names), formats, default, meta), ValueError)
            where = (list(formats), sorted(default.items()))
            ensure((f is not None) == valid, "%s", "refused" if valid else "accepted", where=where)
            cov.transition()
            if f is not None:
                ensure(f.npars == len(names) and f.parameterdict == names, "parameters", where=where)
                ensure(list(f.parformats) == list(formats) and f.default_formats == default, "formats", where=where)
                ensure(f.base is None and f.metadict == meta, "metadata", where=where)
                cov.outcome((case["cls"], sorted(names.items()), where))
    return None


def cases_definition(tier):
    for cls in CLASSES:
        for values in itertools.product((None, -1, 0, 1, 2), repeat=3):
            yield {"cls": cls, "values": values}


# ------------------------------------------------------------------- what a subclass does not implement
METHODS = ("estimate_parameters", "_jacobianraw", "_transform_derivativesraw", "_transform_parametersraw", "_valueraw", "scale_at")
ALLF = ("internal", "f1", "f2")


def run_virtual(case, cov):
    """Functions which implement any of the methods, asked with every format."""
    seen = []
    have = case["have"]

    def method(name):
        def f(self, *args, **kwds):
            seen.append((name, args, kwds))
            if name == "_transform_parametersraw":
                return np.array(args[0], dtype=float)
            if name == "_transform_derivativesraw":
                return "gradient"
            if name == "_valueraw":
                return args[1] * 0.0 + 7.0
            if name == "_jacobianraw":
                return [args[1] * 0.0 + 3.0 if g else None for g in args[2]]
            if name == "estimate_parameters":
                return np.array([1.0, 2.0])
            return None

        return f

    cls = type("Own", (CLASSES[case["cls"]],), {n: method(n) for n in have})
    f = cls({"position": 1, "a": 0}, list(ALLF), {"default_input": case["di"], "default_output": case["do"]}, {})

    def does(name, call, want=None):
        seen.clear()
        try:
            got = call()
        except NotImplementedError:
            ensure(name not in have, "%s is implemented", name)
            return None
        ensure(name in have, "%s is not implemented but answers %s", name, got)
        ensure([s[0] for s in seen] == [name], "%s used", [s[0] for s in seen])
        return got

    def resolve(fmt, which):
        fmt = which if fmt is None else fmt
        return {"default_input": case["di"], "default_output": case["do"]}.get(fmt, fmt)

    for a, b in itertools.product((None, "default_input", "default_output") + ALLF + ("x", "Internal"), repeat=2):
        ra, rb = resolve(a, "default_input"), resolve(b, "default_output")
        cov.transition()
        for name, call in (("_transform_parametersraw", f.transform_parameters), ("_transform_derivativesraw", f.transform_derivatives)):
            kw = {k: v for k, v in (("in_format", a), ("out_format", b)) if v is not None}
            if ra not in ALLF or rb not in ALLF:
                ensure(attempt(lambda: call([1.0, 2.0], **kw), ValueError) is None, "%s: unknown formats %s, %s", name, a, b)
                continue
            if name == "_transform_derivativesraw" and ra == rb:
                ensure(np.array_equal(call([1.0, 2.0], **kw), np.identity(2)), "gradient without change of format %s, %s", a, b)
                continue
            got = does(name, lambda: call([1.0, 2.0], **kw))
            if got is not None:
                s = seen[0]
                args = list(s[1][1:]) + [s[2][k] for k in ("in_format", "out_format") if k in s[2]]
                ensure(args == [ra, rb] and list(s[1][0]) == [1.0, 2.0], "%s asked for %s instead of %s", name, args, (ra, rb))
    if case["cls"] == "base":
        ensure(refused(lambda: f.actualize([1.0, 2.0]), NotImplementedError), "functions of no kind have no parts")
        part = ModelPart(f, [1.0, 2.0])
    elif "_transform_parametersraw" in have:
        part = f.actualize([1.0, 2.0])
        ensure(type(part) is {"peak": Peak, "baseline": Baseline}[case["cls"]], "kind of part")
        ensure(part.removable == (case["cls"] == "peak") and not part.static_owner and all(part.free), "defaults of parts")
    else:
        ensure(refused(lambda: f.actualize([1.0, 2.0]), NotImplementedError), "made a part without transformation")
        part = {"peak": Peak, "baseline": Baseline}[case["cls"]](f, [1.0, 2.0])
    r = np.arange(4.0)
    got = does("_valueraw", lambda: part.value(r))
    ensure(got is None or np.array_equal(got, 7.0 + 0 * r), "value")
    got = does("_jacobianraw", lambda: part.jacobian(r))
    ensure(got is None or all(np.array_equal(g, 3.0 + 0 * r) for g in got), "derivatives")
    if case["cls"] == "base" or "estimate_parameters" in have:
        does("estimate_parameters", lambda: f.estimate_parameters(r, r))
    if case["cls"] == "peak":
        does("scale_at", lambda: f.scale_at([1.0, 2.0], 1.0, 2.0) or "asked")
    return None


def refused(f, *errors):
    try:
        f()
    except errors:
        return True
    return False


def cases_virtual(tier):
    for cls in CLASSES:
        for n in range(len(METHODS) + 1):
            for have in itertools.combinations(METHODS, n):
                for di, do in (("internal", "internal"), ("internal", "f1"), ("f2", "f1")):
                    yield {"cls": cls, "have": list(have), "di": di, "do": do}


# ------------------------------------------------------------------- built-in functions
def run_builtin(case, cov):
    kind = case["kind"]
    if kind == "poly":
        for d in (-5, -1, 0, 1, 2, 5, np.int64(2), np.int32(0), "3", "-2", "x", "", None, 1.5, "1.5", 2.0, [1], float("nan")):
            valid = isinstance(d, (int, np.integer)) or isinstance(d, str) and d.lstrip("-").isdigit()
            f = attempt(lambda: Polynomial(d), ValueError)
            ensure((f is not None) == valid, "degree %r %s", d, "refused" if valid else "accepted")
            if f is None:
                continue
            n = max(int(d), -1) + 1
            ensure(f.npars == n and f.parameterdict == {"a_%d" % k: n - 1 - k for k in range(n)}, "parameters of degree %r", d)
            p = f.actualize([float(k + 1) for k in range(n)])
            x = np.array([0.5, 2.0, 3.0])
            ensure(np.allclose(p.value(x), sum(((k + 1.0) * x ** (n - 1 - k) for k in range(n)), 0 * x)), "value of degree %r", d)
            for k in range(n):
                ensure(p["a_%d" % k] == n - k, "coefficient %d of degree %r", k, d)
            g = BaseFunction.factory(f.writestr([]), [])
            ensure(type(g) is Polynomial and g.npars == n, "degree %r written and read", d)
    elif kind in ("gauss", "gor"):
        cls = {"gauss": Gaussian, "gor": GaussianOverR}[kind]
        for w in (0.7, 1, 1e-6, 40.0, np.float64(0.3), np.int64(2), 0, 0.0, -0.7, -1, float("-inf")):
            f = attempt(lambda: cls(w), ValueError)
            ensure((f is not None) == (w > 0), "width limit %r %s", w, "refused" if w > 0 else "accepted")
            if f is None:
                continue
            ensure(f.npars == 3 and f.parameterdict["position"] == 0 and sorted(f.parameterdict.values()) == [0, 1, 2], "parameters")
            p = f.actualize([2.0, w, 1.0], "pwa")
            top = p.value(2.0)
            ensure(abs((p.value(2.0 + w / 2) * (2.0 + w / 2) if kind == "gor" else p.value(2.0 + w / 2)) * 2 / (top * (2.0 if kind == "gor" else 1)) - 1) < 1e-6,
                   "a peak as wide as the limit %r", w)
            for fmt in ("pwa", "mu_sigma_area", "internal", "default_input", "default_output"):
                ensure(not refused(lambda: f.actualize([2.0, w / 3, 1.0], fmt), ValueError), "format %s", fmt)
            for fmt in ("PWA", "", "fwhm", "mu_area_sigma"):
                ensure(refused(lambda: f.actualize([2.0, w / 3, 1.0], fmt), ValueError), "format %s", fmt)
            g = BaseFunction.factory(f.writestr([]), [])
            ensure(type(g) is cls and g.maxwidth == f.maxwidth, "limit written and read")
    elif kind == "ripples":
        for b, q, e, s in itertools.product(("gauss:0.7", "gor:0.4"), (5, 20.0), (1.0, 4.0), (2.0, 5.0)):
            base = make(b)
            f = TerminationRipples(base, q, e, s)
            ensure(f.base is base and f.qmax == q and f.extension == e and f.supersample == s, "arguments")
            ensure(f.npars == 3 and f.parameterdict == base.parameterdict and list(f.parformats) == list(base.parformats), "parameters of the base")
            ensure(f.default_formats == base.default_formats, "formats of the base")
            pars = f.transform_parameters([2.0, 0.3, 1.5], "pwa", "internal")
            ensure(np.allclose(pars, base.transform_parameters([2.0, 0.3, 1.5], "pwa", "internal")), "parameters")
            for fa, fb in itertools.product(base.parformats, repeat=2):
                ensure(np.allclose(f.transform_parameters(base.transform_parameters(pars, "internal", fa), fa, fb), base.transform_parameters(pars, "internal", fb)), "formats %s, %s", fa, fb)
                at = base.transform_parameters(pars, "internal", fa)
                grads = [attempt(lambda: g.transform_derivatives(at, fa, fb), NotImplementedError) for g in (f, base)]
                ensure((grads[0] is None) == (grads[1] is None), "gradients %s, %s of one only", fa, fb)
                ensure(grads[0] is None or np.allclose(*grads), "gradients %s, %s", fa, fb)
            ensure(refused(lambda: f.writestr([]), ValueError) and refused(lambda: f.writestr([make(b)]), ValueError), "written without its base")
            g = BaseFunction.factory(f.writestr([make("poly:0"), base]), [make("poly:0"), base])
            ensure(type(g) is TerminationRipples and g.base is base and (g.qmax, g.extension, g.supersample) == (q, e, s), "written and read")
            d = TerminationRipples(base, q)
            ensure(d.extension == 4.0 and d.supersample == 5.0, "defaults")
            part = base.actualize([2.0, 0.3, 1.0], "pwa")
            for call in (lambda: f.value(part, 2.0), lambda: f.jacobian(part, 2.0)):
                ensure(refused(call, ValueError), "evaluated the part of another function")
    elif kind == "own":
        def value(pars, x):
            return sum((p * x**k for k, p in enumerate(pars)), 0 * x)

        def jac(pars, x, free):
            return [x**k * 1.0 if f else None for k, f in enumerate(free)]

        for n in (0, 1, 3, "2", np.int64(2), -1, "x", None, 1.5, [1]):
            valid = isinstance(n, (int, np.integer)) and n >= 0 or n == "2"
            f = attempt(lambda: Arbitrary(n, value, jac), ValueError)
            ensure((f is not None) == valid, "%r parameters %s", n, "refused" if valid else "accepted")
            ensure(f is None or f.npars == int(n) and f.parameterdict == {"a_%d" % k: k for k in range(int(n))}, "parameters")
        for v, j, e in itertools.product((value, 3, "x"), (jac, None, 3, "x"), (value, None, 3, "x")):
            valid = v is value and j in (jac, None) and e in (value, None)
            ensure((attempt(lambda: Arbitrary(2, v, j, e), ValueError) is not None) == valid, "functions %s", (v, j, e))
        r = np.arange(1.0, 4.0)
        for n in (0, 1, 2, 3):
            for mask in itertools.product((True, False), repeat=n):
                pars = [float(k + 2) for k in range(n)]
                for j in (jac, None):
                    p = Arbitrary(n, value, j).actualize(pars, free=list(mask))
                    ensure(np.allclose(p.value(r), value(pars, r)), "value")
                    if j is None and any(mask):
                        ensure(refused(lambda: p.jacobian(r), NotImplementedError), "derivatives without derivatives")
                        continue
                    got = p.jacobian(r)
                    ensure(len(got) == n and all((g is None) == (not m) and (g is None or np.allclose(g, r**k)) for k, (g, m) in enumerate(zip(got, mask))),
                           "derivatives %s", got)
                for fmt in ("pwa", "x", ""):
                    ensure(refused(lambda: Arbitrary(n, value).transform_parameters(pars, fmt, "internal"), ValueError)
                           and refused(lambda: Arbitrary(n, value).transform_parameters(pars, "internal", fmt), ValueError), "format %s", fmt)
    return None


def cases_builtin(tier):
    for k in ("poly", "gauss", "gor", "ripples", "own"):
        yield {"kind": k}


# ------------------------------------------------------------------- parts
def run_part(case, cov):
    name = case["f"]
    f = make(name)
    n = f.npars
    other = make(name)
    cls = part_class(name)
    vals = [2.0, 0.3, 1.5, 0.7, 4.0][: case["pars"]]
    for kind, free in itertools.product((list, tuple, np.array), [None] + [list(m) for k in range(n + 2) for m in itertools.product((True, False), repeat=k)]):
        for removable, static in itertools.product((True, False), repeat=2):
            given, mask = kind(vals), None if free is None else kind(free)
            where = (kind.__name__, free, removable, static)
            p = attempt(lambda: cls(f, given, mask, removable, static), ValueError)
            valid = len(vals) == n and (free is None or len(free) == n)
            ensure((p is not None) == valid, "%s", "refused" if valid else "accepted", where=where)
            cov.transition()
            if p is None:
                continue
            want = [True] * n if free is None else free
            ensure([float(v) for v in p.pars] == vals and [bool(v) for v in p.free] == want, "parameters", where=where)
            ensure(p.removable is removable and p.static_owner is static and p.owner() is f, "flags", where=where)
            ensure(len(p) == n and p.npars() == n and p.npars(count_fixed=False) == sum(want), "numbers", where=where)
            ensure([float(v) for v in p.compress()] == [v for v, m in zip(vals, want) if m], "free parameters", where=where)
            for k, i in f.parameterdict.items():
                ensure(p[k] == vals[i] and p.getfree(k) == want[i] and p[i] == vals[i] and p.getfree(i) == want[i] and p[i - n] == vals[i], "parameter %s", k, where=where)
            ensure([float(v) for v in p[0:n]] == vals, "all parameters", where=where)
            for k in ("x", "", n, -n - 1):
                ensure(refused(lambda: p[k], IndexError, KeyError) and refused(lambda: p.getfree(k), IndexError, KeyError)
                       and refused(lambda: p.setfree(k, True), IndexError, KeyError), "parameter %r", k, where=where)
            ensure([bool(v) for v in p.free] == want, "parameters freed", where=where)
            for g in (lambda: other.value(p, 2.0), lambda: other.jacobian(p, 2.0), lambda: other.value(p, np.arange(1.0, 3.0))):
                ensure(refused(g, ValueError), "evaluated by another function", where=where)
            # the part keeps its own parameters
            if kind is np.array and n:
                given[0] = 99.0
                if mask is not None:
                    mask[0] = not mask[0]
                ensure([float(v) for v in p.pars] == vals and [bool(v) for v in p.free] == want, "shares the parameters given", where=where)
            q = p.copy()
            ensure(q == p and not q != p and type(q) is cls and q.static_owner is static, "copy", where=where)
            for k, i in f.parameterdict.items():
                q.setfree(k, not want[i])
                ensure(bool(q.getfree(i)) != want[i] and bool(p.getfree(i)) == want[i] and q != p, "copy shares its parameters", where=where)
                q.setfree(i, want[i])
                ensure(q == p, "set back", where=where)
                q.pars[i] += 1
                ensure(q != p and p.pars[i] == vals[i], "copy shares its parameters", where=where)
                q.pars[i] = p.pars[i]
            for m in itertools.product((True, False), repeat=n):
                for i, v in enumerate(m):
                    q.setfree(i, v)
                ensure((q == p) == (p == q) == (list(m) == want), "equal with other free parameters", where=where)
                for i, v in enumerate(want):
                    q.setfree(i, v)
            # another owner
            for g in ("poly:0", "poly:1", "poly:2", "gauss:0.7", "seq"):
                g = make(g)
                if g.npars != n:
                    ensure(refused(lambda: q.changeowner(g), SrMiseStaticOwnerError) and q.owner() is f, "an owner with %d parameters", g.npars, where=where)
            q.changeowner(f)
            ensure(q.owner() is f and q == p, "keeps its owner", where=where)
            new = attempt(lambda: (q.changeowner(other), q.owner())[1], SrMiseStaticOwnerError)
            ensure((new is other) == (not static), "owner of a %s part", "static" if static else "common", where=where)
            ensure(q.owner() is (f if static else other) and (q == p) == static, "owner", where=where)
    return None


def cases_part(tier):
    for f in ("gauss:0.7", "gor:0.7", "tr:gor:0.7/20.0", "poly:-1", "poly:0", "poly:1", "poly:3", "nano", "seq", "arb"):
        for n in range(6):
            yield {"f": f, "pars": n}


# ------------------------------------------------------------------- sequences read from files
def run_file(case, cov):
    with Scratch() as d:
        path = os.path.join(d, "seq.txt")
        body = [case["sep"].join(t) for t in case["rows"]]
        with open(path, "w", newline="") as fh:
            fh.write(case["eol"].join(case["head"] + body) + case["end"])
        try:
            good = all(len(t) >= 2 for t in case["rows"])
            data = [(float(t[0]), float(t[1])) for t in case["rows"]] if good else None
        except ValueError:
            data = None
        for make_it in (lambda: FromSequence(path), lambda: FromSequence(file=path)):
            if data:
                f = make_it()
                x, y = [np.array(v) for v in zip(*data)]
                ensure(np.allclose(f.actualize([]).value(x), y), "values of the file")
                g = BaseFunction.factory(f.writestr([]), [])
                ensure(np.allclose(g.actualize([]).value(x), y), "written and read")
            else:
                ensure(refused(make_it, SrMiseDataFormatError), "an invalid file was accepted")
        for bad in (os.path.join(d, "missing"), d):
            ensure(refused(lambda: FromSequence(bad), OSError), "a file that is not there was accepted")
        cov.outcome((case["head"], case["eol"], case["end"], data is None))
    return None


def cases_file(tier):
    good = [["0", "1.5"], ["1", "2.25"], ["2.5", "-1e-1"], ["3", "0"], ["4.0", "7"]]
    bad = ([["0", "x"]] + good[1:], good[:2] + [["2.5"]] + good[3:], good[:4] + [["x", "1"]], [["#", "1"]][:0], good[:2] + [["#", "late"]] + good[3:])
    extra = [t + ["8", "z"] for t in good]
    for rows in (good, extra) + bad:
        for head in ([], ["# comment"], ["# 1 2", "#", "# 3 4"], ["", "# x"][:1]):
            for sep in (" ", "\t", "   "):
                for eol in ("\n", "\r\n"):
                    for end in ("", "\n", "\n\n"):
                        yield {"rows": rows, "head": head, "sep": sep, "eol": eol, "end": end}


# ------------------------------------------------------------------- live plots
def run_live(case, cov):
    keep = srmiselog.liveplots, srmiselog.wait
    try:
        state = (False, False)
        srmiselog.liveplotting(False, False)
        for lp, w in case["calls"]:
            valid = isinstance(lp, bool) and (w is None or isinstance(w, bool))
            done = not refused(lambda: srmiselog.liveplotting(lp) if w is None else srmiselog.liveplotting(lp, w), ValueError)
            ensure(done == valid, "%s %s", (lp, w), "refused" if valid else "accepted")
            if valid:
                state = (lp, bool(w))
            ensure((srmiselog.liveplots, srmiselog.wait) == state, "%s after %s", (srmiselog.liveplots, srmiselog.wait), (lp, w))
    finally:
        srmiselog.liveplots, srmiselog.wait = keep
    return None


def cases_live(tier):
    calls = list(itertools.product((True, False, 1, "x", None), (True, False, 0, "x", None)))
    for a, b in itertools.product(calls, repeat=2):
        yield {"calls": [a, b]}


CHECK = Check(
    "C28",
    "model_checking",
    [
        Scenario("definition", cases_definition, run_definition, doc="every assignment of indexes to three names x formats x defaults, for the three base classes"),
        Scenario("virtual", cases_virtual, run_virtual, doc="every set of implemented methods, all formats asked for, three defaults"),
        Scenario("builtin", cases_builtin, run_builtin, doc="arguments of all functions, valid and not"),
        Scenario("part", cases_part, run_part, doc="10 functions, every number of parameters and choice of free ones, flags, containers"),
        Scenario("file", cases_file, run_file, doc="sequences in files: rows, heads, separators, ends of lines"),
        Scenario("live", cases_live, run_live, doc="every pair of settings of live plots"),
    ],
    rule="the definition is valid exactly when the documented conditions hold",
)
