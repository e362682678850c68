"""C16: a saved extraction is restored completely."""
import itertools
import os
import tempfile

import numpy as np

from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from mc.checks.c14 import PRINT, same_cluster
from mc.harness import Check, Scenario, ensure
from mc.models import make

COMMON = ["x", "y", "dx", "dy", "effective_dy", "rng", "cres", "extraction_type"]
PDFONLY = ["filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample"]
R = np.arange(1.0, 6.0, 0.05)


def grid(name):
    n, step, start = {"short": (24, 0.13, 1.0), "thirds": (30, 1.0 / 30.0, 1.0 / 3.0), "long": (1300, 0.01, 0.01)}[name]
    x = start + step * np.arange(n)
    y = np.sin(5 * x) / 3.0 + np.exp(-((x - 2.0) ** 2) / 0.02)
    return x, y, x / 97.0, 0.1 + np.cos(x) ** 2 / 7.0


class Pool:
    """Functions shared between variables and result."""

    def __init__(self):
        self.f = {}

    def __call__(self, name):
        if name not in self.f:
            if name.startswith("tr:"):
                base, q = name[3:].split("/")
                self.f[name] = TerminationRipples(self(base), float(q))
            else:
                self.f[name] = make(name)
        return self.f[name]


PARS = {"gauss:0.7": [2.1, -0.2, 1.5], "gor:0.7": [2.6, 0.3, 2.0 / 3.0], "tr:gor:0.7/20": [3.1, 0.1, 1.1],
        "poly:1": [0.3, -1.0 / 7.0], "poly:-1": [], "nano": [0.7, 3.2], "seq": [], "poly:2": [0.1, 0.0, 1e-9]}


def peaks(fn, names):
    out = Peaks()
    for i, n in enumerate(names):
        p = list(PARS[n])
        p[0] += i / 9.0
        out.append(Peak(fn(n), p, free=[i % 2 == 0, True, i != 1], removable=i != 2, static_owner=i == 1))
    return out


def as_type(v, kind):
    """The same numbers as numpy makes them."""
    if isinstance(v, list):
        return np.array(v) if kind == "array" else (tuple if kind == "tuple" else list)(as_type(u, kind) for u in v)
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return {"float64": np.float64, "float32": np.float32}.get(kind, np.int64)(v)
    if isinstance(v, float):
        return {"float32": np.float32}.get(kind, np.float64)(v)
    return v


def build(case):
    pe = PDFPeakExtraction() if case["kind"] == "pdf" else PeakExtraction()
    fn = Pool()
    kw = {k: as_type(v, case["np"]) for k, v in case["vars"].items()} if case.get("np") else dict(case["vars"])
    g = case["grid"]
    if g is not None:
        x, y, dx, dy = grid(g)
        if case["err"]:
            pe.setdata(x, y, dx, dy)
        else:
            pe.setdata(x, y)
    if "pf" in kw:
        kw["pf"] = [fn(n) for n in kw["pf"]]
    if "initial_peaks" in kw:
        kw["initial_peaks"] = peaks(fn, kw["initial_peaks"])
    if "baseline" in kw:
        kw["baseline"] = Baseline(fn(kw["baseline"]), PARS[kw["baseline"]])
    if "baselinefn" in kw:
        pe.baseline = fn(kw.pop("baselinefn"))  # not yet estimated
    if "error_method" in kw:
        kw["error_method"] = {"AIC": AIC, "AICc": AICc}[kw["error_method"]]
    for k in PDFONLY:
        if k in kw and (k.startswith("qmax_") or k == "filename"):
            setattr(pe, k, kw.pop(k))
    if kw or case.get("default"):
        pe.setvars(quiet=True, **kw)
    if case.get("result"):
        names, bl, typ, ev = case["result"]
        x, y, dx, dy = grid(g)
        pe.extracted = ModelCluster(peaks(fn, names), bl and Baseline(fn(bl), PARS[bl]), x[2:], y[2:], dy[2:],
                                    slice(1, len(x) - 4), {"AIC": AIC, "AICc": AICc}[ev],
                                    [fn("gor:0.7"), fn("tr:gor:0.7/20")])
        pe.extraction_type = typ
    if case.get("run"):
        if case["run"] == "fit":
            (pe.fit if case["kind"] == "pdf" else pe.fit_single)()
        else:
            (pe.extract if case["kind"] == "pdf" else pe.extract_single)()
    return pe


def same_value(k, a, b):
    if a is None or b is None:
        ensure(a is None and b is None, "%s: %r read as %r", k, a, b)
    elif isinstance(a, np.ndarray) or isinstance(a, (list, tuple)):
        ensure(len(a) == len(b) and all(u == v for u, v in zip(a, b)), "%s read as another sequence", k)
    else:
        ensure(a == b and isinstance(b, str) == isinstance(a, str), "%s: %r read as %r", k, a, b)


def same_part(k, p, q):
    ensure(type(p) is type(q) and type(p.owner()) is type(q.owner()) and np.array_equal(p.pars, q.pars)
           and list(p.free) == list(q.free) and p.removable == q.removable and p.static_owner == q.static_owner,
           "%s: %s read as %s", k, p, q)
    ensure(np.array_equal(p.value(R), q.value(R)), "%s has another value", k)


def parts(pe):
    """All functions referred to, in a fixed order."""
    out = [("pf", f) for f in pe.pf or []]
    out += [("initial", p.owner()) for p in pe.initial_peaks or []]
    if pe.extracted is not None:
        out += [("extracted", p.owner()) for p in pe.extracted.model] + [("funcs", f) for f in pe.extracted.peak_funcs]
    out += [("base", f.base) for _, f in out if f.base is not None]
    return [f for _, f in out]


def same(a, b, kind):
    for k in COMMON + (PDFONLY if kind == "pdf" else []):
        same_value(k, getattr(a, k), getattr(b, k))
    ensure(a.error_method is b.error_method, "model evaluator differs")
    if a.pf is None:
        ensure(b.pf is None, "peak functions appeared")
    else:
        ensure([(type(f), f.maxwidth if hasattr(f, "maxwidth") else f.qmax) for f in a.pf]
               == [(type(f), f.maxwidth if hasattr(f, "maxwidth") else f.qmax) for f in b.pf], "peak functions differ")
    if a.initial_peaks is None:
        ensure(b.initial_peaks is None, "initial peaks appeared")
    else:
        ensure(len(a.initial_peaks) == len(b.initial_peaks), "number of initial peaks differs")
        for p, q in zip(a.initial_peaks, b.initial_peaks):
            same_part("initial peak", p, q)
    if a.baseline is None:
        ensure(b.baseline is None, "a baseline appeared")
    elif hasattr(a.baseline, "estimate_parameters"):
        ensure(type(a.baseline) is type(b.baseline) and a.baseline.npars == b.baseline.npars,
               "baseline function differs")
    else:
        same_part("baseline", a.baseline, b.baseline)
    ensure((a.extracted is None) == (b.extracted is None), "result missing")
    if a.extracted is not None:
        same_cluster(a.extracted, b.extracted)
    f, g = parts(a), parts(b)
    ensure(len(f) == len(g), "other functions after reading")
    for i, j in itertools.combinations(range(len(f)), 2):
        ensure((f[i] is f[j]) == (g[i] is g[j]), "functions are shared otherwise after reading")


def dirty(kind):
    """An object used before."""
    pe = build({"kind": kind, "grid": "short", "err": True, "vars": {
        "cres": 0.2, "rng": [1.5, 2.5], "initial_peaks": ["gor:0.7"], "baseline": "poly:1", "pf": ["gauss:0.7"]},
        "result": [["gor:0.7"], "poly:1", "extract", "AICc"]})
    if kind == "pdf":
        pe.filename = "/other/file"
        pe.qmax_reportedbypdf = 3.0
    return pe


def run_round(case, cov):
    cls = PDFPeakExtraction if case["kind"] == "pdf" else PeakExtraction
    with np.printoptions(**PRINT[case.get("print", "default")]):
        a = build(case)
        text = a.writestr()
        b = cls()
        b.readstr(text)
        same(a, b, case["kind"])
        same(a, build(case), case["kind"])  # writing changed nothing
        c = dirty(case["kind"])
        c.readstr(b.writestr())
        same(a, c, case["kind"])
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "x.srmise")
            c.write(fn)
            e = dirty(case["kind"])
            ensure(e.read(fn) is e, "read does not return the object")
            same(a, e, case["kind"])
            if case["grid"]:
                e.defaultvars()
                a.defaultvars()
                same(a, e, case["kind"])
    cov.trace(3)
    return None


def run_again(case, cov):
    """Go on with the saved extraction as with the original."""
    cls = PDFPeakExtraction if case["kind"] == "pdf" else PeakExtraction
    a = build(case)
    b = cls()
    b.readstr(a.writestr())
    for op in case["ops"]:
        for pe in (a, b):
            if op == "fit":
                (pe.fit if case["kind"] == "pdf" else pe.fit_single)()
            elif op == "extract":
                (pe.extract if case["kind"] == "pdf" else pe.extract_single)()
            elif op == "est":
                pe.estimate_peak(2.0)
            elif op == "default":
                pe.defaultvars("cres", "rng")
        ensure((a.extracted is None) == (b.extracted is None), "another result", where=op)
        if a.extracted is not None:
            ensure(len(a.extracted.model) == len(b.extracted.model), "another number of peaks", where=op)
            va, vb = a.extracted.value(), b.extracted.value()
            ensure(len(va) == len(vb) and np.allclose(va, vb, rtol=1e-5, atol=1e-6 * (1 + abs(va).max())),
                   "another result after %s", op, where=op)
        ensure(len(a.initial_peaks) == len(b.initial_peaks), "other initial peaks", where=op)
    cov.trace()
    return None


def cases_round(tier):
    base = [
        {}, {"cres": 1.0 / 3.0}, {"effective_dy": 0.25}, {"rng": [1.25, 1.0 / 3.0 + 2]}, {"rng": [None, 2]},
        {"pf": []}, {"pf": ["gor:0.7", "gauss:0.7"]}, {"pf": ["tr:gor:0.7/20", "gor:0.7"]},
        {"initial_peaks": []}, {"initial_peaks": ["gor:0.7"]}, {"initial_peaks": ["tr:gor:0.7/20", "gauss:0.7", "gor:0.7"]},
        {"initial_peaks": ["gor:0.7", "gor:0.7", "gauss:0.7"]},
        {"baseline": "poly:1"}, {"baseline": "poly:-1"}, {"baseline": "nano"}, {"baseline": "seq"}, {"baseline": "poly:2"},
        {"error_method": "AICc"},
        {"cres": 1e-12, "pf": ["gor:0.7"], "initial_peaks": ["gor:0.7", "tr:gor:0.7/20"], "baseline": "seq",
         "error_method": "AIC", "rng": [1.5, 2.5]},
    ]
    pdf = [
        {"qmax": 0.0}, {"qmax": 1e-3}, {"qmax": 20, "nyquist": False}, {"qmax": 60.0 / 7, "scale": True},
        {"supersample": 7.0 / 3}, {"qmax": "automatic"},
        {"qmax_reportedbypdf": 22.2}, {"qmax_fromdata": None, "qmax_reportedbypdf": 0.0},
        {"filename": "/a/b c.gr"}, {"filename": "it's \"so\" # = \\n.gr"}, {"filename": "\u00c5ngstr\u00f6m.gr"},
        {"filename": "# Metadata"}, {"filename": "a\nqmax=7"},
    ]
    for kind in ("base", "pdf"):
        for f in (None, "poly:1", "nano"):
            yield {"kind": kind, "grid": None, "err": False, "vars": {} if f is None else {"baselinefn": f}}
        for v in base + (pdf if kind == "pdf" else []):
            for g, err in (("short", False), ("thirds", True)):
                yield {"kind": kind, "grid": g, "err": err, "vars": v}
                yield {"kind": kind, "grid": g, "err": err, "vars": v, "default": True}
        numbers = [{"cres": 0.25}, {"cres": 2}, {"effective_dy": 0.25}, {"rng": [1.25, 2.5]}, {"rng": [1, 3]}, {"rng": [None, 2.5]}]
        if kind == "pdf":
            numbers += [{"qmax": 20}, {"qmax": 20.5, "nyquist": True, "scale": False}, {"nyquist": False, "scale": True, "supersample": 3},
                        {"qmax": 0, "supersample": 2.5}, {"qmax_reportedbypdf": 22, "qmax_fromdata": 19.5}]
        for v in numbers:
            for t in ("int64", "float64", "float32", "tuple") + (() if None in v.get("rng", ()) else ("array",)):
                yield {"kind": kind, "grid": "short", "err": True, "vars": v, "np": t}
        for pr in PRINT:
            yield {"kind": kind, "grid": "long", "err": True, "vars": base[-1], "print": pr,
                   "result": [["tr:gor:0.7/20", "gor:0.7"], "seq", "extract", "AICc"]}
        pks = ["gor:0.7", "tr:gor:0.7/20", "gauss:0.7"]
        n = 2 if tier == "quick" else 3
        for k in range(n + 1):
            for names in itertools.product(pks, repeat=k):
                for bl, typ, ev in itertools.product((None, "poly:1", "seq"), ("extract", "fit"), ("AIC", "AICc")):
                    for v in ({}, base[-1]) if tier == "quick" else base:
                        yield {"kind": kind, "grid": "short", "err": True, "vars": v, "default": True,
                               "result": [list(names), bl, typ, ev]}
        # a baseline yet to be estimated beside a result
        for f, bl in itertools.product(("poly:1", "nano", "poly:2", "seq"), (None, "poly:1", "nano", "poly:2", "seq")):
            yield {"kind": kind, "grid": "short", "err": True, "vars": {"baselinefn": f}, "result": [["gor:0.7"], bl, "fit", "AIC"]}
        for r in ("fit", "extract"):
            for v in ({"cres": 0.2, "effective_dy": 0.2}, {"cres": 0.2, "effective_dy": 0.2, "baseline": "poly:1",
                      "initial_peaks": ["gor:0.7"], "pf": ["gor:0.7"]}):
                for g in ("short", "thirds"):
                    if r == "fit" and "initial_peaks" not in v:
                        continue
                    yield {"kind": kind, "grid": g, "err": True, "vars": v, "run": r}


def cases_again(tier):
    ops = ["fit", "est", "default"] + (["extract"] if tier != "quick" else [])
    for kind in ("base", "pdf"):
        for v in ({"cres": 0.2, "effective_dy": 0.3, "initial_peaks": ["gor:0.7"], "pf": ["gor:0.7"]},
                  {"effective_dy": 0.2, "baseline": "poly:1", "initial_peaks": ["gor:0.7", "gauss:0.7"],
                   "pf": ["gauss:0.7", "gor:0.7"], "error_method": "AICc", "rng": [1.2, 3.5]}):
            for n in (1, 2):
                for o in itertools.product(ops, repeat=n):
                    yield {"kind": kind, "grid": "short", "err": True, "vars": v, "ops": list(o)}
            yield {"kind": kind, "grid": "short", "err": True, "vars": v, "ops": ["extract"]}


CHECK = Check(
    "C16",
    "exploration",
    [
        Scenario("round trip", cases_round, run_round,
                 doc="all listed states of variables, data and results, saved as text and file, read into new and used objects"),
        Scenario("going on", cases_again, run_again,
                 doc="all sequences of operations on the original and the restored extraction"),
    ],
    rule="every observable of the restored object is compared with the original",
)
