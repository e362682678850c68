"""C15: the extraction variables in every history of setting data and variables."""
import itertools

import numpy as np

from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfdataset import PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, find_qmax
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.srmiseerrors import SrMiseError
from mc.harness import Check, Scenario, ensure

BASE = ["effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"]
PDF = BASE + ["qmax", "supersample", "nyquist", "scale"]


# --------------------------------------------------------------- alphabet
def data(name):
    n, step, kind = {"A": (24, 0.25, None), "B": (17, 0.3, "pos"), "C": (30, 0.2, "mixed"), "L": (24, 0.25, "list"),
                     "I": (24, 1, "int"), "Z": (24, 0.25, None)}[name]
    x = (-2.0 if name == "Z" else 1.0) + step * np.arange(n)
    y = 0.5 + 1.5 * np.exp(-((x - 3.0) ** 2) / 0.2) + 0.1 * x
    dx = dy = None
    if kind == "pos":
        dx, dy = 0.01 * x, 0.1 + 0.02 * x
    if kind == "mixed":
        dy = 0.1 + 0.02 * x
        dy[4] = 0.0
    if kind == "list":
        dy = [0.5] * n
        x, y = list(x), list(y)
    if kind == "int":
        x, y = np.arange(1, n + 1), np.arange(n) % 7
    return x, y, dx, dy


BAD = {
    "y": lambda: (np.arange(5.0), np.arange(4.0), None, None),
    "dx": lambda: (np.arange(5.0), np.arange(5.0), np.ones(4), None),
    "dy": lambda: (np.arange(5.0), np.arange(5.0), None, np.ones(6)),
}


def line():
    return Polynomial(degree=1)


def values(name, n):
    """The argument of setvars by name, freshly made."""
    return {
        "cres": lambda: {"cres": 0.3},
        "cresNone": lambda: {"cres": None},
        "dyscalar": lambda: {"effective_dy": 0.2},
        "dylist": lambda: {"effective_dy": [0.1 + 0.01 * i for i in range(n)]},
        "dyarray": lambda: {"effective_dy": 0.3 + 0.01 * np.arange(n)},
        "dyNone": lambda: {"effective_dy": None},
        "dg": lambda: {"dg": 0.7},
        "dgboth": lambda: {"dg": 0.7, "effective_dy": 0.1},
        "rng": lambda: {"rng": [2.1, 4.0]},
        "rnglow": lambda: {"rng": (2.0, None)},
        "rnghigh": lambda: {"rng": [None, 4.25]},
        "rngboth": lambda: {"rng": [None, None]},
        "rngarray": lambda: {"rng": np.array([1.4, 4.4])},
        "rngzero": lambda: {"rng": [0.0, None]},
        "rngtozero": lambda: {"rng": [None, 0]},
        "rngempty": lambda: {"rng": [50.0, 60.0]},
        "rngbefore": lambda: {"rng": (-9, -7.5)},
        "rngbetween": lambda: {"rng": [3.01, 3.02]},
        "rngwide": lambda: {"rng": (-3.0, 400)},
        "pf": lambda: {"pf": [Gaussian(0.4), Gaussian(0.9)]},
        "blf": lambda: {"baseline": line()},
        "blnano": lambda: {"baseline": NanoSpherical()},
        "blrng": lambda: {"baseline": line(), "rng": [2.0, 3.5]},
        "bl": lambda: {"baseline": Baseline(line(), [0.3, -0.1], free=[True, False])},
        "peaks": lambda: {"initial_peaks": Peaks([Peak(Gaussian(0.7), [3.0, 0.1, 2.0])])},
        "aicc": lambda: {"error_method": AICc},
        "many": lambda: {"cres": 0.11, "rng": [1.5, 3.5], "error_method": AICc, "pf": [Gaussian(1.0)]},
        "bogus": lambda: {"bogus": 1},
        "crbogus": lambda: {"cres": 9.0, "bogus": 1},
        "nothing": lambda: {},
        "qmax0": lambda: {"qmax": 0.0},
        "qmax15": lambda: {"qmax": 15},
        "qmaxauto": lambda: {"qmax": "automatic"},
        "qmaxautobogus": lambda: {"cres": 2.0, "qmax": "automatic", "bogus": 3},
        "ss2": lambda: {"supersample": 2.0},
        "ss1": lambda: {"supersample": 1},
        "ssbad": lambda: {"supersample": 0.5, "cres": 1.0},
        "ssNone": lambda: {"supersample": None},
        "nyqF": lambda: {"nyquist": False},
        "nyqT": lambda: {"nyquist": True, "scale": True},
        "scaleNone": lambda: {"scale": None, "nyquist": None, "qmax": None},
    }[name]()


BASEVALS = ["cres", "cresNone", "dyscalar", "dylist", "dyarray", "dyNone", "rng", "rnglow", "rnghigh", "rngboth",
            "rngarray", "rngzero", "rngtozero", "rngempty", "rngbefore", "rngbetween", "rngwide", "pf", "blf", "blnano", "blrng", "bl", "peaks", "aicc", "many", "bogus", "crbogus",
            "nothing"]
PDFVALS = BASEVALS + ["dg", "dgboth", "qmax0", "qmax15", "qmaxauto", "qmaxautobogus", "ss2", "ss1", "ssbad",
                      "ssNone", "nyqF", "nyqT", "scaleNone"]


def ops(kind):
    vals = PDFVALS if kind == "pdf" else BASEVALS
    out = [["set", v] for v in vals]
    out += [["default"]] + [["default", v] for v in (PDF + ["dg"] if kind == "pdf" else BASE)]
    out += [["default", "rng", "baseline"]]
    out += [["data", d] for d in "ABCLIZ"] + [["bad", b] for b in BAD] + [["clear"]]
    if kind == "pdf":
        out += [["load", "B", 12.0], ["load", "A", 0.0]]
    return out


# -------------------------------------------------------------- reference
class Refuse(Exception):
    pass


class Ref:
    def __init__(self, kind):
        self.kind = kind
        self.names = PDF if kind == "pdf" else BASE
        self.clear()

    def clear(self):
        self.data = None
        self.reported = self.fromdata = None
        self.v = dict.fromkeys(self.names)

    def setdata(self, x, y, dx, dy):
        x, y = np.array(x), np.array(y)
        z = np.zeros(len(x))
        self.data = (x, y, z if dx is None else np.array(dx), z if dy is None else np.array(dy))
        if self.kind == "pdf":
            try:
                self.fromdata = find_qmax(x, y)[0]
            except Exception:
                self.fromdata = None

    def set(self, kw):
        kw = dict(kw)
        if self.kind == "pdf":
            if "dg" in kw:
                if "effective_dy" in kw:
                    raise Refuse()
                kw["effective_dy"] = kw.pop("dg")
            if isinstance(kw.get("qmax"), str):
                if self.fromdata is None:
                    raise Refuse()
                kw["qmax"] = self.fromdata
            if kw.get("supersample") is not None and kw["supersample"] < 1:
                raise Refuse()
        if set(kw) - set(self.names):
            raise Refuse()
        self.v.update(kw)
        self.default()

    def default(self, *args):
        x, y, dx, dy = self.data
        v = self.v
        args = ["effective_dy" if a == "dg" else a for a in args]

        def unset(k):
            return v[k] is None or k in args

        if self.kind == "pdf":
            if unset("qmax"):
                v["qmax"] = next((q for q in (self.reported, self.fromdata) if q is not None), 0.0)
            if unset("nyquist"):
                v["nyquist"] = bool(v["qmax"] > 0)
            if unset("scale"):
                v["scale"] = False
            if unset("supersample"):
                v["supersample"] = 4.0
        if unset("cres"):
            if v.get("qmax") and v["qmax"] > 0:
                v["cres"] = np.pi / v["qmax"]
            else:
                v["cres"] = 4.0 * (x[-1] - x[0]) / len(x)
        if unset("effective_dy"):
            v["effective_dy"] = dy if (dy > 0).all() else np.full(len(x), 0.05 * (max(y) - min(y)))
        elif np.isscalar(v["effective_dy"]):
            v["effective_dy"] = np.full(len(x), float(v["effective_dy"]))
        if unset("pf"):
            v["pf"] = [("GaussianOverR", 0.7 if self.kind == "pdf" else x[-1] - x[0])]
        lo, hi = (None, None) if unset("rng") else v["rng"]
        v["rng"] = [x[0] if lo is None else lo, x[-1] if hi is None else hi]
        if hasattr(v["baseline"], "estimate_parameters"):
            s = (x >= v["rng"][0]) & (x <= v["rng"][1])
            try:
                pars = v["baseline"].estimate_parameters(x[s], y[s])
                v["baseline"] = Baseline(v["baseline"], np.array(pars))
            except (NotImplementedError, SrMiseError):
                v["baseline"] = None
        if unset("baseline"):
            v["baseline"] = Baseline(Polynomial(degree=-1), [])
        if unset("error_method"):
            v["error_method"] = AIC
        if unset("initial_peaks"):
            v["initial_peaks"] = Peaks()


def norm(k, v):
    """A comparable form of a variable."""
    if v is None:
        return None
    if k == "pf":
        return [f if isinstance(f, tuple) else (type(f).__name__, f.maxwidth) for f in v]
    if k == "baseline":
        o = v.owner() if hasattr(v, "owner") else v
        return (type(o).__name__, o.npars, [float(p) for p in v.pars], [bool(f) for f in v.free])
    if k == "initial_peaks":
        return [(type(p.owner()).__name__, [float(q) for q in p.pars], [bool(f) for f in p.free], p.removable)
                for p in v]
    if k == "error_method":
        return v.__name__
    if k in ("effective_dy", "rng"):
        return [float(q) for q in v]
    return v if isinstance(v, bool) else float(v)


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(p, q) for p, q in zip(a, b))
    if isinstance(a, (float, int)) and isinstance(b, (float, int)) and not isinstance(a, bool):
        return abs(a - b) <= 1e-9 * (1 + abs(b))
    return a == b


def compare(pe, ref, where):
    for k in ref.names:
        got, want = norm(k, getattr(pe, k)), norm(k, ref.v[k])
        ensure(close(got, want), "variable %s is %s, expected %s", k, got, want, where=where)
    for i, k in enumerate(("x", "y", "dx", "dy")):
        got = getattr(pe, k)
        if ref.data is None:
            ensure(got is None, "%s is set without data", k, where=where)
        else:
            ensure(np.array_equal(got, ref.data[i]), "%s is not the data set", k, where=where)
    if ref.kind == "pdf":
        for k, want in (("qmax_reportedbypdf", ref.reported), ("qmax_fromdata", ref.fromdata)):
            got = getattr(pe, k)
            ensure((got is None) == (want is None) and (want is None or close(float(got), float(want))),
                   "%s is %s, expected %s", k, got, want, where=where)
    ensure(pe.extracted is None and pe.extraction_type is None, "a result appeared", where=where)
    if ref.data is not None and ref.v["rng"] is not None and None not in list(ref.v["rng"]):
        x = ref.data[0]
        want = [v for v in x if ref.v["rng"][0] <= v <= ref.v["rng"][1]]
        if want:
            s = pe.getrangeslice()
            ensure(list(pe.x[s]) == want, "range %s selects %s", ref.v["rng"], pe.x[s], where=where)


def snapshot(v):
    if isinstance(v, np.ndarray):
        return (id(v), v.tolist())
    if isinstance(v, dict):
        return {k: snapshot(u) for k, u in v.items()}
    if isinstance(v, Peaks) or isinstance(v, (list, tuple)):
        return (type(v), [snapshot(u) for u in v])
    if isinstance(v, (Peak, Baseline)):
        return (id(v.owner()), v.pars.tolist(), list(v.free), v.removable)
    return repr(v)


def spoil(args):
    """The caller goes on using his arrays and lists for something else."""
    for v in args:
        if isinstance(v, (np.ndarray, list)):
            for i in range(len(v)):
                v[i] = 77


def apply(pe, ref, op, where):
    """False if the operation is not enabled."""
    kind = op[0]
    if kind in ("set", "default") and ref.data is None:
        return False
    if kind == "clear":
        pe.clear()
        ref.clear()
    elif kind == "data":
        args = data(op[1])
        snap = snapshot(args)
        pe.setdata(*args)
        ref.setdata(*data(op[1]))
        ensure(snapshot(args) == snap, "the data of the caller was changed", where=where)
        spoil(args)
    elif kind == "bad":
        try:
            pe.setdata(*BAD[op[1]]())
        except ValueError:
            pass
        else:
            ensure(False, "data of different lengths accepted", where=where)
    elif kind == "load":
        x, y, dx, dy = data(op[1])
        d = PDFDataSet("d")
        d.robs, d.Gobs = list(x), list(y)
        d.drobs = [0.0] * len(x) if dx is None else list(dx)
        d.dGobs = [0.0] * len(x) if dy is None else list(dy)
        d.qmax = op[2]
        pe.loadpdf(d)
        ref.clear()
        ref.setdata(x, y, dx, dy)
        ref.reported = op[2]
        ensure(d.robs == list(x) and d.Gobs == list(y), "the data set was changed", where=where)
    elif kind == "set":
        n = len(ref.data[0])
        args = values(op[1], n)
        snap = snapshot(args)
        refused = False
        try:
            ref.set(values(op[1], n))
        except Refuse:
            refused = True
        try:
            pe.setvars(quiet=True, **args)
        except (ValueError, SrMiseError):
            ensure(refused, "valid variables refused", where=where)
        else:
            ensure(not refused, "invalid variables accepted", where=where)
        ensure(snapshot(args) == snap, "what the caller gave was changed", where=where)
        spoil([args.get(k) for k in ("effective_dy", "rng")])
    elif kind == "default":
        pe.defaultvars(*op[1:])
        ref.default(*op[1:])
    return True


def run(case, cov):
    """All histories beginning with the given operations."""
    kind = case["kind"]
    names = ops(kind)
    for tail in itertools.product(names, repeat=case["depth"]):
        pe = PDFPeakExtraction() if kind == "pdf" else PeakExtraction()
        ref = Ref(kind)
        done = []
        for op in list(case["head"]) + [list(t) for t in tail]:
            done.append(op)
            if not apply(pe, ref, op, done):
                done.pop()
                break
            if len(done) > len(case["head"]) - 1:
                compare(pe, ref, done)
            cov.transition()
        cov.state((kind, [norm(k, ref.v[k]) for k in ref.names], ref.data is None))
    return None


def cases(tier):
    for kind in ("pdf", "base"):
        starts = [["data", d] for d in "AB"] + ([["load", "B", 12.0], ["load", "A", 0.0]] if kind == "pdf" else [])
        yield {"kind": kind, "head": [], "depth": 1}
        for s in starts + [["data", d] for d in "CLI"]:
            for o in ops(kind):
                yield {"kind": kind, "head": [s, o], "depth": 1}
        if tier != "quick":
            for s in starts:
                for o, p in itertools.product(ops(kind), repeat=2):
                    yield {"kind": kind, "head": [s, o, p], "depth": 1}


CHECK = Check(
    "C15",
    "model_checking",
    [Scenario("histories", cases, run, timeout=300,
              doc="every sequence of setting data, variables and defaults to depth 2 (thorough 3) after the data")],
    rule="explicit-state search of histories of the real object; after every step all variables, the data and the "
         "range are compared with a reference",
    assumptions=["quality of the automatic maximum momentum transfer is the subject of C22"],
)
