"""C31: verbosity and tracing change no result, and every message can be written."""
import contextlib
import io
import itertools
import logging
import os
import shutil
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from diffpy.srmise import srmiselog  # noqa: E402
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from mc.harness import Check, Scenario, ensure

FUNC = {"gauss": Gaussian, "gor": GaussianOverR}
QMAX = 20.0
X = 1.0 + 0.06 * np.arange(50)
ROOT = logging.getLogger("diffpy.srmise")


class Listener(logging.Handler):
    """Formats every record, as any handler would, and lets errors through."""

    def __init__(self):
        logging.Handler.__init__(self, logging.DEBUG)
        self.records = []
        self.setFormatter(logging.Formatter(srmiselog.defaultformat))

    def emit(self, record):
        self.records.append((record.levelno, self.format(record)))


def data(case):
    f = FUNC[case["func"]](0.7)
    kind = case["data"]
    dy = 0.05 * np.ones(len(X))
    k = np.arange(len(X))
    if isinstance(kind, list):
        y = 0.0 * X
        for p in kind:
            y = y + f.actualize(list(p), "pwa").value(X)
        y = y + 0.4 * dy * (((5 * k + 3) % 13) - 6) / 6.0
        x = X
    elif kind == "few":
        x, dy = X[:6], dy[:6]
        y = np.array([0.0, 1.0, 3.0, 2.5, 1.0, 0.2])
    elif kind == "tiny":
        x, dy = X[:4], dy[:4]
        y = np.array([0.0, 1.0, 2.0, 0.5])
    elif kind == "flat":
        x, y = X, 0.3 + 0.0 * X
    elif kind == "negative":
        x, y = X, -1.0 - np.cos(3 * X)
    elif kind == "zero":
        x, y = X, 0.0 * X
    elif kind == "steep":
        x, y = X, np.exp(2 * X) / 50.0
    else:
        x, y = X, np.where(k % 7 == 3, 2.0, 0.0)  # one point above, six below
    return x, y, dy[: len(x)]


def new(case):
    x, y, dy = data(case)
    pe = PDFPeakExtraction() if case["kind"] == "pdf" else PeakExtraction()
    pe.setdata(x, y, None, dy)
    f = FUNC[case["func"]](0.7)
    kw = {"pf": [f], "cres": 0.15, "effective_dy": dy, "error_method": {"AIC": AIC, "AICc": AICc}[case["ev"]]}
    if case["bl"] == "poly1":
        kw["baseline"] = Polynomial(1)
    elif case["bl"] == "line":
        kw["baseline"] = Polynomial(1).actualize([-0.01, 0.02], "internal")
    elif case["bl"] == "nano":
        kw["baseline"] = NanoSpherical()
    elif case["bl"] == "seq":
        kw["baseline"] = FromSequence(X, 0.01 * X)
    if case["kind"] == "pdf":
        kw.update(qmax=QMAX, nyquist=case["ev"] == "AIC", scale=case["ev"] == "AIC", supersample=4.0)
    if case["init"]:
        c = case["init"]
        kw["initial_peaks"] = Peaks([f.actualize([c, 0.3, 1.0], "pwa"), f.actualize([c + 0.9, 0.4, 0.7], "pwa", removable=False)])
    pe.setvars(quiet=case["ev"] == "AIC", **kw)
    return pe


OPS = {
    "extract": lambda pe, d: pe.extract() if isinstance(pe, PDFPeakExtraction) else pe.extract_single(),
    "single": lambda pe, d: pe.extract_single(),
    "fit": lambda pe, d: pe.fit() if isinstance(pe, PDFPeakExtraction) else pe.fit_single(),
    "fit_single": lambda pe, d: pe.fit_single(),
    "default": lambda pe, d: pe.defaultvars("cres", "pf", "rng", "effective_dy", "baseline", "error_method", "initial_peaks"),
    "estimate": lambda pe, d: pe.estimate_peak(2.0),
    "outside": lambda pe, d: pe.estimate_peak(-7.0),
    "add": lambda pe, d: pe.add_peaks(Peaks([pe.pf[0].actualize([1.5, 0.3, 0.4], "pwa")])),
    "resample": lambda pe, d: pe.resampledata(0.5) if isinstance(pe, PDFPeakExtraction) else pe.clearcalc(),
    "write": lambda pe, d: (pe.write(os.path.join(d, "a")), pe.read(os.path.join(d, "a"))),
    "damaged": lambda pe, d: pe.readstr("nothing"),
    "wrong": lambda pe, d: pe.setvars(nosuch=1, cres=0.3),
    "negative": lambda pe, d: pe.setvars(cres=-1.0, rng=[9.0, 1.0]),
    "clear": lambda pe, d: pe.clear(),
    "plot": lambda pe, d: pe.plot() and None,
    "prune": lambda pe, d: pe.extracted.prune(),
    "augment": lambda pe, d: pe.extracted.augment(PeakExtractionSource(pe)),
    "reduce": lambda pe, d: pe.extracted.reduce_to(X[20], 0.5),
    "clean": lambda pe, d: (pe.extracted.cleanfit(), pe.extracted.fit(justify=True)),
    "join": lambda pe, d: halves(pe),
}


def PeakExtractionSource(pe):
    return pe.extracted.__class__(Peaks([pe.pf[0].actualize([1.4, 0.2, 0.3], "pwa"), pe.pf[0].actualize([3.1, 0.4, 0.9], "pwa")]),
                                  None, pe.extracted.r_data, pe.extracted.y_data, pe.extracted.y_error, None,
                                  pe.extracted.error_method, pe.extracted.peak_funcs)


def halves(pe):
    mc = pe.extracted
    n = len(mc.r_data)
    a, b = mc.copy(), mc.copy()
    a.slice, b.slice = slice(0, n), slice(0, n)
    a.change_slice(slice(0, n // 2))
    b.change_slice(slice(n // 2, n))
    return mc.__class__.join_adjacent(a, b)


def show(v, depth=0):
    """Any result as plain values."""
    if v is None or isinstance(v, (str, bool, int)):
        return v
    if isinstance(v, (float, np.floating, np.integer)):
        return repr(float(v))
    if isinstance(v, np.ndarray):
        return v.tolist()
    if hasattr(v, "cov") and hasattr(v, "pmap"):
        return ["cov", None if v.cov is None else np.array(v.cov).tolist(), show(v.model)]
    if hasattr(v, "r_cluster"):
        return ["cluster", show(list(v.model)), show(v.baseline), v.slice.start, v.slice.stop, show(v.value())]
    if hasattr(v, "pars") and hasattr(v, "free"):
        return [type(v.owner()).__name__, np.array(v.pars).tolist(), [bool(f) for f in v.free], v.removable]
    if isinstance(v, slice):
        return [v.start, v.stop]
    if isinstance(v, (list, tuple)) and depth < 5:
        return [show(u, depth + 1) for u in v]
    return type(v).__name__


def whole(pe):
    out = [show(getattr(pe, k)) for k in ("x", "y", "dx", "dy", "effective_dy", "rng", "cres", "extraction_type", "initial_peaks")]
    out.append(show(pe.baseline) if hasattr(pe.baseline, "pars") else type(pe.baseline).__name__)
    out.append(show(pe.extracted))
    if isinstance(pe, PDFPeakExtraction):
        out += [show(getattr(pe, k)) for k in ("qmax", "nyquist", "scale", "supersample", "qmax_fromdata")]
    return out


def history(case, d):
    """All that can be seen of a history of operations."""
    seen = []
    try:
        pe = new(case)
    except Exception as e:
        return [type(e).__name__]
    for o in case["ops"]:
        try:
            r = show(OPS[o](pe, d))
        except Exception as e:
            r = type(e).__name__
        seen.append((o, r, whole(pe)))
    plt.close("all")
    return seen


def run(case, cov):
    # the levels as imported, nothing listening
    levels = (ROOT.level, srmiselog.ch.level, ROOT.propagate, list(ROOT.handlers))
    tracer = srmiselog.tracer
    d = tempfile.mkdtemp()
    seen = []
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            ROOT.propagate = False
            ROOT.setLevel(logging.CRITICAL + 10)
            for h in list(ROOT.handlers):
                ROOT.removeHandler(h)
            want = history(case, d)
            for level in case["levels"]:
                heard = Listener()
                fmt = []
                handle = heard.handle

                def guarded(record, handle=handle, fmt=fmt):
                    try:
                        return handle(record)
                    except Exception as e:  # must not be taken for an error of the operation
                        fmt.append("%s: %r" % (type(e).__name__, record.msg))

                heard.handle = guarded
                ROOT.addHandler(heard)
                ROOT.setLevel(level)
                if case["trace"]:
                    srmiselog.settracer(filter=[case["trace"]], store=case["store"], filebase=os.path.join(d, "trace"))
                try:
                    got = history(case, d)
                finally:
                    ROOT.removeHandler(heard)
                    srmiselog.tracer = tracer
                ensure(not fmt, "a message cannot be written: %s", fmt[:1])
                ensure(len(got) == len(want), "another number of operations")
                for a, b in zip(want, got):
                    ensure(repr(a) == repr(b), "%s gives something else at level %s", a[0] if len(a) > 1 else "setting", level)
                ensure(all(n >= level for n, _ in heard.records), "records below the level")
                seen.append(len(heard.records))
                cov.trace(len(want))
    finally:
        ROOT.setLevel(levels[0])
        srmiselog.ch.setLevel(levels[1])
        ROOT.propagate = levels[2]
        for h in levels[3]:
            if h not in ROOT.handlers:
                ROOT.addHandler(h)
        shutil.rmtree(d)
    return None


DATA = [[], [[2.0, 0.3, 1.0]], [[1.7, 0.25, 0.7], [2.9, 0.4, 1.3]], [[1.7, 0.3, 1.0], [2.1, 0.35, 0.9]], "few", "tiny", "flat", "negative", "zero", "steep",
        "spikes"]


def cases(tier):
    thorough = tier != "quick"
    base = {"levels": [10, 20, 30, 40] if thorough else [10, 20], "trace": None, "store": False}
    one = [["extract"], ["fit"], ["default", "extract"], ["resample", "write"], ["estimate", "outside", "add", "fit_single"],
           ["damaged", "wrong", "negative", "extract"], ["single", "prune", "augment", "clean", "reduce", "join", "plot"],
           ["extract", "write", "add", "fit", "clear", "extract"]]
    for kind, fn, dat, ops in itertools.product(("base", "pdf"), FUNC, DATA, one):
        for ev, bl, init in itertools.product(EVS, (None, "poly1", "line", "nano", "seq"), (None, 1.7)) if thorough else (
                ("AIC", None, None), ("AICc", "poly1", 1.7), ("AIC", "line", 1.7), ("AICc", "nano", None), ("AIC", "seq", None)):
            levels = base["levels"] if thorough or bl is None and init is None else [10]
            yield dict(base, kind=kind, func=fn, data=dat, ops=ops, ev=ev, bl=bl, init=init, levels=levels)
    # traced as well
    for kind, dat, ops in itertools.product(("base", "pdf"), DATA, one):
        for trace, store in (("True", True), ("True", False), ("recursion == 1", True), ("counter % 2 == 0", False)):
            if not thorough and trace in ("True", "recursion == 1") and store != (trace == "True"):
                continue
            trace = trace.replace("recursion", "self.recursion").replace("counter", "self.counter")
            yield dict(base, kind=kind, func="gauss", data=dat, ops=ops, ev="AIC", bl="line", init=None, trace=trace, store=store,
                       levels=[10])


EVS = ("AIC", "AICc")

CHECK = Check(
    "C31",
    "exploration",
    [Scenario("histories", cases, run, timeout=300,
              doc="histories of operations on data of every kind, silent and at each level, with and without traces")],
    rule="what every operation returns, raises and leaves at any level equals what it does while silent; every record is formatted",
    assumptions=["a single process and thread"],
)
