"""C22: the command line does what its options say, and summaries state the result."""
import contextlib
import io
import itertools
import logging
import os
import re
import shutil
import sys
import tempfile

import matplotlib

matplotlib.use("Agg")
import numpy as np  # noqa: E402

from diffpy.srmise.applications import extract  # noqa: E402
from diffpy.srmise.baselines.base import Baseline  # noqa: E402
from diffpy.srmise.baselines.fromsequence import FromSequence  # noqa: E402
from diffpy.srmise.baselines.nanospherical import NanoSpherical  # noqa: E402
from diffpy.srmise.baselines.polynomial import Polynomial  # noqa: E402
from diffpy.srmise.modelevaluators.aic import AIC  # noqa: E402
from diffpy.srmise.modelevaluators.aicc import AICc  # noqa: E402
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction  # noqa: E402
from diffpy.srmise.peaks.base import Peaks  # noqa: E402
from diffpy.srmise.peaks.gaussian import Gaussian  # noqa: E402
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR  # noqa: E402
from diffpy.srmise.peaks.terminationripples import TerminationRipples  # noqa: E402
from mc.harness import Check, Scenario, ensure  # noqa: E402

X = np.round(1.0 + 0.04 * np.arange(100), 6)
F = GaussianOverR(0.7)
Y = sum(F.actualize(t, "pwa").value(X) for t in ([1.9, 0.3, 2.0], [3.4, 0.35, 3.0])) - 0.1 * X + 0.02 * np.sin(9 * X)
Y = np.round(Y, 6)
DY = np.round(0.05 + 0.01 * np.cos(X), 6)
SEQ = (np.linspace(0.0, 6.0, 20), -0.1 * np.linspace(0.0, 6.0, 20))

FILES = ("plain", "errors", "some", "low", "saved", "savedfit")


def make_files(d):
    head = "qmax=14.0\n##### start data\n#S 1\n#L r(A) G(r) d_r d_Gr\n"
    for name, dy in (("plain", None), ("errors", DY), ("some", np.where(np.arange(100) == 40, 0.0, DY)), ("low", None)):
        shift = 2 * max(Y) if name == "low" else 0.0
        with open(os.path.join(d, name), "w") as f:
            f.write(head)
            for i in range(100):
                f.write("%.6f %.6f" % (X[i], Y[i] - shift) + ("" if dy is None else " 0.0 %.6f" % dy[i]) + "\n")
    for name in ("saved", "savedfit"):
        pe = PDFPeakExtraction()
        pe.loadpdf(os.path.join(d, "errors"))
        pe.setvars(quiet=True, effective_dy=0.11 + 0.01 * X, nyquist=False, scale=True, qmax=11.0, cres=0.33, supersample=3.0, rng=[1.2, 4.5],
                   pf=[Gaussian(0.6)], baseline=Baseline(Polynomial(1), [-0.12, 0.03], free=[True, False]), error_method=AICc)
        if name == "savedfit":
            pe.setvars(quiet=True, initial_peaks=Peaks([pe.pf[0].actualize([1.9, 0.3, 2.0], "pwa")]))
            pe.fit()
        pe.write(os.path.join(d, name))
    with open(os.path.join(d, "seq"), "w") as f:
        f.writelines("%r %r\n" % (float(a), float(b)) for a, b in zip(*SEQ))


def cli(argv):
    """Run the program; return (exit code or exception, output)."""
    out = io.StringIO()
    old = sys.argv
    level = logging.getLogger("diffpy.srmise").level
    sys.argv = ["srmise"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                extract.main()
                code = 0
            except SystemExit as e:
                code = e.code
    finally:
        sys.argv = old
        logging.getLogger("diffpy.srmise").setLevel(level)
    return code, out.getvalue()


def poly(*pars, free=None):
    return lambda d: Baseline(Polynomial(len(pars) - 1), list(pars), free=list(free) if free else [True] * len(pars))


def bsrmise(d):
    pe = PDFPeakExtraction()
    pe.read(os.path.join(d, "savedfit"))
    return pe.extracted.baseline


# option: list of (arguments, {variable: value or function of the directory})
OPTIONS = {
    "dg": [([], None), (["--dg", "0.3"], 0.3)]
    + [(["--dg-mode", m] + (["--dg", v] if v else []), (m, float(v) if v else None))
       for m in ("absolute", "max-fraction", "ptp-fraction", "dG-fraction") for v in (None, "0.1", "2.5")],
    "nyquist": [([], None), (["--nyquist"], True), (["--no-nyquist"], False)],
    "scale": [([], None), (["--scale"], True), (["--no-scale"], False)],
    "qmax": [([], None), (["--qmax", "0"], 0.0), (["--qmax", "15.5"], 15.5), (["--qmax", "automatic"], "automatic")],
    "rng": [([], None), (["--range", "2", "4.25"], [2.0, 4.25]), (["--range", "-1", "99"], [-1.0, 99.0])],
    "cres": [([], None), (["--cres", "0.25"], 0.25)],
    "supersample": [([], None), (["--supersample", "2.5"], 2.5)],
    "pf": [([], None), (["--pf", "Gaussian(0.5)"], lambda d: [Gaussian(0.5)]),
           (["--pf", "GaussianOverR(maxwidth=0.65)"], lambda d: [GaussianOverR(0.65)]),
           (["--pf", "TerminationRipples(GaussianOverR(0.4), 21.0)"], lambda d: [TerminationRipples(GaussianOverR(0.4), 21.0)])],
    "error_method": [([], None), (["--me", "AIC"], AIC), (["-m", "AICc"], AICc)],
    "baseline": [
        ([], None),
        (["--bcrystal", "0.05"], poly(-4 * np.pi * 0.05, 0.0, free=(True, False))),
        (["--bcrystal", "0.05c"], poly(-4 * np.pi * 0.05, 0.0, free=(False, False))),
        (["--bpoly0", "-0.2"], poly(-0.2)),
        (["--bpoly1", "-0.70", "+10"], poly(-0.7, 10.0)),
        (["--bpoly0", "1e-3c"], poly(1e-3, free=(False,))),
        (["--bpoly1", "-0.65c", "0.25"], poly(-0.65, 0.25, free=(False, True))),
        (["--bpoly1", "-0.65", "0c"], poly(-0.65, 0.0, free=(True, False))),
        (["--bpoly2", "0.01", "-0.2c", ".5"], poly(0.01, -0.2, 0.5, free=(True, False, True))),
        (["--bseq", "@seq"], lambda d: FromSequence(*SEQ).actualize([], "internal")),
        (["--bspherical", "0.4", "9.5c"], lambda d: Baseline(NanoSpherical(), [0.4, 9.5], free=[True, False])),
        (["--bsrmise", "@savedfit"], bsrmise),
        (["--baseline", "Polynomial(degree=1)"], lambda d: Polynomial(1)),
        (["--baseline", "Polynomial(degree=0)"], lambda d: Polynomial(0)),
        (["--baseline", "NanoSpherical().actualize([0.3, 8.0], 'internal')"], lambda d: Baseline(NanoSpherical(), [0.3, 8.0])),
    ],
}
NAMES = list(OPTIONS)


def load(d, file):
    pe = PDFPeakExtraction()
    if file.startswith("saved"):
        pe.read(os.path.join(d, file))
    else:
        pe.loadpdf(os.path.join(d, file))
    return pe


def expected(d, file, choice):
    """The object as documented: what options do not set stays, or has its default.  None if refused."""
    pe = load(d, file)
    kw = {}
    saved = file.startswith("saved")
    for name, i in choice.items():
        args, v = OPTIONS[name][i]
        if not args or name == "dg":
            continue
        kw[name] = v(d) if callable(v) and not isinstance(v, type) else v
    mode, value = None, None
    v = OPTIONS["dg"][choice.get("dg", 0)][1]
    if isinstance(v, tuple):
        mode, value = v
    elif v is not None:
        mode, value = "absolute", v
    elif not saved:
        mode = "dG-fraction" if file == "errors" else "max-fraction"
    if mode == "absolute":
        if value is None:
            return None
        kw["effective_dy"] = value * np.ones(len(X))
    elif mode == "max-fraction":
        kw["effective_dy"] = (0.05 if value is None else value) * max(pe.y) * np.ones(len(X))
    elif mode == "ptp-fraction":
        kw["effective_dy"] = (0.05 if value is None else value) * (max(pe.y) - min(pe.y)) * np.ones(len(X))
    elif mode == "dG-fraction":
        kw["effective_dy"] = (1.0 if value is None else value) * np.asarray(pe.dy)
    pe.setvars(quiet=True, **kw)
    return pe


def bl(b):
    return (type(b.owner()).__name__, [float(v) for v in b.pars], [bool(v) for v in b.free], b.value(X).tolist())


def variables(pe):
    return {
        "x": pe.x.tolist(), "y": pe.y.tolist(), "dx": pe.dx.tolist(), "dy": pe.dy.tolist(),
        "effective_dy": np.asarray(pe.effective_dy, dtype=float).tolist(), "rng": [float(v) for v in pe.rng], "cres": float(pe.cres),
        "qmax": float(pe.qmax), "nyquist": bool(pe.nyquist), "scale": bool(pe.scale), "supersample": float(pe.supersample),
        "pf": [f.writestr([f.base] if f.base is not None else []) + (f.base.writestr([]) if f.base is not None else "") for f in pe.pf],
        "error_method": pe.error_method.__name__, "baseline": bl(pe.baseline),
        "initial_peaks": [(p.pars.tolist(), [bool(v) for v in p.free]) for p in pe.initial_peaks],
        "extracted": None if pe.extracted is None else model(pe.extracted),
    }


def model(mc):
    return [([float(v) for v in p.pars], type(p.owner()).__name__) for p in mc.model] + [bl(mc.baseline)]


def differ(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differ(u, v, tol) for u, v in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return not abs(a - b) <= tol * max(1e-6, abs(a))
    return a != b


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c22")
        make_files(self.d)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def arguments(d, choice, reverse=False):
    args = []
    for name in sorted(choice, reverse=reverse):
        args += [os.path.join(d, a[1:]) if a.startswith("@") else a for a in OPTIONS[name][choice[name]][0]]
    return args


def run_variables(case, cov):
    logging.disable(logging.CRITICAL)
    with Scratch() as d:
        for choice in case["choices"]:
            want = expected(d, case["file"], choice)
            path = os.path.join(d, case["file"])
            out = os.path.join(d, "out")
            for reverse in (False, True):
                cov.trace()
                argv = arguments(d, choice, reverse) + ["--no-extract", "--save", out]
                argv = argv + [path] if reverse else [path] + argv
                where = " ".join(argv).replace(d + "/", "")
                with open(path) as f:
                    before = f.read()
                code, text = cli(argv)
                if want is None:
                    ensure(code == 2, "not refused (%s)", code, where=where)
                    ensure(not os.path.exists(out), "a result was saved", where=where)
                    continue
                ensure(code == 0, "exit code %s: %s", code, text[-300:], where=where)
                ensure(os.path.exists(out), "nothing was saved: %s", text[-300:], where=where)
                got = PDFPeakExtraction()
                got.read(out)
                os.unlink(out)
                a, b = variables(want), variables(got)
                for k in a:
                    ensure(not differ(a[k], b[k]), "%s is %s instead of %s", k, str(b[k])[:200], str(a[k])[:200], where=where)
                with open(path) as f:
                    ensure(f.read() == before, "the file given was changed", where=where)
                cov.outcome(where)
    return None


def cases_variables(tier):
    for file in FILES:
        todo = []
        for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            for names in itertools.combinations(NAMES, n):
                todo += [dict(zip(names, v)) for v in itertools.product(*[range(1, len(OPTIONS[k])) for k in names])]
        for i in range(0, len(todo), 40):
            yield {"file": file, "choices": todo[i:i + 40]}


# ----------------------------------------------------------------- extraction
def numbers(text):
    return [float(v) for v in text.split()]


def check_summary(text, pe, where):
    """The summary states variables, quality, baseline and peaks of the extraction."""
    mc = pe.extracted
    lines = text.splitlines()

    def value(key):
        got = [line.split("=", 1)[1] for line in lines if line.startswith(key + "=")]
        ensure(len(got) == 1, "%s is stated %d times", key, len(got), where=where)
        return got[0]

    ensure(value("nyquist") == repr(pe.nyquist) and value("scale") == repr(pe.scale), "nyquist or scale", where=where)
    ensure("%g" % float(re.sub(r"np\.float64\((.*)\)", r"\1", value("qmax"))) == "%g" % pe.qmax, "qmax", where=where)
    ensure(abs(float(value("cres")) - pe.cres) <= 1e-5 * pe.cres, "cres", where=where)
    ensure(value("filename") == str(pe.filename), "filename", where=where)
    ensure(value("ModelEvaluator") == pe.error_method.__name__, "evaluator", where=where)
    ensure(abs(float(value("effective_dy").split()[0]) - np.mean(pe.effective_dy)) < 1e-9, "mean uncertainty", where=where)

    def comment(key):
        got = [line.split(": ", 1)[1] for line in lines if line.startswith("# " + key)]
        ensure(len(got) == 1, "%s is stated %d times", key, len(got), where=where)
        return float(got[0])

    ensure(abs(comment("Quality reported") - mc.quality().stat) < 1e-6 * abs(mc.quality().stat), "quality", where=where)
    ensure(comment("Free parameters in extracted") == sum(int(sum(p.free)) for p in mc.model), "free parameters", where=where)
    ensure(comment("Free parameters in baseline") == (0 if mc.baseline is None else int(sum(mc.baseline.free))), "free parameters of baseline", where=where)
    ensure(comment("Length of data") == len(mc.r_data), "length of data", where=where)

    def section(title):
        i = lines.index("## " + title)
        out = []
        for line in lines[i + 1:]:
            if line.startswith("## "):
                break
            if line.strip() and not line.startswith("#"):
                out.append(line)
        return out

    def functions(title):
        out = []
        for i, line in enumerate(section(title)):
            w = line.split()
            ensure(int(w[0]) == i, "functions are not numbered", where=where)
            base = int(re.search(r"base=(\d+)", line).group(1)) if "base=" in line else None
            out.append((w[1].rsplit(".", 1)[-1].lower(), base))
        return out

    blf, pkf = functions("Baseline Functions"), functions("Peak Functions")
    b = section("Baseline")
    ensure(len(b) == 1, "baseline", where=where)
    if mc.baseline is None:
        ensure(b[0].split("#")[0].strip() == "None", "a baseline is stated: %s", b[0], where=where)
    else:
        pars, idx = b[0].split("#")
        ensure(blf[int(idx)][0] == type(mc.baseline.owner()).__name__.lower(), "function of the baseline", where=where)
        if len(mc.baseline.pars):
            ensure(not differ(numbers(pars), [float(v) for v in mc.baseline.pars], 1e-6), "parameters of the baseline", where=where)
    peaks = section("Extracted Peaks")
    ensure(len(peaks) == len(mc.model), "%d peaks in the summary, %d in the model", len(peaks), len(mc.model), where=where)
    for line, p in zip(peaks, mc.model):
        pars, idx = line.split("#")
        o = p.owner()
        got = numbers(pars)
        want = [float(v) for v in o.transform_parameters(p.pars, "internal", "pwa")]
        ensure(not differ(got, want, 1e-6), "peak %s stated as %s", want, got, where=where)
        name, base = pkf[int(idx)]
        ensure(name == type(o).__name__.lower(), "function of the peak", where=where)
        if o.base is not None:
            ensure(base is not None and pkf[base][0] == type(o.base).__name__.lower(), "base of the function", where=where)
        # full width at half maximum and area of the peak itself
        q = o.base.actualize(got, "pwa") if o.base is not None else o.actualize(got, "pwa")
        r = np.linspace(max(1e-3, got[0] - 3), got[0] + 3, 20001)
        v = q.value(r) * (r if "overr" in type(q.owner()).__name__.lower() else 1.0)
        if got[2] > 1e-3 and got[1] > 0.02:
            above = r[v >= v.max() / 2]
            ensure(abs((above[-1] - above[0]) - got[1]) < 0.01 * got[1] + 1e-3, "full width at half maximum", where=where)


EXTRACT = [
    {}, {"baseline": 5}, {"baseline": 11}, {"dg": 1}, {"qmax": 1}, {"qmax": 2, "nyquist": 2}, {"rng": 1, "error_method": 2},
    {"pf": 1, "baseline": 6}, {"cres": 1, "supersample": 1}, {"nyquist": 1, "scale": 1}, {"baseline": 10, "pf": 2}, {"baseline": 8},
    {"baseline": 9, "dg": 4}, {"baseline": 1, "rng": 1}, {"baseline": 3, "qmax": 3},
]


def run_extract(case, cov):
    logging.disable(logging.CRITICAL)
    with Scratch() as d:
        want = expected(d, case["file"], case["choice"])
        want.extract()
        path = os.path.join(d, case["file"])
        out, pwa = os.path.join(d, "out"), os.path.join(d, "pwa")
        argv = [path] + arguments(d, case["choice"]) + case["extra"] + ["--save", out, "--pwa", pwa]
        where = " ".join(argv).replace(d + "/", "")
        code, text = cli(argv)
        ensure(code == 0, "exit code %s: %s", code, text[-300:], where=where)
        got = PDFPeakExtraction()
        got.read(out)
        a, b = variables(want), variables(got)
        for k in a:
            ensure(not differ(a[k], b[k], 1e-6), "%s is %s instead of %s", k, str(b[k])[:200], str(a[k])[:200], where=where)
        with open(pwa) as f:
            check_summary(f.read(), got, where)
        check_summary(want.writepwastr("some\ncomments"), want, where)
        ensure("# some\n# comments\n" in want.writepwastr("some\ncomments"), "comments", where=where)
        again = variables(want)
        ensure(not any(differ(a[k], again[k], 0.0) for k in a), "writing a summary changed the object", where=where)
        cov.outcome((where, len(got.extracted.model)))
    return None


def cases_extract(tier):
    for file in FILES:
        for choice in EXTRACT:
            for extra in ([], ["-s"], ["--plot"], ["-i"], ["-v"]) if tier != "quick" else ([], ["--plot"]):
                yield {"file": file, "choice": choice, "extra": extra}


# --------------------------------------------------------------------- summary
LINE, CONST = Polynomial(1), Polynomial(0)
SUMMARY = {
    "baseline": [None, LINE, NanoSpherical(), Baseline(CONST, [0.1]), Baseline(LINE, [-0.1, 0.2], free=[False, True]), FromSequence(*SEQ),
                 FromSequence(*SEQ).actualize([], "internal")],
    "initial_peaks": [Peaks([]), Peaks([Gaussian(0.5).actualize([1.9, 0.3, 2.0], "pwa")])],
    "pf": [[Gaussian(0.4)], [TerminationRipples(GaussianOverR(0.7), 14.0), Gaussian(0.7)]],
    "error_method": [AIC, AICc],
    "cres": [0.37],
    "rng": [[1.5, 3.0]],
    "effective_dy": [0.2 * np.ones(100)],
}


def run_summary(case, cov):
    logging.disable(logging.CRITICAL)
    results = {}
    for name, f in (("gor", F), ("gauss", Gaussian(0.7)), ("ripples", TerminationRipples(F, 14.0))):
        pe = PDFPeakExtraction()
        pe.setdata(X, Y)
        pe.setvars(quiet=True, pf=[f], qmax=14.0, nyquist=False, rng=[1.2, 4.5], cres=0.2, supersample=4.0, effective_dy=0.1 * np.ones(100),
                   baseline=Baseline(LINE, [-0.1, 0.0], free=[case["free"], False]), error_method=AICc,
                   initial_peaks=Peaks([f.actualize([1.9, 0.3, 2.0], "pwa", free=[True, case["free"], True]), f.actualize([3.4, 0.3, 3.0], "pwa")]))
        pe.fit()
        results[name] = pe
    names = sorted(SUMMARY)
    for name, pe in results.items():
        start = {k: getattr(pe, k) for k in SUMMARY}
        for base in ("kept", "none", "other"):
            mc = pe.extracted
            kept = mc.baseline
            if base == "none":
                mc.baseline = None
            elif base == "other":
                mc.baseline = SUMMARY["baseline"][3].copy()
            for k in range(case["depth"] + 1):
                for which in itertools.combinations(names, k):
                    for values in itertools.product(*[SUMMARY[n] for n in which]):
                        cov.transition()
                        before = (mc.quality().stat, [list(map(float, p.pars)) for p in mc.model])
                        for n, v in zip(which, values):
                            setattr(pe, n, v) if v is None else pe.setvars(quiet=True, **{n: v})
                        where = "%s, %s baseline, then %s" % (name, base, dict(zip(which, map(str, values))))
                        check_summary(pe.writepwastr("some"), pe, where)
                        ensure(pe.extracted is mc and before == (mc.quality().stat, [list(map(float, p.pars)) for p in mc.model]),
                               "writing a summary changed the result", where=where)
                        for n in which:
                            setattr(pe, n, start[n])
                        cov.outcome((name, base, which))
            mc.baseline = kept
    return None


def cases_summary(tier):
    for free in (True, False):
        yield {"free": free, "depth": 2 if tier == "quick" else 4}


# -------------------------------------------------------------------- refusals
def run_refused(case, cov):
    logging.disable(logging.CRITICAL)
    with Scratch() as d:
        before = sorted(os.listdir(d))
        argv = [os.path.join(d, a[1:]) if a.startswith("@") else a for a in case["argv"]]
        code, text = cli(argv)
        ensure(code == case["code"], "exit code %s instead of %s", code, case["code"], where=str(case["argv"]))
        ensure(sorted(os.listdir(d)) == before, "files appeared", where=str(case["argv"]))
        for word in case["words"]:
            ensure(word in text, "'%s' is not mentioned: %s", word, text[-200:], where=str(case["argv"]))
        cov.outcome(case["argv"])
    return None


def cases_refused(tier):
    save = ["--save", "@out"]
    yield {"argv": save, "code": 2, "words": ["argument"]}
    yield {"argv": ["@plain", "@errors"] + save, "code": 2, "words": ["argument"]}
    yield {"argv": ["--version"], "code": 0, "words": ["diffpy.srmise"]}
    options = ("extract no-extract range qmax nyquist no-nyquist pf cres supersample me baseline bcrystal bsrmise bpoly0 bpoly1 bpoly2 bseq "
               "bspherical dg-mode dg pwa save plot liveplot wait informative quiet silent verbose scale no-scale version help").split()
    for argv in (["--help"], ["-h"], ["@plain", "--help"] + save):
        yield {"argv": argv, "code": 0, "words": ["pdf_file"] + ["--" + o for o in options] + ["\nDefaults (when qmax > 0)\n", "\nDefaults (when qmax = 0)\n"]}
    for bad in ("--nonsense", "--dg-mode=other", "--dg=x", "--cres=x", "--range 1", "--bpoly1 1"):
        yield {"argv": ["@plain"] + save + bad.split(), "code": 2, "words": ["error"]}
    yield {"argv": ["@plain"] + save + ["--dg-mode", "absolute"], "code": 2, "words": ["--dg"]}
    for opt, what in (("--pf", "peak function"), ("--me", "ModelEvaluator"), ("--baseline", "baseline")):
        for bad in ("Nothing()", "Gaussian(", "__import__('os')", "open('x')", "1/0"):
            yield {"argv": ["@plain"] + save + [opt, bad], "code": 0, "words": ["Could not", what]}
    for file in FILES:
        for args in (["--no-extract"], []):
            yield {"argv": ["@" + file, "--save", "@no/out"] + args, "code": 0, "words": ["Could not save result"]}
        yield {"argv": ["@" + file, "--pwa", "@no/out"], "code": 0, "words": ["Could not save pwa"]}


CHECK = Check(
    "C22",
    "exploration",
    [
        Scenario("variables", cases_variables, run_variables, timeout=600,
                 doc="every pair (thorough: triple) of option settings for every kind of file, in two orders"),
        Scenario("extract", cases_extract, run_extract, timeout=300, doc="extraction by command line against the library, and summaries"),
        Scenario("summary", cases_summary, run_summary, timeout=900,
                 doc="summaries after every choice of changed variables and baselines of a result"),
        Scenario("refused", cases_refused, run_refused, timeout=300, doc="invalid options and unwritable files"),
    ],
    rule="the program is run with every combination of options, and its saved result compared with the documented meaning of the options",
)
