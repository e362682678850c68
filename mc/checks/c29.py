"""C29: printed summaries state what an object holds."""
import contextlib
import io
import itertools
import os
import re
import sys
import tempfile

import numpy as np

from diffpy.srmise.applications import extract
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peak, Peaks
from mc.checks import c14, c16
from mc.harness import Check, Scenario, ensure
from mc.models import make

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)")


def numbers(text):
    return [float(v) for v in NUM.findall(re.sub(r"np\.\w+\(", "(", text))]


def close(got, want, what):
    want = np.asarray(want, float).ravel()
    ensure(len(got) == len(want), "%s: %d numbers printed of %d", what, len(got), len(want))
    # numpy rounds all values of one array alike
    tol = 6e-9 + 6e-9 * np.max(np.abs(want), initial=0.0)
    for u, v in zip(got, want):
        ensure(abs(u - v) <= max(tol, 6e-8 * abs(v)) or u == v or (u != u and v != v), "%s: %r printed for %r", what, u, float(v))


def ideal(name, p):
    """Parameters of the peaks as position, width and area, by the formula of the documentation."""
    if name.startswith("tr:"):
        name = name[3:].split("/")[0]
    kind, _, w = name.partition(":")
    if kind in ("gauss", "gor"):
        return [p[0], float(w) / np.sqrt(2) * np.sqrt(1 + np.sin(p[1])), abs(p[2])]
    return list(p)


def state(parts):
    return [(list(p.pars), [bool(f) for f in p.free], p.removable, p.static_owner, p.owner()) for p in parts]


# ------------------------------------------------------------ parts
def run_parts(case, cov):
    parts = []
    for name, pars, free in case["parts"]:
        peak = name.partition(":")[0] in ("gauss", "gor", "tr")
        parts.append((Peak if peak else Baseline)(make(name), list(pars), free=list(free)))
    cls = {"Peaks": Peaks, "ModelParts": ModelParts, "list": list}[case["as"]]
    m = cls(parts)
    before = state(m)
    lines = (str(m) if case["as"] != "list" else "".join(str(p) + "\n" for p in m)).split("\n")
    ensure(len(lines) == len(parts) + 1 and lines[-1] == "", "%d lines printed for %d parts", len(lines) - 1, len(parts))
    for line, (name, pars, free) in zip(lines, case["parts"]):
        close(numbers(line), ideal(name, pars), name)
    ensure(state(m) == before, "printing changed a part")
    cov.trace(len(parts))
    return None


PP = {
    "gauss:0.7": [[2.1, -0.2, 1.5], [-3.0, 2.0, 1e-7], [0.0, 7.0, 12345.678], [1.0 / 3.0, 0.0, -2.5]],
    "gor:0.7": [[2.6, 0.3, 0.7], [17.25, 3.0, -0.1]],
    "gor:0.3": [[2.6, 0.3, 0.7]],
    "tr:gor:0.7/20": [[3.1, 0.1, 1.1]],
    "nano": [[0.7, 3.2]],
    "poly:0": [[-0.7]],
    "poly:1": [[0.3, -1.0 / 7.0], [1e-9, 1e9]],
    "poly:3": [[0.25, -0.5, 1.5, 7.0]],
    "poly:-1": [[]],
    "seq": [[]],
}


def cases_parts(tier):
    one = []
    for name, ps in PP.items():
        for p in ps:
            for free in itertools.product((True, False), repeat=len(p)):
                one.append([name, p, list(free)])
    for o in one:
        for how in ("list", "ModelParts") + (("Peaks",) if o[0].partition(":")[0] in ("gauss", "gor", "tr") else ()):
            yield {"parts": [o], "as": how}
    yield {"parts": [], "as": "Peaks"}
    yield {"parts": [], "as": "ModelParts"}
    some = [[n, ps[i], [True, False, True, False][: len(ps[i])]] for n, ps in PP.items() for i in range(len(ps))]
    for k in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in itertools.product(some, repeat=k):
            yield {"parts": list(c), "as": "ModelParts"}


# ------------------------------------------------------------ clusters
def sections(text):
    m = re.fullmatch(r"\s*Slice: (.*?)\nQuality: (.*?)\nBaseline: (.*?)\nPeaks:\n(.*)", text, re.S)
    ensure(m is not None, "the summary is not of its four parts: %r", text[:120])
    return m.groups()


def check_cluster(text, a, names, blname, blpars, pars):
    sl, q, bl, pk = sections(text)
    ensure(sl == str(a.slice), "extent %s printed for %s", sl, a.slice)
    if a.error_method is None:
        ensure(not numbers(q), "a quality %s is printed without any evaluator", q)
    else:
        want = a.quality().stat
        ensure((want is None and not numbers(q)) or (want is not None and abs(float(q) - want) <= 1e-9 * abs(want)) or float(q) == want,
               "quality %s printed for %s", q, want)
    if blname is None:
        ensure(bl == "None", "baseline %s printed for none", bl)
    else:
        ensure(bl != "None", "no baseline printed")
        close(numbers(bl), blpars, "baseline")
    lines = [v for v in pk.split("\n") if v.strip()]
    ensure(len(lines) == len(names), "%d peaks printed of %d", len(lines), len(names))
    for line, n, p in zip(lines, names, pars):
        close(numbers(line), ideal(n, p), "peak " + n)


def run_clusters(case, cov):
    a = c14.cluster(case)
    names = case["model"] or []
    pars = [list(p.pars) for p in a.model]
    blpars = [] if case["bl"] is None else list(a.baseline.pars)
    before = a.writestr()
    check_cluster(str(a), a, names, case["bl"], blpars, pars)
    ensure(a.writestr() == before, "printing changed the cluster")
    # follows the cluster
    if case["n"] > 20:
        a.change_slice(slice(5, 20))
        check_cluster(str(a), a, names, case["bl"], blpars, pars)
        a.replacepeaks(Peaks([Peak(make("gauss:0.7"), [-5.0, 0.25, 2.5])]))
        both = sorted(zip(["gauss:0.7"] + list(names), [[-5.0, 0.25, 2.5]] + pars), key=lambda v: v[1][0])
        names, pars = [v[0] for v in both], [v[1] for v in both]
        check_cluster(str(a), a, names, case["bl"], blpars, pars)
        a.baseline = Baseline(make("poly:1"), [0.25, -0.5])
        check_cluster(str(a), a, names, "poly:1", [0.25, -0.5], pars)
    cov.trace(4)
    return None


def cases_clusters(tier):
    models = [None, []] + [list(c) for k in ((1, 2) if tier == "quick" else (1, 2, 3)) for c in itertools.product(c14.CP, repeat=k)]
    for model, bl, ev, sl in itertools.product(models, (None, "poly:-1", "poly:0", "poly:1", "nano", "seq"), c14.EV,
                                               (None, [3, 31], [0, 40], [39, 40])):
        for n, shared in ((40, False), (40, True)):
            yield {"model": model, "bl": bl, "pf": None, "ev": ev, "shared": shared, "slice": sl, "n": n, "print": "default"}
    # few points: no quality is defined
    for model, ev, n in itertools.product(models[1:5], c14.EV, (2, 5, 7, 9)):
        yield {"model": model, "bl": "poly:1", "pf": None, "ev": ev, "shared": True, "slice": None, "n": n, "print": "default"}


# ------------------------------------------------------------ extractions
def run_extraction(case, cov):
    pe = c16.build(case)
    before = None if case["grid"] is None or "baselinefn" in case["vars"] else pe.writestr().split("#####", 1)[-1]
    text = str(pe)
    keys = list(pe.extractvars)
    want = ["effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"]
    if case["kind"] == "pdf":
        want += ["qmax", "supersample", "nyquist", "scale"]
    ensure(sorted(keys) == sorted(want), "the variables are %s", keys)
    head, sep, tail = text.partition("--- Extracted ---\n")
    at = []
    for k in keys:
        found = re.findall(r"^%s: " % k, head, re.M)
        ensure(len(found) == 1, "%s is stated %d times", k, len(found))
        at.append((re.search(r"^%s: " % k, head, re.M).start(), k))
    at.sort()
    ends = [p for p, _ in at[1:]] + [len(head)]
    for (start, k), end in zip(at, ends):
        v = getattr(pe, k)
        body = head[start + len(k) + 2 : end].rstrip("\n")
        body = re.split(r"\n(?:Extraction type:|No extracted peaks)", body)[0]
        if v is None:
            ensure(body == "None", "%s: %s printed for an unset variable", k, body, where=k)
        elif k == "pf":
            ensure(body.startswith("[") and len(v) == sum(body.count(n) for n in ("Gaussian object", "GaussianOverR object", "TerminationRipples object")),
                   "%d functions printed as %s", len(v), body, where=k)
        elif k == "error_method":
            ensure(v.__name__ in body, "%s printed for the evaluator %s", body, v.__name__, where=k)
        elif k == "initial_peaks":
            lines = [s for s in body.split("\n") if s.strip()]
            ensure(len(lines) == len(v), "%d initial peaks printed of %d", len(lines), len(v), where=k)
            for s, n, p in zip(lines, case["vars"].get(k, []), v):
                close(numbers(s), ideal(n, p.pars), k)
        elif k == "baseline":
            if "baselinefn" not in case["vars"] and hasattr(v, "pars"):
                close(numbers(body), v.pars, k)
            else:
                ensure("object" in body and body != "None", "a baseline is printed as %s", body, where=k)
        elif isinstance(v, (bool, np.bool_, str)):
            ensure(body == str(v), "%s: %s printed for %s", k, body, v, where=k)
        elif np.ndim(v) == 0:
            close(numbers(body), [v], k)
        elif len(v) <= 1000:
            close(numbers(body), v, k)
        else:
            close(numbers(body), list(v[:3]) + list(v[-3:]), k)
    if pe.extracted is None:
        ensure(not sep and "No extracted peaks" in head, "nothing is extracted, but something is printed")
    else:
        ensure(sep and "No extracted" not in head, "the extracted peaks are not printed")
        ensure(re.search(r"^Extraction type: %s$" % pe.extraction_type, head, re.M), "the type of extraction is not %s", pe.extraction_type)
        names = case["result"][0]
        ex = pe.extracted
        check_cluster(tail, ex, names, case["result"][1], [] if ex.baseline is None else list(ex.baseline.pars),
                      [list(p.pars) for p in ex.model])
    if before is not None:
        ensure(pe.writestr().split("#####", 1)[-1] == before, "printing changed the extraction")
    cov.trace(len(keys))
    return None


def cases_extraction(tier):
    for case in c16.cases_round(tier):
        if not case.get("run") and case.get("print", "default") == "default" and not case.get("np"):
            yield case


# ------------------------------------------------------------ the program
def run_command(case, cov):
    d = tempfile.mkdtemp()
    old = os.getcwd()
    argv = sys.argv
    try:
        os.chdir(d)
        x = np.arange(1.0, 4.0, 0.05)
        g = make("gauss:0.7")
        y = 0.1 + 0 * x
        for c, a in case["peaks"]:
            y = y + g.actualize(np.array([c, 0.3, a]), in_format="pwa").value(x)
        with open("a.gr", "w") as f:
            f.writelines("%r %r %r %r\n" % (float(u), float(v), 0.0, 0.01) for u, v in zip(x, y))
        out = io.StringIO()
        sys.argv = ["srmise", "a.gr", "--pf", "Gaussian(0.7)", "--bpoly0", "0.1", "--cres", "0.1", "--qmax", "0", "--save", "b.srmise"]
        sys.argv += case["args"]
        with contextlib.redirect_stdout(out):
            try:
                extract.main()
            except SystemExit as e:
                ensure(not e.code, "the program ended with %s", e.code)
        pe = PDFPeakExtraction()
        pe.read("b.srmise")
        text = out.getvalue()
        blocks = text.split("--- Extracted ---\n")
        if "--no-extract" in case["args"]:
            ensure(len(blocks) == 1 and "No extracted peaks" in text, "extracted peaks are printed without extraction")
        else:
            ensure(len(blocks) == 2, "the result is printed %d times", len(blocks) - 1)
            ex = pe.extracted
            sl, q, bl, pk = sections(blocks[1])
            ensure(sl == str(ex.slice) and abs(float(q) - ex.quality().stat) <= 1e-6 * abs(float(q)), "another cluster is printed")
            close(numbers(bl), ex.baseline.pars, "baseline")
            lines = [v for v in pk.split("\n") if v.startswith("[")]
            ensure(len(lines) == len(ex.model) == len(case["peaks"]), "%d peaks are printed of %d", len(lines), len(case["peaks"]))
            for s, (c, a) in zip(lines, case["peaks"]):
                ensure(np.allclose(numbers(s), [c, 0.3, a], atol=2e-3), "%s is printed for the peak at %g", s, c)
        for k in pe.extractvars:
            ensure(re.search(r"^%s: " % k, text, re.M), "%s is not printed", k)
    finally:
        sys.argv = argv
        os.chdir(old)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    cov.trace()
    return None


def cases_command(tier):
    for peaks in ([], [[2.0, 1.0]], [[1.6, 0.5], [2.9, 1.5]]):
        for args in ([], ["--no-extract"], ["--nyquist"], ["--range", "1.2", "3.8"]):
            if peaks or args == ["--no-extract"]:
                yield {"peaks": peaks, "args": args}


CHECK = Check(
    "C29",
    "exploration",
    [
        Scenario("parts", cases_parts, run_parts, doc="every part, choice of free parameters and sequence of up to 3 (4) parts"),
        Scenario("clusters", cases_clusters, run_clusters,
                 doc="all combinations of model, baseline, evaluator and extent, before and after changes"),
        Scenario("extractions", cases_extraction, run_extraction, doc="all combinations of variables and results of C16"),
        Scenario("command", cases_command, run_command, doc="what the program prints beside what it saves"),
    ],
    rule="the printed text is taken apart and its numbers compared with what the object holds, widths by the formula",
    assumptions=["print options of numpy are the default ones"],
)
