"""C19: PDF data sets are read from and written to text as they are."""
import itertools
import os
import tempfile

import numpy as np

from diffpy.srmise.pdfdataset import PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.srmiseerrors import SrMisePDFKeyError
from mc.harness import Check, Scenario, ensure

DEFAULT = {"stype": "X", "qmax": 0.0, "qdamp": 0.001, "qbroad": 0.0, "spdiameter": None, "dscale": 1.0}


def close(a, b, rel=1e-5):
    if a is None or b is None or isinstance(a, str):
        return a == b
    return abs(a - b) <= rel * abs(b)


def same_seq(a, b, rel):
    return len(a) == len(b) and all(close(u, v, rel) for u, v in zip(a, b))


# ----------------------------------------------------------------- layouts
HEADS = {
    "none": ([], {}),
    "pdfgui": (["History written: Thu May  7 2020", "produced by me", "##### PDFgui", "stype=X  x-ray scattering",
                "qmax=26", "qdamp=0.05", "qbroad=0.01", "dscale=0.8"],
               {"stype": "X", "qmax": 26.0, "qdamp": 0.05, "qbroad": 0.01, "dscale": 0.8}),
    "neutron": (["stype=N  neutron scattering", "qmax=0   correction not applied", "qdamp=1e-2"],
                {"stype": "N", "qmax": 0.0, "qdamp": 0.01}),
    "pdfgetn": (["# produced by PDFgetN", "# Qmax = 35.5 qsig = .04", "# qalp=3e-05 spdiameter=22."],
                {"stype": "N", "qmax": 35.5, "qdamp": 0.04, "qbroad": 3e-5, "spdiameter": 22.0}),
    "pdfgetx": (["# PDFgetX2 output", "# QMAX=12"], {"stype": "X", "qmax": 12.0}),
    "T": (["# neutron T = 300.5 x=0.25", "# Qmax =   +7.25"],
          {"stype": "N", "qmax": 7.25, "metadata": {"temperature": 300.5, "doping": 0.25}}),
}
META = {
    "none": ([], {}),
    "plain": (["# metadata", "pressure=1.5", "doping = 0.125", "temperature=15"],
              {"pressure": 1.5, "doping": 0.125, "temperature": 15.0}),
    "other": (["# metadata", "neutron_flux=2.5", "PDFgetX = 3"], {"neutron_flux": 2.5, "PDFgetX": 3.0}),
    "numbers": (["## metadata", "a=-2e-3", "b_2 = 7", "c=.5 d=3"], {"a": -2e-3, "b_2": 7.0, "c": 0.5, "d": 3.0}),
}
STARTS = {
    "start": ["##### start data"],
    "labels": ["##### start data", "#L r(A) G(r) d_r d_Gr"],
    "comments": ["## start data", "#S 1 dataset", "# another", "#L r G"],
    "bare": None,
}
R = [0.5, 1.0, 1.5, 2.25, 1e2]
G = [-0.125, 3.0, 1.5e-3, -2e5, 0.0]


def rows(cols, bad):
    """Text rows, with what should be read of the uncertainties."""
    dr = [0.1, 0.2, 0.3, 0.4, 0.5]
    dg = [1.5, 2.5e-3, 7.0, 0.125, 100.0]
    fields = [["%s" % R[i], "%s" % G[i], "%s" % dr[i], "%s" % dg[i], "12345"][:cols] for i in range(5)]
    for i, j, v in bad:
        if j < cols:
            fields[i][j] = v
        elif v == "cut":
            continue
    for i, j, v in bad:
        if v == "cut" and j < cols:
            fields[i] = fields[i][:j]
    okdr = cols > 2 and not any(j == 2 for i, j, v in bad)
    okdg = cols > 3 and not any(j == 3 or (j == 2 and v == "cut") for i, j, v in bad)
    return fields, dr if okdr else [0.0] * 5, dg if okdg else [0.0] * 5


BAD = [[]] + [[[i, j, v]] for i in (0, 2, 4) for j in (2, 3) for v in ("0", "-1", "nan", "inf", "-Inf", "NaN", "0.0", "cut")]
BAD += [[[1, 2, "nan"], [3, 3, "0"]], [[0, 2, "0"], [0, 3, "inf"]]]


def run_read(case, cov):
    head, want = HEADS[case["head"]]
    meta, mwant = META[case["meta"]]
    start = STARTS[case["start"]]
    fields, dr, dg = rows(case["cols"], case["bad"])
    sep, eol = case["sep"], case["eol"]
    if start is None and (head or meta):
        # Without a mark the data begin at the first line starting with a number.
        start = []
    lines = list(head) + list(meta) + list(start or [])
    lines += [case["indent"] + sep.join(f) for f in fields]
    text = eol.join(lines) + eol * case["final"]
    want = dict(DEFAULT, **want)
    wmeta = dict(want.pop("metadata", {}))
    wmeta.update(mwant)
    d = PDFDataSet("name")
    d.readStr("qmax=99\nx=5\n# metadata\nq=1\n## start data\n1 2 3 4\n")  # used before
    ensure(d.readStr(text) is d, "reading does not return the data set")
    check(d, want, wmeta, dr, dg, 0.0)
    with tempfile.TemporaryDirectory() as t:
        fn = os.path.join(t, "a.gr")
        with open(fn, "wb") as f:
            f.write(text.encode())
        e = PDFDataSet("other")
        ensure(e.read(fn) is e, "reading does not return the data set")
        check(e, want, wmeta, dr, dg, 0.0)
        ensure(e.filename == os.path.abspath(fn) and e.name == "other", "file name or name differ")
        pe = PDFPeakExtraction()
        pe.loadpdf(fn)
        ensure(same_seq(pe.x, R, 0) and same_seq(pe.y, G, 0) and same_seq(pe.dx, dr, 0) and same_seq(pe.dy, dg, 0)
               and pe.qmax_reportedbypdf == want["qmax"] and pe.filename == os.path.abspath(fn), "loaded otherwise")
    roundtrip(d, wmeta)
    cov.trace()
    return None


def check(d, want, wmeta, dr, dg, rel):
    for k, v in want.items():
        ensure(close(getattr(d, k), v, rel), "%s is %s, expected %s", k, getattr(d, k), v)
    ensure(set(d.metadata) == set(wmeta) and all(close(d.metadata[k], v, rel) for k, v in wmeta.items()),
           "metadata are %s, expected %s", d.metadata, wmeta)
    for k, v in (("robs", R), ("Gobs", G), ("drobs", dr), ("dGobs", dg)):
        ensure(same_seq(list(getattr(d, k)), v, rel), "%s is %s, expected %s", k, list(getattr(d, k)), v)
    ensure(d.rmin == R[0] and d.rmax == R[-1], "range is %s to %s", d.rmin, d.rmax)


def roundtrip(d, wmeta):
    before = {k: repr(v) for k, v in vars(d).items()}
    with tempfile.TemporaryDirectory() as t:
        fn = os.path.join(t, "b.gr")
        d.write(fn)
        ensure({k: repr(v) for k, v in vars(d).items()} == before, "writing changed the data set")
        e = PDFDataSet("e").read(fn)
    for k in ("stype", "qmax", "qdamp", "qbroad", "spdiameter", "dscale", "rmin", "rmax"):
        ensure(close(getattr(e, k), getattr(d, k)), "%s: %s written and read as %s", k, getattr(d, k), getattr(e, k))
    for k in ("robs", "Gobs", "drobs", "dGobs"):
        ensure(same_seq(getattr(e, k), getattr(d, k), 1e-5), "%s differs after writing and reading", k)
    ensure(set(e.metadata) == set(d.metadata) and all(close(e.metadata[k], v) for k, v in d.metadata.items()),
           "metadata differ after writing and reading")


def cases_read(tier):
    seps, eols = [" ", "\t", "   "], ["\n", "\r\n"]
    for h, m, s, eol in itertools.product(HEADS, META, STARTS, eols):
        for cols, sep, ind, fin in itertools.product((2, 3, 4, 5), seps, ("", "  "), (0, 1, 3)):
            if tier == "quick" and (sep, ind) not in ((" ", ""), ("\t", "  ")):
                continue
            if h in ("none",) and False:
                continue
            if STARTS[s] is None and m != "none":
                pass
            yield {"head": h, "meta": m, "start": s, "cols": cols, "sep": sep, "indent": ind, "eol": eol, "final": fin,
                   "bad": []}
    for bad in BAD:
        for cols in (3, 4, 5):
            for h, eol in (("none", "\n"), ("pdfgui", "\r\n")):
                yield {"head": h, "meta": "none", "start": "labels", "cols": cols, "sep": " ", "indent": "", "eol": eol,
                       "final": 1, "bad": bad}


# ------------------------------------------------------------ writing, copying
def run_write(case, cov):
    d = PDFDataSet("d")
    n = case["n"]
    d.robs = [case["r0"] + case["dr"] * i for i in range(n)]
    d.Gobs = [case["g"] * (-1) ** i * (1 + i / 7.0) for i in range(n)]
    d.drobs = [0.01 * (1 + i) if case["err"] in ("r", "both") else 0.0 for i in range(n)]
    d.dGobs = [case["g"] / 3.0 * (1 + i) if case["err"] in ("g", "both") else 0.0 for i in range(n)]
    d.rmin, d.rmax = d.robs[0], d.robs[-1]
    for k in ("stype", "qmax", "qdamp", "qbroad", "spdiameter", "dscale"):
        setattr(d, k, case[k])
    d.metadata = dict(case["metadata"])
    roundtrip(d, None)
    # copies
    c = d.copy()
    other = PDFDataSet("o").readStr("qmax=99\nspdiameter=3\nx=5\n## start data\n1 2 3 4\n")
    ensure(d.copy(other) is other, "copying does not return the copy")
    for e in (c, other):
        for k in ("robs", "Gobs", "drobs", "dGobs", "stype", "qmax", "qdamp", "qbroad", "spdiameter", "dscale", "rmin", "rmax",
                  "metadata", "filename"):
            ensure(getattr(e, k) == getattr(d, k), "%s is not copied", k)
        e.metadata["new"] = 1.0
        e.metadata.pop("temperature", None)
        e.qmax = 77.0
        ensure(d.metadata == case["metadata"] and d.qmax == case["qmax"], "the copy is not independent")
        e.readStr("## start data\n1 2\n2 3\n")
        ensure(len(d.robs) == n and len(d.Gobs) == n and len(d.dGobs) == n, "the copy is not independent")
    ensure(c.name == d.name, "name is not copied")
    for k in ("qdamp", "qbroad", "dscale"):
        for name in (k, "  %s " % k):
            ensure(d.getvar(name) == getattr(d, k), "variable %s differs", k)
            d.setvar(name, "0.375")
            ensure(getattr(d, k) == 0.375 and d.getvar(k) == 0.375, "variable %s is not set", k)
    for bad in ("qmax", "robs", "", "QDAMP", "metadata"):
        for f in (lambda: d.getvar(bad), lambda: d.setvar(bad, 1.0)):
            try:
                f()
            except SrMisePDFKeyError:
                pass
            else:
                ensure(False, "invalid variable %s accepted", bad)
    ensure(d.qmax == case["qmax"] and len(d.robs) == n, "an invalid variable was set")
    d.clear()
    ensure(d.robs == [] and d.metadata == {} and d.qmax == 0.0 and d.rmin is None and d.filename is None, "not cleared")
    cov.trace()
    return None


def cases_write(tier):
    metas = [{}, {"temperature": 300.0, "doping": 0.3}, {"a": -2e-7, "b": 1e12, "c_d": 0.0, "temperature": 0.5}]
    qmaxs = [0.0, 18, 25.125, 33.3333, 0.004, 123.4]
    for st, q, meta, err in itertools.product("XN", qmaxs, metas, ("", "r", "g", "both")):
        for g in (1.0, 1e-12, 3e7) if tier == "quick" else (1.0, 1e-12, 3e7, 1 / 3.0, 1e-300):
            for r0, dr, n in ((0.0, 0.01, 12), (1 / 3.0, 2 / 7.0, 5), (2.5, 0.25, 1), (5.0, -0.25, 6)):
                for qd, qb, ds, sp in ((0.001, 0.0, 1.0, None), (0.0612345, 3e-5, 0.75, 21.5)):
                    yield {"stype": st, "qmax": q, "metadata": meta, "err": err, "g": g, "r0": r0, "dr": dr, "n": n,
                           "qdamp": qd, "qbroad": qb, "dscale": ds, "spdiameter": sp}


CHECK = Check(
    "C19",
    "exploration",
    [
        Scenario("read", cases_read, run_read, doc="all layouts of headers, metadata, separators, line ends and columns, "
                 "and every place of an invalid uncertainty"),
        Scenario("write", cases_write, run_write, doc="all combinations of attributes written, read, copied and set"),
    ],
    rule="texts are composed from known contents, read by the real code and compared with these",
    assumptions=["numbers are written to six significant digits"],
)
