"""C17: damaged files are refused as such, and leave the reader usable."""
import logging
import os
import tempfile

import numpy as np

from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.pdfdataset import PDFDataFormatError, PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError
from diffpy.srmise.srmiselog import TracePeaks
from mc.checks import c14, c16
from mc.harness import Check, Scenario, ensure

_CACHE = {}


def quiet():
    logging.disable(logging.CRITICAL)


def extraction(kind, result=True):
    case = {"kind": kind, "grid": "short", "err": True, "default": True, "vars": {
        "cres": 0.2, "rng": [1.5, 2.5], "initial_peaks": ["gor:0.7", "tr:gor:0.7/20"], "baseline": "poly:1",
        "pf": ["gauss:0.7", "gor:0.7"], "error_method": "AICc"}}
    if result:
        case["result"] = [["gor:0.7", "tr:gor:0.7/20"], "poly:1", "extract", "AICc"]
    return c16.build(case)


def trace_text():
    tr = TracePeaks(filter=["True"], store=True)
    tr.emit(extraction("base").extracted)
    return tr.writestr(tr.trace[0])


def dataset():
    d = PDFDataSet("d")
    d.robs = [1.0 + 0.1 * i for i in range(6)]
    d.Gobs = [0.5 - 0.3 * i for i in range(6)]
    d.drobs = [0.01] * 6
    d.dGobs = [0.25 + 0.125 * i for i in range(6)]
    d.stype, d.qmax, d.qdamp = "N", 21.5, 0.05
    d.metadata = {"temperature": 300.0, "doping": 0.5}
    return d


def text(fmt):
    if fmt not in _CACHE:
        if fmt in ("pdf", "base"):
            _CACHE[fmt] = extraction(fmt).writestr()
        elif fmt == "unextracted":
            _CACHE[fmt] = extraction("pdf", False).writestr()
        elif fmt == "cluster":
            _CACHE[fmt] = extraction("base").extracted.writestr()
        elif fmt == "trace":
            _CACHE[fmt] = trace_text()
        else:
            _CACHE[fmt] = dataset().writeStr()
    return _CACHE[fmt]


def reader(fmt):
    """(object or None, read text, read file, error of text)."""
    if fmt in ("pdf", "unextracted", "base"):
        pe = PeakExtraction() if fmt == "base" else PDFPeakExtraction()
        return pe, pe.readstr, pe.read, SrMiseDataFormatError
    if fmt == "cluster":
        return None, ModelCluster.factory, None, SrMiseDataFormatError
    if fmt == "trace":
        tr = TracePeaks()
        return None, tr.readstr, tr.read, SrMiseDataFormatError
    d = PDFDataSet("x")
    return d, d.readStr, d.read, PDFDataFormatError


def intact(fmt, obj, result, where):
    """What was read from the text as written."""
    if fmt in ("pdf", "base", "unextracted"):
        c16.same(extraction("base" if fmt == "base" else "pdf", fmt != "unextracted"), obj, "base" if fmt == "base" else "pdf")
    elif fmt == "cluster":
        c14.same_cluster(extraction("base").extracted, result)
    elif fmt == "trace":
        ensure((result["counter"], result["recursion"], len(result["clusters"])) == (0, 0, 1), "trace differs", where=where)
    else:
        d = dataset()
        for k in ("stype", "qmax", "qdamp", "dscale", "qbroad", "metadata"):
            ensure(getattr(obj, k) == getattr(d, k), "%s differs after reading a damaged text", k, where=where)
        for k in ("robs", "Gobs", "drobs", "dGobs"):
            ensure(np.allclose(getattr(obj, k), getattr(d, k)), "%s differs after reading a damaged text", k, where=where)


# ------------------------------------------------------------- damages
def section_end(fmt, t):
    """Texts cut before this position lack a required part."""
    if fmt in ("pdf", "base", "unextracted"):
        return t.index("### ModelCluster")
    if fmt == "cluster":
        return t.index("#L")
    if fmt == "trace":
        return t.index("#L")
    return t.index("#L")


def rows(fmt, lines):
    """Indices of the lines of numbers after the last '#L' line, and how many belong to it."""
    i = [k for k, l in enumerate(lines) if l.startswith("#L")][0]
    out = []
    for k in range(i + 1, len(lines)):
        if not lines[k] or lines[k].startswith("#"):
            break
        out.append(k)
    return out


FIELDS = ("function", "module", "base", "owner", "pars", "pf", "cres", "ModelEvaluator", "Range", "extraction_type",
          "clusters", "recursion", "counter", "peak_funcs", "slice")
HEADINGS = ("BaselineFunctions", "PeakFunctions", "BaselineObject", "InitialPeaks", "SrMiseMetadata", "Metadata",
            "start data", "Results", "ModelCluster", "ModelPeaks")


def required(fmt, line):
    """A line no text of this kind can do without."""
    if fmt == "dataset":
        return False
    if line.startswith("#"):
        return line.startswith("#L") or line.strip("# ") in HEADINGS
    return "=" in line and line.split("=")[0] in FIELDS


def damages(fmt, group):
    """Yield (label, damaged text, must be refused)."""
    t = text(fmt)
    lines = t.split("\n")
    end = section_end(fmt, t)
    if group[0] == "cut":  # cut at every position of one slice of the text
        for i in range(group[1], len(t), group[2]):
            yield i, t[:i], i < end and fmt != "dataset"
    elif group[0] == "line":
        r = set(rows(fmt, lines))
        last = rows(fmt, lines)
        # In between, every row must have as many numbers as said.
        for k in range(group[1], len(lines), group[2]):
            for what, new in (("delete", []), ("double", [lines[k]] * 2), ("empty", [""]), ("garbage", ["?%&"]),
                              ("value", [lines[k].split("=")[0] + "=?"]), ("novalue", [lines[k].split("=")[0]]),
                              ("number", [lines[k].split("=")[0] + "=12345"]), ("spaces", ["  " + lines[k] + "  "]),
                              ("none", [lines[k].split("=")[0] + "=None"])):
                must = k in r and what in ("garbage", "value")
                must |= what in ("delete", "empty", "garbage") and required(fmt, lines[k])
                if k in r and what == "empty" and k != last[-1] and k != last[0]:
                    must = True
                yield [what, k], "\n".join(lines[:k] + new + lines[k + 1:]), must
            if k in r:
                f = lines[k].split()
                if fmt == "dataset":
                    yield ["onefield", k], "\n".join(lines[:k] + f[:1] + lines[k + 1:]), True
                    yield ["text", k], "\n".join(lines[:k] + [" ".join(f[:1] + ["abc"])] + lines[k + 1:]), True
                    continue
                for j in range(len(f)):
                    yield ["lost", k, j], "\n".join(lines[:k] + [" ".join(f[:j] + f[j + 1:])] + lines[k + 1:]), True
                    yield ["text", k, j], "\n".join(lines[:k] + [" ".join(f[:j] + ["abc"] + f[j + 1:])] + lines[k + 1:]), True
                yield ["more", k], "\n".join(lines[:k] + [lines[k] + " 1.0"] + lines[k + 1:]), True
    elif group[0] == "move":
        for k in range(group[1], len(lines) - 1, group[2]):
            for m in range(k + 1, len(lines), group[3]):
                new = list(lines)
                new[k], new[m] = new[m], new[k]
                yield ["swap", k, m], "\n".join(new), False
    elif group[0] == "two":
        for k in range(group[1], len(lines), group[2]):
            for m in range(k + 1, len(lines)):
                new = [l for i, l in enumerate(lines) if i not in (k, m)]
                yield ["delete2", k, m], "\n".join(new), False
    elif group[0] == "char":
        for i in range(group[1], len(t), group[2]):
            for c in "x =#\n-9":
                yield ["char", i, c], t[:i] + c + t[i + 1:], False
    elif group[0] == "whole":
        for name, s in (("empty", ""), ("newline", "\n"), ("space", "   "), ("words", "lorem ipsum\ndolor"),
                        ("zeros", "\0" * 40), ("headers", "## start data\n#L x y\n"), ("hash", "#" * 300)):
            yield name, s, True


def run(case, cov):
    quiet()
    fmt = case["fmt"]
    good = text(fmt)
    obj, rd, rdfile, err = reader(fmt)
    refused = accepted = 0
    for label, bad, must in damages(fmt, case["group"]):
        cov.transition()
        try:
            rd(bad)
        except err as e:
            refused += 1
            ensure(isinstance(str(e), str), "no description", where=label)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            ensure(type(e).__name__ == "CaseTimeout", "%s raised by damaged %s instead of %s: %s", type(e).__name__, fmt,
                   err.__name__, str(e)[:150], where=label)
            raise
        else:
            accepted += 1
            ensure(not must, "damaged %s accepted", fmt, where=label)
        if (refused + accepted) % 16 == 1:
            intact(fmt, obj, rd(good), label)  # the reader is not spoilt
    intact(fmt, obj, rd(good), None)
    cov.outcome((fmt, case["group"], refused, accepted))
    return None


def run_file(case, cov):
    """The same through files, also files that are no text."""
    quiet()
    fmt = case["fmt"]
    obj, rd, rdfile, err = reader(fmt)
    good = text(fmt).encode()
    n = len(good)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "damaged.xyz")
        todo = [(["cut", i], good[:i]) for i in range(0, n, max(1, n // case["cuts"]))]
        todo += [(["byte", i, b], good[:i] + bytes([b]) + good[i + 1:])
                 for i in range(0, n, max(1, n // case["cuts"])) for b in (0xFF, 0xC3, 0x00)]
        todo += [(["binary", i], bytes(range(256)) * i) for i in (1, 7)]
        for label, b in todo:
            cov.transition()
            with open(fn, "wb") as f:
                f.write(b)
            try:
                rdfile(fn)
            except SrMiseFileError as e:
                ensure("damaged.xyz" in str(e), "the error does not name the file", where=label)
            except Exception as e:
                ensure(type(e).__name__ == "CaseTimeout", "%s raised by a damaged file (%s) instead of SrMiseFileError: %s",
                       type(e).__name__, fmt, str(e)[:150], where=label)
                raise
            with open(fn, "rb") as f:
                ensure(f.read() == b, "reading changed the file", where=label)
        with open(fn, "wb") as f:
            f.write(good)
        intact(fmt, obj, rdfile(fn), None)
        try:
            rdfile(os.path.join(d, "missing"))
        except (OSError, SrMiseFileError):
            pass
        else:
            ensure(False, "a missing file was read")
    return None


FMTS = ["pdf", "base", "unextracted", "cluster", "trace", "dataset"]


def cases(tier):
    for fmt in FMTS:
        k = 24
        yield {"fmt": fmt, "group": ["whole"]}
        for i in range(k):
            yield {"fmt": fmt, "group": ["cut", i, k]}
            yield {"fmt": fmt, "group": ["line", i, k]}
        if tier == "quick":
            yield {"fmt": fmt, "group": ["move", 0, 7, 5]}
        else:
            for i in range(64):
                yield {"fmt": fmt, "group": ["char", i, 64]}
                yield {"fmt": fmt, "group": ["move", i, 64, 1]}
                yield {"fmt": fmt, "group": ["two", i, 64]}


def cases_file(tier):
    for fmt in FMTS:
        if fmt != "cluster":
            yield {"fmt": fmt, "cuts": 40 if tier == "quick" else 400}


CHECK = Check(
    "C17",
    "fault_enumeration",
    [
        Scenario("damages", cases, run, timeout=600,
                 doc="every cut, every line deleted, doubled, emptied or altered, every field of the data lost or altered; "
                     "thorough: every character altered, every two lines exchanged or deleted"),
        Scenario("files", cases_file, run_file, timeout=600, doc="cut and binary files"),
    ],
    rule="a damaged text is either read or refused by the documented error, never by another; texts lacking a "
         "section or a number of the data are refused; the reader reads an intact text afterwards",
)
