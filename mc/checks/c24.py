"""C24: plots for publication show the data, model, residual and positions there are."""
import contextlib
import io
import itertools
import logging
import os
import sys
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

from diffpy.srmise.applications import plot as app  # noqa: E402
from diffpy.srmise.modelcluster import ModelCluster  # noqa: E402
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction  # noqa: E402
from diffpy.srmise.peaks.base import Peaks  # noqa: E402
from diffpy.srmise.peakstability import PeakStability  # noqa: E402
from mc.checks import c23  # noqa: E402
from mc.harness import Check, Scenario, Scratch, ensure  # noqa: E402

X = c23.X


@contextlib.contextmanager
def silent():
    logging.disable(logging.CRITICAL)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield out
    finally:
        plt.close("all")


def subject(case):
    """The object to plot, in the state stated by the case."""
    pe = c23.extraction({"func": "gauss", "base": case["base"], "nyquist": False})
    kind = case["kind"]
    f = pe.pf[0]
    peaks = {
        "none": [],
        "one": [[2.6, 0.4, 1.0]],
        "three": [[1.7, 0.3, 2.0], [2.6, 0.4, 1.0], [4.0, 0.35, 1.5]],
        "out": [[0.5, 0.3, 1.0], [2.6, 0.4, 1.0], [5.6, 0.3, 1.0]],
    }[case["peaks"]]
    peaks = Peaks([f.actualize(p, "pwa") for p in peaks])
    if kind == "raw":
        pe.setvars(quiet=True, initial_peaks=peaks)
        return pe
    pe.setvars(quiet=True, effective_dy=0.1)
    base = pe.baseline.copy()
    rs = pe.getrangeslice()
    pe.extracted = ModelCluster(peaks, base, pe.x[rs], pe.y[rs], pe.effective_dy[rs], None, pe.error_method, pe.pf)
    if kind == "extracted":
        return pe
    ps = PeakStability()
    ps.setppe(pe)
    dr = (X[-1] - X[0]) / (len(X) - 1)
    for i, e in enumerate(case["errs"]):
        ps.results.append([e, Peaks([p.copy() for p in list(peaks)[: len(peaks) - i % 2]]), base.copy(), dr])
    ps.setcurrent(case["current"] % len(case["errs"]))
    return ps


def curves(ax):
    out = []
    for line in ax.get_lines():
        x, y = np.asarray(line.get_xdata(), dtype=float), np.ma.filled(np.ma.asarray(line.get_ydata(), dtype=float), np.nan)
        out.append((x, y))
    return out


def vertical(ax, positions, height):
    """Whether one of the lines of the axes is exactly a set of vertical lines at positions."""
    for x, y in curves(ax):
        if len(x) != 3 * len(positions):
            continue
        if len(x) == 0:
            return True
        if (np.allclose(x[0::3], positions) and np.allclose(x[1::3], positions) and np.all(np.isnan(x[2::3]) | np.isnan(y[2::3]))
                and np.allclose(y[0::3], 0) and np.allclose(y[1::3], height)):
            return True
    return False


def texts(fig):
    return [t.get_text() for a in fig.get_axes() for t in a.texts]


def check_plot(obj, ip, kw, out, where=None):
    ps = obj if isinstance(obj, PeakStability) else None
    pe = ps.ppe if ps is not None else obj
    scale = kw.get("scale", 1.0)
    rs = pe.getrangeslice()
    if pe.extracted is not None:
        model, base, r, y, dy = pe.extracted.model, pe.extracted.baseline, pe.extracted.r_cluster, pe.extracted.y_cluster, pe.extracted.error_cluster
    else:
        model, base, r, y, dy = pe.initial_peaks, pe.baseline, pe.x[rs], pe.y[rs], pe.effective_dy[rs]

    def value(x):
        v = 0.0 * x
        if base is not None:
            v = v + base.value(x)
        for p in model:
            v = v + p.value(x)
        return v

    fig = out["fig"]
    ax = out["data"]
    ensure(fig is kw.get("figure", fig) and ax.figure is fig, "drawn in another figure", where=where)
    xlo, xhi = kw.get("xlo", r[0]), kw.get("xhi", r[-1])
    ensure(np.allclose(ax.get_xlim(), (xlo, xhi)), "range %s", ax.get_xlim(), where=where)
    lines = curves(ax)
    fit = [(x, v) for x, v in lines if len(x) > 2 * len(r) and np.allclose(v, scale * value(x), rtol=1e-9, atol=1e-9)]
    ensure(bool(fit) == kw.get("show_fit", True), "fit shown: %s", bool(fit), where=where)
    if fit:
        ensure(fit[0][0][0] <= r[0] + 1e-9 and fit[0][0][-1] >= r[-1] - (r[1] - r[0]), "the fit is cut off", where=where)

    def observed(x, v):
        """Shows at least the data of the range, and nothing that is not data."""
        if len(x) < len(r):
            return False
        ok = [abs(v[np.argmin(abs(x - a))] - scale * b) < 1e-6 and abs(x[np.argmin(abs(x - a))] - a) < 1e-9 for a, b in zip(r, y)]
        return all(ok)

    obs = [(x, v) for x, v in lines if observed(x, v)]
    ensure(bool(obs) == kw.get("show_observed", True), "data shown: %s", bool(obs), where=where)
    for x, v in obs:
        ensure(np.all(np.diff(x) > 0), "data out of order", where=where)
        ensure(min(x[0], r[0]) <= max(xlo, X[0]) + 0.1 and x[-1] >= min(xhi, X[-1]) - 0.1, "data do not reach the range", where=where)
        for a, b in zip(x, v):  # beyond the range too
            if X[0] < a < X[-1]:
                i = np.searchsorted(X, a) - 1
                near = scale * pe.y[max(i - 2, 0): i + 4]
                pad = 0.5 * (near.max() - near.min()) + 0.02 * scale
                ensure(near.min() - pad <= b <= near.max() + pad, "%s at %s is not near the data", b, a, where=where)
    res = scale * (y - value(r))
    mask = kw.get("mask_residual", False)
    shown = np.abs(res) <= mask if mask else np.ones(len(res), bool)
    offset = None
    for x, v in lines:
        if len(x) == len(r) and np.allclose(x, r) and np.array_equal(np.isnan(v), ~shown):
            diff = (v - res)[shown]
            if len(diff) and np.ptp(diff) < 1e-8 and not observed(x, v):
                offset = diff.mean()
    has = kw.get("show_residual", True)
    if shown.any():
        ensure((offset is not None) == has, "residual shown: %s", offset is not None, where=where)
    if offset is not None:
        ensure("resbase" not in kw or abs(offset - kw["resbase"]) < 1e-9, "residual about %s", offset, where=where)
        ensure(any(len(v) == 2 and np.allclose(v, offset) and np.allclose(x, (xlo, xhi)) for x, v in lines), "zero line of the residual", where=where)
    # Nothing hides anything else
    ylo, yhi = ax.get_ylim()
    if not ({"ylo", "yhi", "resbase", "min_gr", "max_gr"} & set(kw)):
        low = min(v.min() for x, v in (fit + obs)) if fit + obs else None
        high = max(v.max() for x, v in (fit + obs)) if fit + obs else None
        if offset is not None:
            top = (res[shown] + offset).max()
            ensure(ylo - 1e-9 <= (res[shown] + offset).min(), "the residual is cut off", where=where)
            ensure(low is None or top <= low + 1e-9, "the residual overlaps the data", where=where)
        if low is not None:
            ensure(low >= ylo, "the data are cut off", where=where)
            inset = kw.get("top_offset", 0.0) + kw.get("dg_height", 15.0 if ps is not None else 0.0) + kw.get("cmp_height", 15.0 if ip is not None else 7.5)
            ensure(high <= yhi - (yhi - ylo) * inset / 100 + 1e-9, "the insets hide the data", where=where)
    for k, i in (("ylo", 0), ("yhi", 1)):
        ensure(k not in kw or abs(ax.get_ylim()[i] - kw[k]) < 1e-9, "%s", k, where=where)
    if kw.get("fill_individual", True):
        ensure(len(ax.collections) >= len(model), "%d of %d peaks filled", len(ax.collections), len(model), where=where)
        for p in model:
            ok = False
            for c in ax.collections:
                pts = np.concatenate([q.vertices for q in c.get_paths()])
                b = base.value(pts[:, 0])
                top = scale * (b + p.value(pts[:, 0]))
                up, down = np.isclose(pts[:, 1], top, atol=1e-7), np.isclose(pts[:, 1], scale * b, atol=1e-7)
                xs = set(pts[:, 0])
                ok = ok or ((up | down).all() and xs == set(pts[up, 0]) == set(pts[down, 0]) and len(xs) >= len(r)
                            and min(xs) < r[1] and max(xs) > r[-2])
            ensure(ok, "the peak at %s is not filled", p["position"], where=where)
    # Positions
    if kw.get("cmp_height", 1.0) > 0:
        cmp = out["cmp"]
        ensure(np.allclose(cmp.get_xlim(), (xlo, xhi)), "range of positions", where=where)
        ensure(vertical(cmp, [p["position"] for p in model], 1.0), "positions found are not those of the model", where=where)
        ensure(ip is None or vertical(cmp, list(ip), -1.0), "ideal positions are not those given", where=where)
        labels = [t.get_text() for t in cmp.get_yticklabels()]
        want = ([kw.get("yideal_label", "ideal")] if ip is not None else []) + [kw.get("yext_label", "found")]
        ensure(labels == want, "labels %s", labels, where=where)
    else:
        ensure("cmp" not in out, "positions shown", where=where)
    if ps is not None and kw.get("dg_height", 1.0) > 0:
        dax = out["dg"]
        want = []
        for e, m, b, dr in ps.results:
            if kw.get("dgmin", -np.inf) <= e <= kw.get("dgmax", np.inf):
                want += [(p["position"], e * scale) for p in m if r[0] <= p["position"] <= r[-1]]
        got = [(a, b) for x, v in curves(dax) for a, b in zip(x, v)]
        want, got = sorted(want), sorted(got)
        ensure(len(want) == len(got) and np.allclose(np.array(got, dtype=float).reshape(-1, 2), np.array(want, dtype=float).reshape(-1, 2)),
               "positions by uncertainty are %s instead of %s", got, want, where=where)
        ensure(np.allclose(dax.get_xlim(), (xlo, xhi)), "range of positions by uncertainty", where=where)
    else:
        ensure("dg" not in out, "positions by uncertainty shown", where=where)
    note = kw.get("dgformatstr", r"$\delta$g=%f") % (np.mean(dy) * scale)
    if "dgformatpost" in kw:
        note = kw["dgformatpost"](note)
    if kw.get("cmp_height", 1.0) > 0:
        ensure((note in texts(fig)) == kw.get("show_annotation", True), "annotation %s", texts(fig), where=where)
    if "datalabel" in kw:
        ensure(kw["datalabel"] in texts(fig) and out["datalabel"].get_text() == kw["datalabel"], "label of the data", where=where)
    ensure(ax.get_xlabel() == kw.get("xlabel", r"r ($\mathrm{\AA}$)"), "label of the axis", where=where)
    ensure(kw.get("ylabel", r"G ($\mathrm{\AA^{-2}}$)") in texts(fig), "label of the values", where=where)


def state(obj):
    pe = obj.ppe if isinstance(obj, PeakStability) else obj
    mc = pe.extracted
    return (
        np.asarray(pe.x).tolist(), np.asarray(pe.y).tolist(),
        None if mc is None else (c23.parts(mc.model), c23.parts([mc.baseline]), mc.r_cluster.tolist(), mc.y_cluster.tolist()),
        None if pe.initial_peaks is None else c23.parts(pe.initial_peaks),
        c23.parts([pe.baseline]), [float(v) for v in pe.rng], pe.cres, pe.qmax, pe.nyquist,
        c23.results(obj) if obj is not pe else None,
    )


def run_makeplot(case, cov):
    with silent():
        obj = subject(case)
        before = state(obj)
        for kw in case["kwds"]:
            kw = dict(kw)
            if kw.get("dgformatpost"):
                kw["dgformatpost"] = lambda s: s + "!"
            if kw.get("figure"):
                plt.figure()
                kw["figure"] = plt.figure()
            out = app.makeplot(obj, case["ip"], **kw)
            check_plot(obj, case["ip"], kw, out)
            ensure(state(obj) == before, "plotting changed the object")
            cov.outcome((case["kind"], case["peaks"], case["ip"], sorted((k, v) for k, v in kw.items() if not callable(v) and k != "figure")))
        if case.get("draw"):
            out["fig"].canvas.draw()
            out["fig"].canvas.draw()
            check_plot(obj, case["ip"], kw, out)
            ensure(app.labeldict[out["fig"]].get_position()[0] < 0.2, "label of the values")
    return None


KWDS = (
    {"scale": 2.5}, {"scale": 0.5}, {"xlo": 0.6}, {"xhi": 5.8}, {"xlo": 2.0}, {"xhi": 3.1}, {"show_fit": False}, {"show_individual": False},
    {"fill_individual": False}, {"show_observed": False}, {"show_residual": False}, {"mask_residual": 0.05}, {"mask_residual": 100.0},
    {"show_annotation": False}, {"cmp_height": 0}, {"cmp_height": 30.0}, {"top_offset": 10.0}, {"datatop_offset": 12.0},
    {"databottom_offset": 9.0}, {"bottom_offset": 12.0}, {"datalabel": "label"}, {"dgformatstr": "dg=%.3f"}, {"dgformatpost": True},
    {"xlabel": "X"}, {"ylabel": "Y"}, {"yideal_label": "I"}, {"yext_label": "F"}, {"ylo": -7.0}, {"yhi": 9.0}, {"resbase": -3.0},
    {"min_gr": -2.0}, {"max_gr": 6.0}, {"figure": True},
)
DG = ({"dg_height": 0}, {"dg_height": 30.0}, {"dgmin": 0.1}, {"dgmax": 0.1}, {"dgmin": 0.1, "dgmax": 0.2})


def cases_makeplot(tier):
    subjects = [{"kind": k} for k in ("raw", "extracted")]
    subjects += [{"kind": "stability", "errs": list(e), "current": c} for n in (1, 2, 3) for e in itertools.permutations((0.05, 0.1, 0.4), n) for c in range(n)]
    for s in subjects:
        for peaks in ("none", "one", "three", "out"):
            for ip in (None, [], [1.7, 2.65, 4.1], [0.2, 3.0]):
                for base in ("line", "seq"):
                    yield dict(s, peaks=peaks, ip=ip, base=base, kwds=[{}], draw=ip is not None and base == "line")
    some = [{"kind": "raw"}, {"kind": "extracted"}, {"kind": "stability", "errs": [0.1, 0.05, 0.4], "current": 2}]
    for s in some:
        alpha = KWDS + (DG if s["kind"] == "stability" else ())
        for peaks in ("none", "three", "out") if tier == "thorough" else ("out",):
            for ip in (None, [1.7, 2.65, 4.1]):
                for a in alpha:
                    yield dict(s, peaks=peaks, ip=ip, base="line", kwds=[a], draw=True)
                for a, b in itertools.combinations(alpha, 2):
                    if set(a) & set(b) or {**a, **b}.get("show_fit", True) is False and {**a, **b}.get("show_observed", True) is False:
                        continue
                    if tier == "quick" and ip is None and s["kind"] != "stability":
                        continue
                    yield dict(s, peaks=peaks, ip=ip, base="line", kwds=[{**a, **b}])
        # One after another in the same figure
        for a, b in itertools.permutations(({}, {"scale": 2.5}, {"cmp_height": 0}, {"xlo": 2.0}, {"show_fit": False}), 2):
            yield dict(s, peaks="out", ip=[1.7], base="line", kwds=[a, b, a], draw=True)


# ------------------------------------------------------------------- files
GOOD = (["1.5"], ["1.5", "2.5", "10"], ["0.25", "12.125", "3e0"], ["7", "8"])
HEADS = ([], ["# comment"], ["# one", "# two"], ["", ""], ["#"])
BAD = (["1.5 2.5"], ["a", "1.5"], ["1.5", "a"], ["1.5", "# late", "2.5"], [""], [], ["1.5,2.5"])


def run_compare(case, cov):
    with Scratch() as d, silent() as out:
        path = os.path.join(d, "list.txt")
        text = case["eol"].join(case["head"] + case["lines"]) + case["end"]
        with open(path, "w", newline="") as f:
            f.write(text)
        got = app.readcompare(path)
        if case["good"]:
            ensure(got is not None and list(got) == [float(v) for v in case["lines"]], "read %s", got)
        else:
            ensure(got is None, "read %s", got)
            ensure(path in out.getvalue(), "no message")
        cov.outcome((case["lines"], case["head"]))
    return None


def cases_compare(tier):
    for good, lists in ((True, GOOD), (False, BAD)):
        for lines in lists:
            for head in HEADS:
                for eol in ("\n", "\r\n"):
                    for end in ("", eol, eol + eol):
                        yield {"good": good, "lines": lines, "head": head, "eol": eol, "end": end}


def run_main(case, cov):
    with Scratch() as d, silent() as text:
        src = os.path.join(d, "in")
        what = dict(case, base="line", errs=[0.05, 0.1, 0.4], current=0)
        kind = case["kind"]
        if kind in ("raw", "extracted", "stability"):
            obj = subject(what)
            if kind == "stability":
                obj.save(src)
            else:
                obj.write(src)
        elif kind == "text":
            open(src, "w").write("no extraction\n1 2\n")
        argv = [src]
        ip = None
        if case["compare"]:
            cmp = os.path.join(d, "cmp")
            ip = [1.7, 2.65, 4.1]
            open(cmp, "w").write("# distances\n" + "\n".join(map(str, ip)) + "\n")
            argv += ["--compare", cmp]
        if case["model"] is not None:
            argv += ["--model", str(case["model"])]
        img = os.path.join(d, "img")
        if case["format"]:
            argv += ["-o", img] + ([] if case["format"] == "eps" else ["--format", case["format"]])
        seen = []
        real, old = app.makeplot, sys.argv
        try:
            app.makeplot = lambda *a, **k: seen.append((a, real(*a, **k))) or seen[-1][1]
            sys.argv = ["srmiseplot"] + argv
            app.main()
        finally:
            app.makeplot, sys.argv = real, old
        if kind in ("text", "missing"):
            ensure(not seen and src in text.getvalue(), "no message")
            ensure(not os.path.exists(img), "a plot of nothing")
            return None
        ensure(len(seen) == 1, "%d plots", len(seen))
        (shown, *rest), out = seen[0]
        check_plot(shown, ip, {}, out)
        if kind == "stability":
            i = case["model"] if case["model"] is not None and -3 <= case["model"] < 3 else 0
            ensure(shown.current % 3 == i % 3, "model %d shown", shown.current)
            ensure(c23.same(c23.parts(shown.ppe.extracted.model), c23.parts(obj.results[i][1])), "another model shown")
            ensure(case["model"] is None or case["model"] < 3 or "gnoring" in text.getvalue(), "no message")
        elif obj.extracted is not None:
            a, b = c23.parts(shown.extracted.model), c23.parts(obj.extracted.model)
            ensure(c23.same(a, b, 1e-6), "another model shown")
            ensure(case["model"] is None or "gnoring" in text.getvalue(), "no message")
        else:
            ensure(shown.extracted is None and c23.same(c23.parts(shown.initial_peaks), c23.parts(obj.initial_peaks), 1e-6), "other peaks shown")
        if case["format"]:
            head = open(img, "rb").read(8)
            magic = {"eps": b"%!PS", "pdf": b"%PDF", "png": b"\x89PNG", "svg": b"<?xml"}[case["format"]]
            ensure(head.startswith(magic), "the file is no %s", case["format"])
        cov.outcome((kind, case["compare"], case["model"], case["format"]))
    return None


def cases_main(tier):
    for kind in ("raw", "extracted", "stability", "text", "missing"):
        for compare in (False, True):
            for model in (None, 0, 1, 2, 7):
                for fmt in (None, "eps", "pdf", "png", "svg"):
                    if tier == "quick" and fmt in ("png", "svg") and (model not in (None, 1) or compare):
                        continue
                    for peaks in ("three", "none") if fmt is None else ("three",):
                        yield {"kind": kind, "compare": compare, "model": model, "format": fmt, "peaks": peaks}


CHECK = Check(
    "C24",
    "exploration",
    [
        Scenario("makeplot", cases_makeplot, run_makeplot, timeout=120, doc="every pair of options on every kind of object"),
        Scenario("compare", cases_compare, run_compare, timeout=30, doc="every listed layout of a list of distances"),
        Scenario("main", cases_main, run_main, timeout=120, doc="every combination of file, model, list of distances and format"),
    ],
    rule="curves drawn against the values of data and model computed directly",
)
