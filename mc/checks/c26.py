"""C26: plots and animations of class probabilities and of series of results show what the analysis holds."""
import itertools
import logging

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402

import mc.checks.c23 as base  # noqa: E402
from diffpy.srmise.multimodelselection import MultimodelSelection  # noqa: E402
from diffpy.srmise.peakstability import PeakStability  # noqa: E402
from mc.harness import Check, Scenario, ensure  # noqa: E402

X, QMAX = base.X, base.QMAX
GRID = np.arange(1.2, 4.7, 0.02)
MODEL_DGS = (0.5, 0.1, 0.3, 0.2, 0.7)


def selection(case, classes=True):
    pe = base.extraction(dict(case, base="line", nyquist=True, aicc=False))
    alpha = base.models(case["func"])
    ms = MultimodelSelection()
    ms.setppe(pe)
    ms.results = [[MODEL_DGS[i], alpha[k][0].copy(), alpha[k][1].copy(), np.pi / QMAX] for i, k in enumerate(case["models"])]
    ms.makeaics(case["dgs"], np.pi / QMAX)
    if classes:
        ms.classify(GRID)
    return ms


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-12))


# ------------------------------------------------------------------ class plot
def faces(ax):
    found = [c for c in ax.collections if hasattr(c, "_faces")]
    ensure(len(found) == 1, "%d collections of polygons", len(found))
    return found[0], [np.asarray(f, dtype=float) for f in found[0]._faces]


def run_classplot(case, cov):
    with base.silent():
        ms = selection(case)
        n = len(ms.classes)
        sizes = [len(c) for c in ms.classes]
        before = (dict(ms.classprobs), [list(c) for c in ms.classes], base.results(ms))
        dgs = case["dgs"]
        for opt in itertools.product(
            (None, list(dgs[:2]), list(dgs[::2]), np.asarray(dgs[-1:]))[: 4 if case["all"] else 2],
            (None, [n - 1], list(range(n))[::-1]),
            (None, [0.2, 1.0], [0.0, 0.6], "from", "to"),
            list(itertools.product((None, "number", "fraction"), (None, "auto", "full"))) if case["all"] else
            [(None, None), (None, "full"), ("fraction", "auto"), ("fraction", "full")],
            case["looks"],
        ):
            which, classes, probs, (size, norm), look = opt
            if probs in ("from", "to"):
                if classes is not None or size or norm:
                    continue
                most = sorted(max(ms.classprobs[g][c] for g in (dgs if which is None else which)) for c in range(n))
                probs = [most[len(most) // 2], 1.0] if probs == "from" else [0.0, most[len(most) // 2]]
                opt = (which, classes, probs, (size, norm), look)
            cov.transition()
            kw = {k: v for k, v in zip(("dGs", "classes", "probfilter", "class_size", "norm"), opt[:3] + opt[3]) if v is not None}
            kw.update(look)
            some = list(dgs) if which is None else [float(g) for g in which]
            lo, hi = probs or (0.0, 1.0)
            shown = [c for c in (range(n) if classes is None else classes) if lo <= max(ms.classprobs[g][c] for g in some) <= hi]
            if not shown:
                continue
            scale = look.get("scale", 1.0)
            plt.close("all")
            fig = plt.figure()
            if "figure" in look:
                own = plt.figure()
                kw["figure"] = own
                plt.figure(fig.number)
            else:
                own = fig
            where = str({k: v for k, v in kw.items() if k != "figure"})
            out = ms.plot3dclassprobs(**kw)
            ensure(out["fig"] is own, "drawn on another figure", where=where)
            ax, bar = out["axis"], out["cb"]
            ensure(ax.figure is own and out["cbaxis"].figure is own, "drawn on another figure", where=where)
            coll, polys = faces(ax)
            ensure(len(polys) == len(shown), "%d polygons for %d classes", len(polys), len(shown), where=where)
            levels = set()
            for poly, c in zip(polys, shown):
                ensure(len(set(poly[:, 1])) == 1, "a polygon leaves its row", where=where)
                levels.add(float(poly[0, 1]))
                want = [(g * scale, ms.classprobs[g][c]) for g in some]
                pts = [tuple(p) for p in poly[:, [0, 2]]]
                inner = [i for i in range(len(pts) - len(want) + 1) if near(pts[i:i + len(want)], want)]
                ensure(inner, "class %d is not drawn by its probabilities: %s for %s", c, pts, want, where=where)
                rest = pts[:inner[-1]] + pts[inner[-1] + len(want):]
                ensure(all(abs(p[1]) < 1e-12 or near(p, want[0]) or near(p, want[-1]) for p in rest), "the area of class %d", c, where=where)
                ensure(all(near(p[0], want[0][0]) or near(p[0], want[-1][0]) for p in rest), "the area of class %d", c, where=where)
                turn = pts[1:] + pts[:1]
                area = 0.5 * sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(pts, turn))
                under = sum((b[0] - a[0]) * (a[1] + b[1]) / 2 for a, b in zip(want, want[1:]))
                ensure(abs(abs(area) - abs(under)) < 1e-9 * (1 + abs(under)), "the area of class %d: %s", c, pts, where=where)
            ensure(len(levels) == len(shown), "classes drawn over each other", where=where)
            rows = [float(p[0, 1]) for p in polys]
            ticks = dict(zip([float(t) for t in ax.get_yticks()], [t.get_text() for t in ax.get_yticklabels()]))
            ensure(ticks == {z: str(c) for z, c in zip(rows, shown)}, "classes are labelled %s", ticks, where=where)
            # Colours agree with the bar, which is of the sizes of classes.
            amount = [sizes[c] / (float(len(ms.results)) if size == "fraction" else 1) for c in shown]
            mapped = [to_rgba(v)[:3] for v in bar.cmap(bar.norm(np.asarray(amount)))]
            same_size = size == "fraction" and norm != "full" and len(set(amount)) == 1  # no range to map
            ensure(same_size or near([tuple(v)[:3] for v in coll._facecolor3d], mapped), "colours are not those of the bar", where=where)
            label = bar.ax.get_ylabel() + bar.ax.get_xlabel()
            ensure(("raction" in label) == (size == "fraction"), "label of the bar: %s", label, where=where)
            if size != "fraction" and len(set(amount)) > 1:
                ensure(len(set(mapped)) > 1, "all sizes of one colour", where=where)
            lines = ax.get_lines()
            marks = look.get("highlight", [])
            ensure(len(lines) == len(marks) * len(shown), "%d highlights", len(lines), where=where)
            got = sorted((float(l.get_data_3d()[0][0]), float(l.get_data_3d()[1][0]), float(max(l.get_data_3d()[2]))) for l in lines)
            ensure(near(got, sorted((g * scale, z, ms.classprobs[g][c]) for g in marks for z, c in zip(rows, shown))) if got else True,
                   "highlights at %s", got, where=where)
            title = own.get_suptitle()
            if look.get("title", True) is False:
                ensure(title == "", "a title", where=where)
            elif look.get("title", True) is not True:
                ensure(title == look["title"], "title %s", title, where=where)
            else:
                ensure("%d/%d classes" % (len(shown), n) in title and "%d/%d models" % (sum(sizes[c] for c in shown), len(ms.results)) in title,
                       "title %s", title, where=where)
            if len(some) > 1:
                ensure(near(ax.get_xlim3d(), (some[0] * scale, some[-1] * scale)), "range of uncertainties", where=where)
            ensure(near(ax.get_zlim3d(), (0, 1)), "range of probabilities", where=where)
            cov.outcome((len(shown), n, size, norm, len(some), tuple(sorted(look))))
        plt.close("all")
        ensure(all(np.array_equal(before[0][g], ms.classprobs[g]) for g in before[0]) and before[1] == [list(c) for c in ms.classes]
               and base.same(before[2], base.results(ms)), "plotting changed the analysis")


LOOKS = [
    {},
    {"scale": 2.5},
    {"title": False, "figure": True},
    {"title": "own", "highlight": None, "highlight_cmap": "viridis"},
    {"cmap": "viridis", "p_alpha": 0.4, "cbpos": (0.9, 0.1, 0.03, 0.8)},
    {"subplot": 122, "orientation": "horizontal", "scale": 0.5, "highlight": None},
]


def cases_classplot(tier):
    sets = ([0.05, 0.1, 0.4], [0.02, 0.3])
    for func in base.FUNC if tier != "quick" else ("gor",):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for seq in itertools.product("aAbd" if tier != "quick" else "aAb", repeat=n):
                if tier == "quick" and n == 3 and len(set(seq)) < 2:
                    continue
                for i, dgs in enumerate(sets):
                    if n > 1 and tier == "quick" and (i + len(set(seq))) % 2:
                        continue
                    k = len(LOOKS) if tier != "quick" or seq == ("a", "A", "b") else 1
                    looks = LOOKS if k > 1 else [LOOKS[(sum(map(ord, seq)) + j) % len(LOOKS)] for j in range(2)]
                    looks = [{a: (b if b is not None else list(dgs[:2])) for a, b in x.items()} for x in looks]
                    yield {"func": func, "models": list(seq), "dgs": dgs, "looks": looks, "all": tier != "quick"}


# ------------------------------------------------------------------ animations
class Frames:
    """What is on the figure whenever it is drawn, and when the animation ends."""

    def __init__(self):
        self.frames = []

    def shot(self):
        fig = plt.gcf()
        out = []
        for ax in fig.axes:
            lines = [(np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel(), l.get_marker())
                     for l in ax.get_lines()]
            arrows = [(tuple(map(float, t.xy)), tuple(map(float, t.xyann))) for t in ax.texts if hasattr(t, "xyann")]
            out.append((lines, arrows, fig.get_suptitle()))
        self.frames.append(out)

    def __enter__(self):
        plt.close("all")
        self.old = (plt.draw, plt.pause)
        plt.draw = self.shot
        plt.pause = lambda *a: self.shot()
        return self

    def __exit__(self, *a):
        plt.draw, plt.pause = self.old
        plt.close("all")


def curves(ms, i):
    """Curves of the i-th result: data, and each peak over the baseline."""
    _, model, bl, dr = ms.results[i]
    r, y, _, _ = ms.ppe.resampledata(dr)
    b = bl.value(r)
    return [(r, y)] + [(r, b + p.value(r)) for p in model], r, y - b - sum((p.value(r) for p in model), 0.0 * r)


def shows(lines, ms, i, where, extra=0):
    want, r, res = curves(ms, i)
    left = [(x, y) for x, y, _ in lines]
    for x, y in want:
        hit = [n for n, (u, v) in enumerate(left) if near(u, x) and len(v) == len(y) and np.allclose(v, y, rtol=1e-7, atol=1e-9)]
        ensure(hit, "a curve of result %d is not shown", i, where=where)
        del left[hit[0]]
    ensure(len(left) == extra, "%d other curves", len(left), where=where)
    for u, v in left:  # the residual, shifted
        gap = v - res if len(v) == len(res) else None
        ensure(gap is not None and near(u, r) and np.ptp(gap) < 1e-7 * (1 + np.max(np.abs(res))), "the residual is not that of result %d", i,
               where=where)


def top(ms, g, classes):
    if not classes:
        return None, ms.maxprobmodel_bymodel(g)
    c = ms.get_class(g)
    return c, ms.get_model(g)


def run_animation(case, cov):
    with base.silent():
        for classes in (False, True):
            ms = selection(case, classes)
            before = base.results(ms)
            with Frames() as f:
                (ms.animate_classprobs if classes else ms.animate_probs)()
                if len(case["dgs"]) == 1:
                    f.shot()
            ensure(len(f.frames) >= max(1, len(case["dgs"]) - 1), "%d frames of %d", len(f.frames), len(case["dgs"]))
            # The first uncertainty may be shown without a frame of its own.
            shown = case["dgs"][-len(f.frames):]
            cov.trace()
            for g, axes in zip(shown, f.frames):
                cov.transition()
                where = "%s at %s" % ("classes" if classes else "models", g)
                c, m = top(ms, g, classes)
                probs = ms.classprobs[g] if classes else ms.aicprobs[g]
                xs = list(range(len(ms.classes))) if classes else [r[0] for r in ms.results]
                j = c if classes else m
                lines, _, _ = axes[0]
                ensure(any(near(x, xs) and near(y, probs) for x, y, k in lines), "the probabilities are not shown", where=where)
                dots = [(x, y) for x, y, k in lines if k == "o"]
                ensure(len(dots) == 1 and near(dots[0][0], [xs[j]]) and near(dots[0][1], [probs[j]]), "the best is marked at %s", dots, where=where)
                if classes:
                    arrows = [a for ax in axes for a in ax[1]]
                    ensure(len(arrows) == 1 and abs(arrows[0][0][1] - g) < 1e-12 and abs(arrows[0][1][1] - g) < 1e-12, "the arrow is at %s", arrows,
                           where=where)
                else:
                    ensure(any(near(x, [g, g]) for x, y, k in lines), "the line is not at the uncertainty", where=where)
                body = [ax for ax in axes[1:] if ax[0]]
                ensure(len(body) == 1, "%d plots of the model", len(body), where=where)
                shows(body[0][0], ms, m, where, extra=int(classes))
                cov.outcome((classes, j, len(ms.results[m][1])))
            ensure(base.same(base.results(ms), before), "the results changed")


def run_series(case, cov):
    with base.silent():
        pe = base.extraction(dict(case, base="line", nyquist=True, aicc=False))
        alpha = base.models(case["func"])
        ps = PeakStability()
        ps.setppe(pe)
        ps.results = [[MODEL_DGS[i], alpha[k][0].copy(), alpha[k][1].copy(), np.pi / QMAX] for i, k in enumerate(case["models"])]
        n = len(ps.results)
        before = base.results(ps)
        for start in [None] + list(range(n)):
            for some in [None] + [list(p) for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]:
                cov.trace()
                ps.setcurrent(start)
                with Frames() as f:
                    ps.animate(results=some)
                want = list(range(n)) if some is None else some
                ensure(len(f.frames) == len(want), "%d frames of %d", len(f.frames), len(want))
                for i, axes in zip(want, f.frames):
                    cov.transition()
                    where = "%s: result %d" % (some, i)
                    ensure(len(axes) == 1, "%d plots", len(axes), where=where)
                    shows(axes[0][0], ps, i, where)
                    ensure("[%d/%d]" % (i + 1, n) in axes[0][2] and "%.3f" % ps.results[i][0] in axes[0][2]
                           and "Peaks: %d." % len(ps.results[i][1]) in axes[0][2], "title %s", axes[0][2], where=where)
                ensure(ps.current == start and (ps.ppe.extracted is None) == (start is None), "the current result became %s", ps.current)
        ps.setcurrent(n - 1)
        plt.close("all")
        ps.plotseries()
        pts = sorted((round(float(x), 9), float(y)) for l in plt.gca().get_lines() for x, y in zip(l.get_xdata(), l.get_ydata()))
        want = sorted((round(float(p["position"]), 9), r[0]) for r in ps.results for p in r[1])
        ensure(near(pts, want) if want else not pts, "series shows %s instead of %s", pts, want)
        plt.close("all")
        ensure(base.same(base.results(ps), before), "the results changed")
        cov.outcome("".join(case["models"]))


def cases_animation(tier):
    sets = ([0.05, 0.1, 0.4, 0.9], [0.9, 0.02], [0.2])
    for func in base.FUNC:
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for seq in itertools.product("aAbdz", repeat=n):
                for i, dgs in enumerate(sets):
                    if tier == "quick" and n == 3 and (i or func != "gor"):
                        continue
                    yield {"func": func, "models": list(seq), "dgs": dgs}


def cases_series(tier):
    for func in base.FUNC:
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for seq in itertools.product("abdz", repeat=n):
                if tier == "quick" and n == 3 and len(set(seq)) < 3:
                    continue
                yield {"func": func, "models": list(seq)}


logging.getLogger("matplotlib").setLevel(logging.ERROR)

CHECK = Check(
    "C26",
    "model_checking",
    [
        Scenario("classplot", cases_classplot, run_classplot, timeout=600,
                 doc="every combination of options of the plot of class probabilities over sequences of models"),
        Scenario("animation", cases_animation, run_animation, timeout=300,
                 doc="every frame of the animations over sequences of models and uncertainties"),
        Scenario("series", cases_series, run_series, timeout=300,
                 doc="every frame of animations of results, in every order and from every current result"),
    ],
    rule="probabilities, classes and results held by the analysis, drawn on the figure frame by frame",
)
