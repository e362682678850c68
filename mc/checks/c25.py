"""C25: resampling interpolates exactly as a band-limited function, and estimates follow their definitions."""
import itertools
import logging

import numpy as np

from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, find_qmax, resample, stdratio
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.baselines.polynomial import Polynomial
from mc.harness import Check, Scenario, ensure

logging.getLogger("diffpy.srmise").setLevel(logging.CRITICAL)


def direct(x, y, r):
    """Whittaker-Shannon interpolation, by its formula."""
    x, y, r = np.asarray(x, dtype=float), np.asarray(y, dtype=float), np.asarray(r, dtype=float)
    dx = (x[-1] - x[0]) / (len(x) - 1)
    t = (r[:, None] - (x[0] + dx * np.arange(len(x)))[None, :]) / dx
    small = np.abs(t) < 1e-12
    k = np.where(small, 1.0, np.sin(np.pi * np.where(small, 1.0, t)) / (np.pi * np.where(small, 1.0, t)))
    return k @ y


# ------------------------------------------------------------------- resample
STARTS = (0.0, 0.01, 0.5, 1.0, -2.0, -0.37, 7.3)
STEPS = (0.01, 0.1, 0.25, 1.0, np.pi / 17)
GRIDS = ("same", "half", "third", "shift", "sub", "single", "double", "before", "after", "far", "uneven")
KINDS = ("array", "list", "int", "tuple")


def grid(name, x, dx):
    n = len(x)
    return {
        "same": x,
        "half": x[0] + 0.5 * dx * np.arange(2 * n - 1),
        "third": x[0] + dx / 3 * np.arange(3 * n - 2),
        "shift": x + 0.3 * dx,
        "sub": x[n // 3: n // 3 + max(2, n // 2)],
        "single": np.array([x[0] + 0.7 * dx]),
        "double": x[::2],
        "before": x - 1.6 * dx,
        "after": x + 2.5 * dx,
        "far": np.array([x[0] - 50 * dx, x[-1] + 50.3 * dx]),
        "uneven": np.array([x[0], x[0] + 0.1 * dx, x[-1] - 0.2 * dx, x[-1]]),
    }[name]


def run_resample(case, cov):
    n, dx = case["n"], case["dx"]
    x = case["x0"] + dx * np.arange(n)
    r = np.array(grid(case["grid"], x, dx), dtype=float)
    vectors = [np.eye(n)[i] for i in range(n)] + [np.ones(n), np.arange(n) - 1.0, (-1.0) ** np.arange(n), np.zeros(n)]
    total = 0.0
    for y in vectors:
        want = direct(x, y, r)
        if case["kind"] == "list":
            args = list(x), list(y), r
        elif case["kind"] == "tuple":
            args = tuple(x), tuple(y), r
        elif case["kind"] == "int":
            args = x, y.astype(int), r
        else:
            args = x, y, r
        keep = [np.array(a, dtype=float) for a in args]
        got = resample(*args)
        ensure(np.shape(got) == r.shape, "%s values for %s points", np.shape(got), r.shape)
        ensure(np.allclose(got, want, rtol=1e-9, atol=1e-9), "resampled to %s instead of %s", got, want, where=str(list(y)))
        ensure(all(np.array_equal(a, b) for a, b in zip(args, keep)), "the data changed")
        if case["grid"] in ("same", "double", "sub"):
            i = {"same": slice(None), "double": slice(None, None, 2), "sub": slice(n // 3, n // 3 + max(2, n // 2))}[case["grid"]]
            ensure(np.allclose(got, y[i], atol=1e-9), "the data are not kept at their own points")
        total += float(np.abs(got).sum())
        cov.transition()
    cov.outcome((n, dx, case["x0"], case["grid"], round(total, 6)))


def cases_resample(tier):
    for n in (2, 3, 4, 5, 8, 13) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 13, 21, 40):
        for dx in STEPS:
            for x0 in STARTS:
                for g in GRIDS:
                    for kind in KINDS:
                        yield {"n": n, "dx": float(dx), "x0": x0, "grid": g, "kind": kind}


# ------------------------------------------------------------------- resampledata
def run_data(case, cov):
    x = case["x0"] + case["step"] * np.arange(case["n"])
    y = np.sin(2.1 * x) + 0.3 * np.cos(5 * x)
    dx = None if case["dx"] is None else (0.01 + 0.002 * np.arange(len(x)))
    dy = 0.1 + 0.05 * np.cos(1.3 * x)
    pe = PDFPeakExtraction()
    pe.setdata(x, y, dx)
    lo, hi = case["rng"]
    rng = [x[0] + lo * (x[-1] - x[0]), x[0] + hi * (x[-1] - x[0])]
    kw = {"qmax": case["qmax"], "rng": rng, "effective_dy": dy}
    for k in ("nyquist", "scale"):
        if case[k] is not None:
            kw[k] = case[k]
    pe.setvars(quiet=True, pf=[Gaussian(0.7)], baseline=Polynomial(-1), **kw)
    for step in case["steps"]:
        got = pe.resampledata(step)
        ensure(len(got) == 4, "%d arrays", len(got))
        r, gy, gdx, gdy = got
        start, stop = max(x[0], rng[0]), min(x[-1], rng[1])
        ensure(len(r) >= 1 and abs(r[0] - start) < 1e-9, "the grid starts at %s instead of %s", r[0], start)
        ensure(np.allclose(r, start + step * np.arange(len(r)), atol=1e-9), "the grid is not even")
        ensure(r[-1] < stop + 1e-9 and r[-1] + step >= stop - 1e-9, "the grid ends at %s for %s", r[-1], stop)
        ensure(np.allclose(gy, direct(x, y, r), rtol=1e-9, atol=1e-9), "values")
        nyquist = case["qmax"] > 0 if case["nyquist"] is None else case["nyquist"]
        scale = bool(case["scale"])
        factor = 1.0
        if case["qmax"] > 0 and nyquist and scale and step < np.pi / case["qmax"]:
            factor = (np.pi / case["qmax"] / step) ** 0.5
        ensure(abs(pe.errorscale(step) - factor) < 1e-12 * factor, "scale of uncertainties %s instead of %s", pe.errorscale(step), factor)
        want = []
        for a in r:
            i = min(max(int((a - x[0]) / case["step"] + 1e-9), 0), len(x) - 2)
            t = (a - x[i]) / (x[i + 1] - x[i])
            want.append((1 - t) * dy[i] + t * dy[i + 1])
        ensure(np.allclose(gdy, factor * np.array(want), rtol=1e-6), "uncertainties")
        if dx is None:
            ensure(gdx is None or not np.any(gdx), "uncertainties of the positions out of nothing")
        else:
            ensure(np.allclose(gdx, np.interp(r, x, dx)), "uncertainties of the positions")
        ensure(np.array_equal(pe.x, x) and np.array_equal(pe.y, y) and np.array_equal(pe.effective_dy, dy) and list(pe.rng) == rng,
               "resampling changed the data")
        cov.transition()
        cov.outcome((case["n"], case["qmax"], nyquist, scale, round(step, 6), len(r)))


def cases_data(tier):
    for n in (8, 30) if tier == "quick" else (8, 9, 30, 77):
        for x0 in (0.05, 1.0, 3.3):
            for step in (0.05, 0.2):
                for qmax in (0.0, 6.0, 15.0, 40.0):
                    for nyquist in (None, True, False):
                        if nyquist and not qmax:
                            continue
                        for scale in (None, True, False):
                            for dx in (None, 1):
                                for rng in ((0.0, 1.0), (0.2, 0.9), (-0.5, 0.6), (0.31, 1.7), (-1, 2)):
                                    q = np.pi / qmax if qmax else 0.1
                                    yield {"n": n, "x0": x0, "step": step, "qmax": qmax, "nyquist": nyquist, "scale": scale, "dx": dx, "rng": rng,
                                           "steps": [step, step / 3, q, q / 4, q / 1.7, 1.3 * q]}


# ------------------------------------------------------------------- stdratio
def run_stdratio(case, cov):
    for tail in itertools.product(case["alpha"], repeat=case["free"]):
        data = [float(v) for v in case["head"] + list(tail)]
        n = len(data)
        want = [(np.std(data[: i + 2]), np.std(data[i + 2: 2 * i + 4])) for i in range(n // 2 - 1)]
        with np.errstate(all="ignore"):
            got = stdratio(np.array(data) if case["array"] else data)
        ensure(len(got) == len(want), "%d ratios of %d data", len(got), n, where=str(data))
        for i, (g, (a, b)) in enumerate(zip(got, want)):
            if b > 1e-9:
                ensure(abs(g - a / b) < 1e-6 * (1 + a / b), "ratio %d is %s instead of %s", i, g, a / b, where=str(data))
        cov.transition()
    cov.outcome((case["head"], n))


def cases_stdratio(tier):
    for alpha in ([0, 1, 5], [-2, 0.5, 3], [1e3, 1001, 999.5]):
        for n in range(2, 10 if tier == "quick" else 13):
            for head in itertools.product(alpha, repeat=max(0, n - 6)):
                for array in (True, False):
                    yield {"alpha": alpha, "head": list(head), "free": min(n, 6), "array": array}


# ------------------------------------------------------------------- find_qmax
def run_qmax(case, cov):
    n, dr = case["n"], case["dr"]
    r = case["r0"] + dr * np.arange(n)
    y = np.zeros(n)
    for i in range(n):  # a fixed sequence of digits as noise
        y[i] = case["noise"] * (((7919 * (i + case["seq"]) ** 2 + 104729 * i) % 1013) / 506.0 - 1)
    q = np.linspace(0, case["qmax"], 400)
    f = sum(a * np.sin(q * p) * np.exp(-((q * 0.04) ** 2)) for p, a in case["peaks"])
    y += np.array([np.sum(f * np.sin(q * v)) for v in r]) * (q[1] - q[0])
    m = 2 * n
    new = np.linspace(r[0], r[-1], m)
    yy = direct(r, y, new)
    k = np.arange(m // 2)
    spectrum = -(np.sin(2 * np.pi * np.outer(k, np.arange(m)) / m) @ yy)
    ratio = np.array([np.std(spectrum[: i + 2]) / np.std(spectrum[i + 2: 2 * i + 4]) for i in range(len(spectrum) // 2 - 1)])
    bend = -(ratio[2:] - 2 * ratio[1:-1] + ratio[:-2])
    keep = r.copy(), y.copy()
    got, dq = find_qmax(r, y)
    ensure(np.array_equal(keep[0], r) and np.array_equal(keep[1], y), "the data changed")
    # dq of the refined grid times the place of the bend
    fine = 2 * np.pi / (r[-1] - r[0])
    ensure(abs(dq - fine) < 1e-9 * fine, "uncertainty %s instead of %s", dq, fine)
    place = got / fine
    ensure(abs(place - round(place)) < 1e-6, "%s is no frequency of the transform", got)
    i = int(round(place)) - 2
    ensure(0 <= i < len(bend) and bend[i] >= bend.max() - 1e-6 * (1 + abs(bend.max())), "the jump is at %s, not at %s",
           int(np.argmax(bend)) + 2, i + 2)
    for bad in (y[:-1], np.append(y, 0.0), y[:0]):
        try:
            find_qmax(r, bad)
        except ValueError:
            pass
        else:
            ensure(False, "data of different lengths were accepted")
    # and used where it is asked for
    pe = PDFPeakExtraction()
    pe.setdata(r, y)
    ensure(pe.qmax_fromdata == got, "another value is kept")
    pe.setvars(quiet=True, qmax="automatic")
    ensure(pe.qmax == got, "another value is used")
    cov.outcome((n, dr, case["qmax"], round(got, 6)))


def cases_qmax(tier):
    for n in (24, 61, 120) if tier == "quick" else (24, 25, 61, 120, 233):
        for dr in (0.02, 0.1, 0.2):
            for r0 in (0.1, 1.0):
                for qmax in (5.0, 9.0, 12.0):
                    for peaks in ([[2.0, 1.0]], [[1.5, 1.0], [3.7, 2.0]]):
                        for noise in (0.0, 1e-3, 0.05):
                            for seq in (0, 5):
                                yield {"n": n, "dr": dr, "r0": r0, "qmax": qmax, "peaks": peaks, "noise": noise, "seq": seq}


CHECK = Check(
    "C25",
    "exploration",
    [
        Scenario("resample", cases_resample, run_resample, timeout=60,
                 doc="every basis vector of data of the listed lengths, from every grid to every other one (resampling is linear, so this decides all data)"),
        Scenario("resampledata", cases_data, run_data, timeout=60, doc="all combinations of data, range, maximum momentum, sampling, scaling and interval"),
        Scenario("stdratio", cases_stdratio, run_stdratio, timeout=120, doc="every sequence over three alphabets of length 2 to 9 (thorough 12)"),
        Scenario("find_qmax", cases_qmax, run_qmax, timeout=60, doc="all listed grids, cut-offs, peaks and disturbances"),
    ],
    rule="the interpolation formula, standard deviations and the sine transform computed directly",
)
