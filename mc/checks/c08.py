"""C08: termination ripples are the peak seen through a finite range of reciprocal space."""
import numpy as np

from mc.harness import Check, Scenario, ensure
from mc.models import S2F, make

from diffpy.srmise.peaks.terminationripples import TerminationRipples


def analytic(over, pos, w, area, q, r):
    s = w / S2F
    if not over:
        k = np.linspace(0, q, 2001)
        c = np.full(len(k), k[1] - k[0])
        c[0] = c[-1] = 0.5 * c[0]
        return (area / np.pi * np.exp(-((s * k) ** 2) / 2) * np.cos(k * (r[:, None] - pos))) @ c
    x = np.arange(max(0.002, pos - 8 * s), pos + 8 * s, 0.002)
    f = area / (s * np.sqrt(2 * np.pi)) * np.exp(-((x - pos) ** 2) / (2 * s * s)) / x
    return (f * q / np.pi * np.sinc(q * (r[:, None] - x) / np.pi)).sum(1) * 0.002


def run(case, cov):
    q, base = case["q"], case["base"]
    f = make("tr:%s:0.7/%s" % (base, q))
    p = f.actualize([case["pos"], case["w"], 5.0], "pwa")
    dr = case["dr"] if case["dr"] > 0 else np.pi / q
    r = np.arange(case["lo"], case["hi"], dr)
    a = analytic(base == "gor", case["pos"], case["w"], 5.0, q, r)
    b = f.base.actualize([case["pos"], case["w"], 5.0], "pwa").value(r)
    keep = r.copy()
    v = np.asarray(p.value(r))
    amp = np.abs(a).max()
    tol = 0.1 * np.abs(a - b).max() + 2e-3 * amp
    ensure(v.shape == r.shape and np.abs(v - a).max() < tol, "off by %s (allowed %s)", np.abs(v - a).max(), tol)
    # a range inside, at the edges, of one point
    n = len(r)
    for rng in (slice(0, n), slice(None), slice(n // 3, 2 * n // 3), slice(0, n // 2), slice(n // 2, n), slice(-1, None), slice(3, 4)):
        z = np.asarray(p.value(r, rng))
        ensure(np.abs(z[rng] - a[rng]).max() < 1.5 * tol + 0.06 * amp, "off by %s in a range", np.abs(z[rng] - a[rng]).max(), where=str(rng))
        out = np.ones(n, dtype=bool)
        out[rng] = False
        ensure(not z[out].any(), "value outside the range", where=str(rng))
    for i in range(0, n, max(1, n // 7)):
        for x in (float(r[i]), r[i]):
            s = p.value(x)
            ensure(np.ndim(s) == 0 and abs(float(s) - a[i]) < 0.15 * np.abs(a - b).max() + 0.035 * amp, "at %s: %s, not %s", x, s, a[i])
        s = p.value(np.array([r[i]]))
        ensure(s.shape == (1,) and np.isclose(s[0], float(p.value(float(r[i]))), rtol=1e-9), "an array of one point")
    ensure(np.array_equal(keep, r), "the grid was changed")
    # parameters, estimates and scaling are those of the peak without ripples
    pars = [case["pos"], case["w"], 5.0]
    for fmt in ("internal", "mu_sigma_area"):
        ensure(np.allclose(f.transform_parameters(pars, "pwa", fmt), f.base.transform_parameters(pars, "pwa", fmt)), "parameters in format %s", fmt)
    return repr(case)


def cases(tier):
    for base in ("gauss", "gor"):
        for q in (10.0, 20.0):
            for w in (0.15, 0.25, 0.4, 0.6):
                for dr in (0.01, 0.05, 0.1, 0.0):
                    for lo, hi in ((1.0, 6.0), (0.1, 6.0), (0.5, 12.0), (2.0, 4.0)):
                        for pos in (3.0, 2.57) if tier == "quick" else (3.0, 2.57, 2.3, 3.4, 3.77):
                            yield {"base": base, "q": q, "w": w, "dr": dr, "lo": lo, "hi": hi, "pos": pos}


def run_edge(case, cov):
    """Whatever the first point of the grid, the ripples stay of the size of the peak."""
    f = make("tr:%s:0.7/%s" % (case["base"], case["q"]))
    p = f.actualize([2.0, 0.69, 5.0], "pwa")
    r = case["r0"] + case["dr"] * np.arange(int(4.0 / case["dr"]))
    v = np.asarray(p.value(r))
    b = np.asarray(f.base.actualize([2.0, 0.69, 5.0], "pwa").value(r))
    top = f.base.max(p.pars)[1]
    ensure(np.isfinite(v).all() and np.abs(v - b).max() < 0.15 * top, "off by %s", np.abs(v - b).max())
    j = p.jacobian(r)
    ensure(all(np.isfinite(x).all() and np.abs(x).max() < 1e3 for x in j), "derivatives near the origin")
    return repr(case)


def edge_cases(tier):
    n = 60 if tier == "quick" else 200
    for base in ("gauss", "gor"):
        for q in (10.0, 20.0):
            for dr in (0.01, 0.02, 0.1):
                for k in range(1, n):
                    yield {"base": base, "q": q, "dr": dr, "r0": k * dr}
                    yield {"base": base, "q": q, "dr": dr, "r0": (k + 0.5) * dr}


def run_outside(case, cov):
    """Peaks outside the grid show their ripples in it, as far as the extension reaches."""
    q, ext, w, pos = case["q"], case["ext"], case["w"], case["pos"]
    base = make("%s:0.7" % case["base"])
    f = TerminationRipples(base, q, extension=ext, supersample=case["ss"])
    dr = case["dr"] if case["dr"] > 0 else np.pi / q
    r = np.arange(5.0, 9.0, dr)
    full = np.arange(3.0, 11.0, 0.01)
    over = case["base"] == "gor"
    af = analytic(over, pos, w, 5.0, q, full)
    rip = np.abs(af - np.asarray(base.actualize([pos, w, 5.0], "pwa").value(full))).max()
    tol = 0.1 * rip + 2e-3 * np.abs(af).max()
    p = f.actualize([pos, w, 5.0], "pwa")
    v = np.asarray(p.value(r))
    a = analytic(over, pos, w, 5.0, q, r)
    ensure(np.abs(v - a).max() < (tol if ext < 8 else 0.6 * tol), "off by %s (allowed %s)", np.abs(v - a).max(), tol)
    # derivatives are those of the very same value
    jac = p.jacobian(r)
    for k, h in enumerate((1e-6, 1e-6, 1e-6)):
        lo, hi = p.copy(), p.copy()
        lo.pars[k] -= h
        hi.pars[k] += h
        d = (np.asarray(hi.value(r)) - np.asarray(lo.value(r))) / (2 * h)
        ensure(np.allclose(jac[k], d, rtol=1e-4, atol=1e-5 * (1 + np.abs(d).max())), "derivative %s off by %s", k, np.abs(jac[k] - d).max())
    n = len(r)
    for rng in (slice(0, n // 2), slice(n // 2, n), slice(2, 5)):
        z = np.asarray(p.value(r, rng))
        ensure(np.abs(z[rng] - a[rng]).max() < 1.5 * tol + 0.06 * np.abs(af).max(), "off in %s", rng)
        zj = p.jacobian(r, rng)
        for k in range(3):
            out = np.ones(n, dtype=bool)
            out[rng] = False
            ensure(not np.asarray(zj[k])[out].any(), "derivative outside the range %s", rng)
    return repr(case)


def outside_cases(tier):
    for base in ("gauss", "gor"):
        for q in (10.0, 20.0, 25.0):
            for ext in (4.0, 8.0, 16.0):
                for ss in (5.0, 20.0) if tier == "quick" else (5.0, 8.0, 13.0, 20.0):
                    for w in (0.15, 0.3, 0.6):
                        for dr in (0.01, 0.1, 0.0):
                            for off in (-0.6, -0.3, -0.1, 0.0, 0.5):
                                if -off < ext * 2 * np.pi / q - 2 * w:
                                    yield {"base": base, "q": q, "ext": ext, "ss": ss, "w": w, "dr": dr, "pos": 5.0 + off}
                                    yield {"base": base, "q": q, "ext": ext, "ss": ss, "w": w, "dr": dr, "pos": 9.0 - off}


CHECK = Check(
    "C08",
    "exploration",
    [
        Scenario("ripples", cases, run, doc="2 functions x 2 cut-offs x 4 widths x 4 spacings x 4 intervals x 2 (5) positions, 7 ranges and 7 numbers each"),
        Scenario("outside", outside_cases, run_outside, doc="2 functions x 3 cut-offs x 3 extensions x 2 (4) densities x 3 widths x 3 spacings x 10 positions at and beyond both ends: value, derivatives, ranges"),
        Scenario("edge", edge_cases, run_edge, doc="every start of the grid at the first 60 (200) multiples and half-multiples of 3 spacings"),
    ],
    rule="every combination of the listed alphabets; distinct by the case",
    assumptions=["uniform grids", "accuracy within a tenth of the ripple, as the discrete transform allows"],
)
