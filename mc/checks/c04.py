"""C04: peak parameters keep their meaning in every format."""
import itertools

import numpy as np

from diffpy.srmise.srmiseerrors import SrMiseTransformationError
from mc.harness import Check, Scenario, ensure
from mc.models import S2F, Peaks, is_peak, make, part_class, ref_value

PEAKS = ["gauss:0.7", "gor:0.7", "gauss:3.0", "gor:3.0", "gauss:0.05", "gor:0.05", "tr:gor:0.7/20.0", "tr:gauss:0.7/10.0"]
FORMATS = ["internal", "pwa", "mu_sigma_area"]
R = np.array([0.4, 1.0, 1.5, 1.9, 1.97, 2.0, 2.05, 2.4, 3.0, 4.5])
TYPES = ["list", "tuple", "array", "object"]


def maxwidth(name):
    base = name[3:].split("/")[0] if name.startswith("tr:") else name
    return float(base.split(":")[1])


def base_of(name):
    return name[3:].split("/")[0] if name.startswith("tr:") else name


def value(name, pos, fwhm, area):
    s = fwhm / S2F
    v = abs(area) / (s * np.sqrt(2 * np.pi)) * np.exp(-((R - pos) ** 2) / (2 * s * s))
    return v if base_of(name).startswith("gauss") else v / R


def as_type(pars, t):
    if t == "list":
        return list(pars)
    if t == "tuple":
        return tuple(pars)
    if t == "array":
        return np.array(pars, dtype=float)
    return np.array(pars)  # ints stay ints


def written(name, fmt, pos, fwhm, area):
    if fmt == "pwa":
        return [pos, fwhm, area]
    if fmt == "mu_sigma_area":
        return [pos, fwhm / S2F, area]
    m = maxwidth(name)
    return [pos, np.arcsin(min(1.0, 2 * fwhm**2 / m**2 - 1)), area]


def near(a, b, m=1.0):
    return np.allclose(np.asarray(a, dtype=float), b, rtol=1e-6, atol=1e-9)


def run_round(case, cov):
    """A physical peak given in any format means the same in any other."""
    name, pos, frac, area = case["f"], case["pos"], case["frac"], case["area"]
    f = make(name)
    m = maxwidth(name)
    fwhm = frac * m
    for fin, fout, t in itertools.product(FORMATS, FORMATS, TYPES):
        given = written(name, fin, pos, fwhm, area)
        arg = as_type(given, t)
        keep = as_type(given, t)
        got = f.transform_parameters(arg, fin, fout)
        ensure(np.array_equal(arg, keep), "the input was changed", where=[fin, fout, t])
        # the width is given exactly to a part in 1e6 except where the map is flat
        back = {k: v for k, v in zip("pwa", np.asarray(f.transform_parameters(got, fout, "pwa"), dtype=float))}
        ensure(abs(back["p"] - pos) < 1e-9 and abs(back["a"] - area) < 1e-9, "position or area changed", where=[fin, fout, t])
        ensure(abs(back["w"] - fwhm) < 1e-6 * m, "width %s became %s", fwhm, back["w"], where=[fin, fout, t])
        if fout != "internal":
            ensure(
                np.allclose(np.asarray(got, dtype=float), written(name, fout, pos, fwhm, area), rtol=1e-9, atol=1e-6 * m),
                "%s instead of %s", got, written(name, fout, pos, fwhm, area), where=[fin, fout, t],
            )
        peak = f.actualize(arg, fin)
        ensure(
            np.allclose(ref_value(base_of(name), peak.pars, R), value(name, pos, fwhm, area), rtol=1e-4, atol=1e-12 + 1e-7 * area / m),
            "the peak is not the one described", where=[fin, t],
        )
        ensure(peak.removable is True and peak.free.all() and peak.owner() is f, "flags of a new peak", where=[fin, t])
    # default formats
    given = written(name, "internal", pos, fwhm, area)
    for a, b in itertools.product((None, "default_input"), (None, "default_output")):
        got = f.transform_parameters(given, a, b)
        ensure(near(got, f.transform_parameters(given, "internal", "pwa")), "default formats", where=[a, b])
    got = f.transform_parameters(written(name, "pwa", pos, fwhm, area), "default_output", "default_input")
    ensure(near(got, f.transform_parameters(written(name, "pwa", pos, fwhm, area), "pwa", "internal")), "default formats swapped")
    peak = f.actualize(given)
    ensure(near(peak.pars, f.transform_parameters(given, "internal", "internal")), "default input format of a new peak")
    return repr(case)


def round_cases(tier):
    fr = [0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0]
    if tier == "thorough":
        fr = sorted(set(fr + [k / 64 for k in range(1, 65)]))
    for f in PEAKS:
        for pos in (2, 2.0, 1.37, 12):
            for frac in fr:
                for area in (5, 0.001, 1e4, 0.0):
                    yield {"f": f, "pos": pos, "frac": frac, "area": area}


def run_internal(case, cov):
    """Every real internal parameter is a physical peak within the limits; normalizing keeps the function."""
    name = case["f"]
    f = make(name)
    m = maxwidth(name)
    pars = [case["pos"], case["p1"], case["area"]]
    v = ref_value(base_of(name), pars, R)
    norm = np.asarray(f.transform_parameters(pars, "internal", "internal"), dtype=float)
    ensure(-np.pi / 2 - 1e-9 <= norm[1] <= np.pi / 2 + 1e-9, "width parameter %s not normalized", norm[1])
    ensure(norm[2] >= 0 and norm[0] == pars[0], "position or area not normalized: %s", norm)
    ensure(np.allclose(ref_value(base_of(name), norm, R), v, rtol=1e-5, atol=1e-9), "normalizing changed the peak")
    twice = f.transform_parameters(norm, "internal", "internal")
    ensure(near(twice, norm), "normalizing twice")
    pwa = np.asarray(f.transform_parameters(pars, "internal", "pwa"), dtype=float)
    ensure(0 <= pwa[1] <= m * (1 + 1e-12), "width %s outside 0..%s", pwa[1], m)
    ensure(np.allclose(value(name, *pwa), v, rtol=1e-5, atol=1e-9), "the description of the peak is wrong")
    msa = np.asarray(f.transform_parameters(pars, "internal", "mu_sigma_area"), dtype=float)
    ensure(np.allclose([msa[0], msa[1] * S2F, msa[2]], pwa, rtol=1e-9), "width and sigma disagree")
    ps = Peaks([part_class(name)(f, pars)])
    ps.transform("internal", "pwa")
    ensure(near(ps[0].pars, pwa), "transforming a model")
    ps.transform("pwa", "internal")
    ensure(np.allclose(ref_value(base_of(name), ps[0].pars, R), v, rtol=1e-4, atol=1e-8), "transforming a model back")
    ensure(np.allclose(eval_numbers(str(part_class(name)(f, pars))), pwa, rtol=1e-5, atol=1e-7), "printed peak")
    return repr(case)


def eval_numbers(s):
    return [float(x) for x in s.strip().strip("[]").split()]


def internal_cases(tier):
    w = [-1.2, -0.3, 0.0, 0.5, 1.5, 1.7, 2.5, 3.0, 4.5, 7.0, -2.0, -3.2, -8.0, 11.0]
    if tier == "thorough":
        w += [k * 0.37 for k in range(-60, 61)]
    for f in PEAKS:
        for p1 in w:
            for pos in (2.0, 1.0):
                for area in (5.0, -5.0, 0.5):
                    if abs(np.sin(p1) + 1) > 1e-3:
                        yield {"f": f, "pos": pos, "p1": p1, "area": area}


def run_refused(case, cov):
    name = case["f"]
    f = make(name)
    m = maxwidth(name)
    w = m * case["frac"]
    given = [2.0, w if case["fmt"] == "pwa" else w / S2F, 1.0]
    for out in FORMATS:
        if out == case["fmt"]:
            continue
        try:
            f.transform_parameters(given, case["fmt"], out)
        except SrMiseTransformationError:
            pass
        else:
            ensure(False, "a width over the limit was accepted", where=out)
    try:
        f.actualize(given, case["fmt"])
    except SrMiseTransformationError:
        pass
    else:
        ensure(False, "a peak over the width limit was made")
    return repr(case)


def refused_cases(tier):
    for f in PEAKS:
        for fmt in ("pwa", "mu_sigma_area"):
            for frac in (1.0001, 1.1, 2.0, 100.0):
                yield {"f": f, "fmt": fmt, "frac": frac}


def run_names(case, cov):
    f = make(case["f"])
    pars = [1.0] * f.npars
    known = list(f.parformats) + ["default_input", "default_output"]
    for a, b in itertools.product(known + ["nonsense", "", 3], repeat=2):
        ok = a in known and b in known
        for call in (f.transform_parameters, f.transform_derivatives):
            try:
                call(pars, a, b)
            except ValueError:
                ensure(not ok, "formats %s to %s refused", a, b)
            except (NotImplementedError, SrMiseTransformationError):
                ensure(ok, "formats %s to %s not refused", a, b)
            else:
                ensure(ok, "formats %s to %s accepted", a, b)
    return case["f"]


def name_cases(tier):
    for f in PEAKS + ["poly:1", "poly:-1", "nano", "seq", "arb"]:
        yield {"f": f}


def run_gradient(case, cov):
    """Where the derivatives of one format by another are offered they are right."""
    name = case["f"]
    f = make(name)
    m = maxwidth(name)
    given = np.array(written(name, case["in"], case["pos"], case["frac"] * m, case["area"]), dtype=float)
    try:
        g = np.asarray(f.transform_derivatives(given, case["in"], case["out"]), dtype=float)
    except NotImplementedError:
        ensure(case["in"] != case["out"], "identity not offered")
        ensure(not base_of(name).startswith("gor"), "derivatives are not offered any more")
        return "none"
    ensure(g.shape == (3, 3), "shape %s", g.shape)
    num = np.zeros((3, 3))
    for j in range(3):
        h = 1e-6 * m
        up, dn = given.copy(), given.copy()
        up[j] += h
        dn[j] -= h
        u = np.asarray(f.transform_parameters(up, case["in"], case["out"]), dtype=float)
        d = np.asarray(f.transform_parameters(dn, case["in"], case["out"]), dtype=float)
        num[:, j] = (u - d) / (2 * h)
    ensure(np.allclose(g, num, rtol=1e-4, atol=1e-5), "derivatives %s instead of %s", g.tolist(), num.tolist())
    return repr(case)


def gradient_cases(tier):
    for f in PEAKS:
        for a, b in itertools.product(FORMATS, FORMATS):
            for frac in (0.1, 0.4, 0.7, 0.95):
                for pos, area in ((2.0, 5.0), (10.0, 0.3)):
                    yield {"f": f, "in": a, "out": b, "frac": frac, "pos": pos, "area": area}


CHECK = Check(
    "C04",
    "exploration",
    [
        Scenario("names", name_cases, run_names, doc="every pair of format names, valid or not, for 13 functions"),
        Scenario("round", round_cases, run_round, doc="8 peak functions x 4 positions x 8 (72) widths x 4 areas x 9 format pairs x 4 container types"),
        Scenario("internal", internal_cases, run_internal, doc="8 peak functions x 14 (135) unconstrained widths x 2 positions x 3 areas"),
        Scenario("refused", refused_cases, run_refused, doc="widths over the limit"),
        Scenario("gradient", gradient_cases, run_gradient, doc="all format pairs x 4 widths x 2 peaks against central differences"),
    ],
    rule="every combination of the listed alphabets; distinct by the case",
)
