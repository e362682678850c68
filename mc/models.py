"""Functions under test, and independent reference formulas for their values."""
import numpy as np

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

S2F = 2 * np.sqrt(2 * np.log(2))
SEQX = np.arange(0.0, 12.25, 0.25)
SEQY = 0.3 * np.sin(SEQX) - 0.1 * SEQX


def arb_value(pars, x):
    return pars[0] * np.exp(-pars[1] * x) + pars[2] * x


def arb_jac(pars, x, free):
    j = [np.exp(-pars[1] * x), -pars[0] * x * np.exp(-pars[1] * x), x * 1.0]
    return [a if f else None for a, f in zip(j, free)]


def arb_est(x, y):
    return np.array([1.0, 0.5, 0.0])


def make(name):
    """A fresh function by name."""
    kind, _, arg = name.partition(":")
    if kind == "gauss":
        return Gaussian(float(arg))
    if kind == "gor":
        return GaussianOverR(float(arg))
    if kind == "tr":  # tr:<base>:<mw>/<qmax>
        base, q = arg.split("/")
        return TerminationRipples(make(base), float(q))
    if kind == "poly":
        return Polynomial(int(arg))
    if kind == "nano":
        return NanoSpherical()
    if kind == "seq":
        return FromSequence(SEQX, SEQY)
    if kind == "arb":
        return Arbitrary(3, arb_value, arb_jac, arb_est)
    if kind == "arb0":
        return Arbitrary(3, arb_value)
    raise KeyError(name)


def is_peak(name):
    return name.split(":")[0] in ("gauss", "gor", "tr")


def part_class(name):
    return Peak if is_peak(name) else Baseline


def ref_value(name, pars, r):
    """Reference value for internal parameters, array r (None if not known)."""
    kind, _, arg = name.partition(":")
    r = np.asarray(r, dtype=float)
    pars = [float(p) for p in pars]
    if kind in ("gauss", "gor"):
        fwhm = float(arg) * np.sqrt(0.5 * (np.sin(pars[1]) + 1.0))
        s = fwhm / S2F
        v = abs(pars[2]) / (s * np.sqrt(2 * np.pi)) * np.exp(-((r - pars[0]) ** 2) / (2 * s * s))
        return v if kind == "gauss" else v / np.abs(r)
    if kind == "poly":
        n = len(pars)
        return sum((pars[k] * r ** (n - 1 - k) for k in range(n)), 0.0 * r)
    if kind == "nano":
        R, s = abs(pars[1]), abs(pars[0])
        v = -s * r * (1 - 3 * r / (4 * R) + r**3 / (16 * R**3))
        return np.where((r > 0) & (r < 2 * R), v, 0.0)
    if kind in ("arb", "arb0"):
        return arb_value(pars, r)
    if kind == "seq":
        from scipy.interpolate import InterpolatedUnivariateSpline

        return InterpolatedUnivariateSpline(SEQX, SEQY)(r)
    return None
