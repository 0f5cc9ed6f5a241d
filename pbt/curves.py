"""Generated dc I-V curves and Kramers-Kronig reference values."""

import numpy as np
from hypothesis import strategies as st
from scipy.special import dawsn, erf

from pbt.core import grid


def logistic(x):
    return 0.5 * (1 + np.tanh(0.5 * x))


def ref_exponential(v, vgap, rn, rsg, agap):
    """Subgap and normal branches joined by two logistic transitions (the corrected model)."""
    x = v * vgap
    up, dn = logistic(agap * (x - vgap)), logistic(-agap * (x + vgap))
    sub = 1 - up - dn                                   # weight of the subgap branch
    return (x / rsg * sub + x / rn * (up + dn)) / (vgap / rn)


curve = st.one_of(
    st.fixed_dictionaries({"kind": st.just("poly"), "order": st.integers(8, 60)}),
    st.fixed_dictionaries({"kind": st.just("exp"), "vgap": grid(2e-3, 3.5e-3, 30), "rn": grid(5, 40, 70),
                           "leak": grid(4, 80, 76), "agap": grid(1e4, 6e4, 50)}),
    st.fixed_dictionaries({"kind": st.just("soft"), "leak": grid(0, 0.3, 30), "w": grid(0.03, 0.1, 14),
                           "bump": grid(-0.1, 0.1, 20), "at": grid(0.3, 1.0, 14)}),
)


def curve_fn(c):
    """Odd, normalised dc I-V curve as a function of normalised voltage."""
    if c["kind"] == "poly":
        n = 2 * c["order"]

        def f(v):
            v = np.asarray(v, dtype=float)
            with np.errstate(all="ignore"):
                return v * logistic(n * np.log(np.abs(v) + 1e-300))
        return f
    if c["kind"] == "exp":
        return lambda v: ref_exponential(np.asarray(v, dtype=float), c["vgap"], c["rn"], c["rn"] * c["leak"], c["agap"])

    def f(v):
        v = np.asarray(v, dtype=float)
        a = np.abs(v)
        step = logistic((a - 1) / c["w"] * 4)
        out = a * (c["leak"] * (1 - step) + step) + c["bump"] * a * np.exp(-0.5 * ((a - c["at"]) / (1.5 * c["w"])) ** 2)
        return np.sign(v) * out
    return f


def pv_kk(v, i, at):
    """(1/pi) PV int (i(x) - x) / (x - a) dx for piecewise-linear i on the grid v.

    Product integration: exact for the piecewise-linear interpolant, so it
    shares nothing with an FFT-based Hilbert transform.  `at` must avoid the
    grid points.
    """
    y = i - v
    s = np.diff(y) / np.diff(v)
    out = np.zeros(len(at))
    for k, a in enumerate(at):
        d1, d0 = v[1:] - a, v[:-1] - a
        ya = y[:-1] - s * d0
        out[k] = np.sum(s * np.diff(v) + ya * np.log(np.abs(d1 / d0)))
    return out / np.pi


def smeared_perfect(v, s):
    """Perfect I-V curve convolved with a Gaussian of standard deviation s."""
    def cdf(x):
        return 0.5 * (1 + erf(x / np.sqrt(2)))

    def pdf(x):
        return np.exp(-x * x / 2) / np.sqrt(2 * np.pi)
    a, b = (v - 1) / s, (-v - 1) / s
    return v * cdf(a) + s * pdf(a) + v * cdf(b) - s * pdf(b)


def smear(f, v, s):
    """Gaussian convolution of f by quadrature."""
    x = np.linspace(-6, 6, 1201)
    w = np.exp(-0.5 * x ** 2)
    w /= w.sum()
    return (f(np.asarray(v)[:, None] + s * x[None, :]) * w).sum(axis=1)


def gaussian_hilbert(v, v0, s, a=1.0):
    """(1/pi) PV int a exp(-(x-v0)^2/2s^2) / (x - v) dx."""
    return -a * 2 / np.sqrt(np.pi) * dawsn((v - v0) / (np.sqrt(2) * s))
