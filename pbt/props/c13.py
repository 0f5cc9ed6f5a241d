"""C13: the smoothing filter is a normalised, centred Gaussian average; the derivative functions are derivatives."""

import numpy as np
from hypothesis import strategies as st

from qmix.mathfn import slope as slope_pkg, slope_span_n as span_pkg
from qmix.mathfn.filters import gauss_conv
from qmix.mathfn.misc import slope, slope_span_n
from pbt.core import Check, grid

PROPERTY = "C13"
RULE = ("cases: noise, steps, impulses and lines of any length with whole and fractional filter widths and extents; uneven "
        "sorted grids for derivatives with generated spans; non-trivial: more than 5 points and non-constant data")
ASSUMPTIONS = ["at least as many data points as the filter window, and twice the derivative span",
               "the filter is truncated at ext_x * sigma and mirrors the data at both ends"]


@st.composite
def filt_case(draw):
    sigma = draw(st.one_of(st.integers(1, 12), grid(0.35, 15, 293)))
    ext = draw(st.sampled_from([None, None, 3, 2, 4, 2.5, 5]))
    e = 3 if ext is None else ext
    frac = (e * sigma) % 1.0
    assume_ok = e * sigma >= 1 and not (0 < min(frac, 1 - frac) < 1e-3)
    w = 2 * int(e * sigma + 1e-5) + 1
    return {"sigma": sigma, "ext": ext, "ok": bool(assume_ok), "n": w + draw(st.one_of(st.integers(0, 3), st.integers(0, 200))),
            "kind": draw(st.sampled_from(["noise", "const", "line", "step", "impulse", "int"])),
            "seed": draw(st.integers(0, 9999)), "a": draw(grid(-5, 5, 100)), "b": draw(grid(-5, 5, 100)),
            "default": draw(st.booleans())}


def filt(c, t):
    if not c["ok"]:
        t.skip("filter narrower than one point")
    rng = np.random.default_rng(c["seed"])
    n, s = c["n"], c["sigma"]
    e = 3 if c["ext"] is None else c["ext"]
    R = int(e * s + 1e-5)
    x = {"noise": rng.normal(size=n), "const": np.full(n, c["a"]), "line": c["a"] * np.arange(n) + c["b"],
         "step": (np.arange(n) > n // 2) * 1.0, "impulse": (np.arange(n) == int(rng.integers(0, n))) * 1.0,
         "int": rng.integers(-5, 6, n)}[c["kind"]]

    def f(y):
        return gauss_conv(y, s) if c["ext"] is None else gauss_conv(y, sigma=s, ext_x=e)
    x0 = x.copy()
    got = f(x)
    t.same(x, x0, "data was modified")
    k = np.arange(-R, R + 1)
    w = np.exp(-0.5 * (k / float(s)) ** 2)
    w /= w.sum()
    period = 2 * (n - 1) if n > 1 else 1
    idx = (np.arange(n)[:, None] + k[None, :]) % period
    idx = np.where(idx >= n, period - idx, idx)
    want = (x[idx] * w).sum(axis=1)
    size = 1 + np.abs(x).max()
    t.close(got, want, 1e-9, "Gaussian average with mirrored ends", scale=size)
    t.check(got.max() <= x.max() + 1e-9 * size and got.min() >= x.min() - 1e-9 * size, "filtered data leaves the data range")
    t.close(f(x[::-1])[::-1], got, 1e-9, "filter is not symmetric", scale=size)
    y = rng.normal(size=n)
    t.close(f(c["a"] * x + c["b"] * y), c["a"] * got + c["b"] * f(y), 1e-8, "filter is not linear", scale=size)
    if c["kind"] == "const":
        t.close(got, x, 1e-12, "constant data", scale=size)
    if c["kind"] == "line" and n > 2 * R:
        t.close(got[R:n - R], x[R:n - R], 1e-9, "straight line away from the ends", scale=size)
    if n >= 61 and c["default"]:
        t.close(gauss_conv(x), gauss_conv(x, 10, 3), 1e-14, "default width", scale=size)
    t.label(c["kind"])
    t.label("fractional", s != int(s))
    t.nontrivial(n > 5 and c["kind"] not in ("const",))


@st.composite
def too_short_case(draw):
    return {"sigma": draw(st.integers(1, 12)), "short": draw(st.integers(1, 3)), "narrow": draw(grid(0.01, 0.33, 32))}


def too_short(c, t):
    w = 2 * 3 * c["sigma"] + 1
    n = w - c["short"]
    t.raises(lambda: gauss_conv(np.ones(n), c["sigma"]), "data shorter than the window accepted", (AssertionError, ValueError))
    t.raises(lambda: gauss_conv(np.ones(50), c["narrow"]), "filter narrower than one point accepted", (AssertionError, ValueError))
    t.nontrivial()


@st.composite
def slope_case(draw):
    N = draw(st.sampled_from([3, 5, 7, 11, 21, 31, 51]))
    return {"N": N, "n": 2 * N + draw(st.integers(0, 150)), "seed": draw(st.integers(0, 9999)), "even": draw(st.booleans()),
            "kind": draw(st.sampled_from(["noise", "line", "flat", "parabola", "kink", "int"])),
            "a": draw(grid(-5, 5, 100)), "b": draw(grid(-5, 5, 100)), "nozeros": draw(st.sampled_from([None, True, False])),
            "small": draw(st.integers(3, 12)), "unit": draw(st.sampled_from([1, 1, 1, 1e-6, 1e-12, 1e9]))}


def grid_of(c, n):
    rng = np.random.default_rng(c["seed"])
    x = np.arange(n) * 0.1 if c["even"] else np.cumsum(rng.uniform(0.02, 0.5, n))
    x = x - x[n // 3]
    y = {"noise": rng.normal(size=n), "line": c["a"] * x + c["b"], "flat": np.full(n, c["b"]), "parabola": c["a"] * x ** 2,
         "kink": np.abs(x), "int": rng.integers(-9, 9, n)}[c["kind"]]
    return x, y if c["unit"] == 1 else y * c["unit"]        # data in very small or large units


def slopes(c, t):
    x, y = grid_of(c, c["small"] if c["small"] < 7 else c["n"])
    n = len(x)
    x0, y0 = x.copy(), y.copy()
    d = slope(x, y)
    t.same(x, x0, "x was modified")
    t.same(y, y0, "y was modified")
    want = np.empty(n)
    for k in range(n):
        a, b = max(k - 1, 0), min(k + 1, n - 1)
        want[k] = (y[b] - y[a]) / (x[b] - x[a])
    t.close(d, want, 1e-9, "central difference", scale=c["unit"] + np.abs(want))
    t.same(slope_pkg(x, y), d, "package-level function")
    if c["kind"] == "line":
        t.close(d, np.full(n, c["a"] * c["unit"]), 1e-8, "derivative of a straight line", scale=c["unit"])
    t.nontrivial(n > 5 and c["kind"] != "flat")


def spans(c, t):
    x, y = grid_of(c, c["n"])
    n, N = c["n"], c["N"]
    kw = {} if c["nozeros"] is None else {"nozeros": c["nozeros"]}
    x0, y0 = x.copy(), y.copy()
    d = slope_span_n(x, y, N, **kw)
    t.same(x, x0, "x was modified")
    t.same(y, y0, "y was modified")
    t.check(d.shape == (n,), "derivative has shape {}", d.shape)
    zero = 0.0 if c["nozeros"] is False else 1e-10
    if c["nozeros"] is not False:
        t.check(np.all(d != 0), "zero derivative although none are allowed")
    if c["kind"] == "line":
        t.close(np.where(d == zero, 0.0, d), np.full(n, c["a"] * c["unit"]), 1e-8, "derivative of a straight line", scale=c["unit"])
    if c["kind"] == "flat":
        t.same(d, np.full(n, zero), "derivative of a constant")
    # mean-value bound: never outside the local slopes of the data within one span
    s, u = np.diff(y) / np.diff(x), c["unit"]
    for k in range(n):
        lo, hi = max(k - N - 1, 0), min(k + N + 1, n - 1)
        w = s[lo:hi]
        t.check(w.min() - 1e-9 * (u + abs(w.min())) <= (0.0 if d[k] == zero else d[k]) <= w.max() + 1e-9 * (u + abs(w.max())),
                "derivative {} at point {} is outside of the local slopes [{}, {}]", float(d[k]), k, float(w.min()), float(w.max()))
    # centred on even grids: exact for parabolas up to half a step
    if c["kind"] == "parabola" and c["even"]:
        h = N // 2
        mid = slice(h + 1, n - h - 1)
        t.close(np.where(d == zero, 0.0, d)[mid], (2 * c["a"] * u * x)[mid], 1e-6 + abs(c["a"]) * 0.1 * 1.01, "derivative of a parabola", scale=u)
    # scale covariance
    d2 = slope_span_n(2 * x, -3.0 * y, N, nozeros=False)
    d1 = slope_span_n(x, y, N, nozeros=False)
    t.close(d2, -1.5 * d1, 1e-9, "derivative is not covariant under scaling", scale=u + np.abs(d1))
    t.same(np.where(d1 == 0, zero, d1), d, "only zero derivatives are replaced")
    if N == 11:
        t.same(slope_span_n(x, y, **kw), d, "default span")
    t.same(span_pkg(x, y, N, **kw), d, "package-level function")
    t.raises(lambda: slope_span_n(x, y, N + 1), "even span accepted", (AssertionError, ValueError))
    t.label(c["kind"])
    t.nontrivial(c["kind"] != "flat")


CHECKS = [
    Check("filter", filt_case(), filt, quick=800, thorough=30000),
    Check("too_short", too_short_case(), too_short, quick=50, thorough=500),
    Check("slope", slope_case(), slopes, quick=500, thorough=20000),
    Check("slope_span", slope_case(), spans, quick=600, thorough=20000),
]
