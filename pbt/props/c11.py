"""C11: the Kramers-Kronig transforms are the Hilbert transform of the excess current."""

import numpy as np
from hypothesis import strategies as st

from qmix.mathfn import ivcurve_models as ivm
from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz
from pbt.core import Check, grid
from pbt.curves import curve, curve_fn, gaussian_hilbert, pv_kk

PROPERTY = "C11"
RULE = ("cases: even voltage grids (symmetric, shifted, coarse and fine) carrying sums of Gaussian bumps, generated I-V "
        "curves or white noise, with generated padding; non-trivial: the excess current is not zero everywhere")
ASSUMPTIONS = ["excess current vanishes at the ends of the grid where an analytic result is expected",
               "tolerance 1e-3 of the peak for analytic pairs, 1e-9 for exact algebraic relations"]


@st.composite
def bump_case(draw):
    n = draw(st.integers(1, 4))
    return {"n": draw(st.integers(1500, 4001)), "half": draw(grid(8, 30, 44)), "shift": draw(grid(-5, 5, 40)),
            "bumps": [[draw(grid(-4, 4, 80)), draw(grid(0.12, 1.0, 44)), draw(grid(-2, 2, 40))] for _ in range(n)],
            "pad": draw(st.sampled_from([5, 10, 20, 30, 50, 64, None])), "trapz": draw(st.booleans())}


def bump_data(c):
    v = np.linspace(-c["half"], c["half"], c["n"]) + c["shift"]
    y = sum(a * np.exp(-0.5 * ((v - c["shift"] - m) / s) ** 2) for m, s, a in c["bumps"])
    k = sum(gaussian_hilbert(v, c["shift"] + m, s, a) for m, s, a in c["bumps"])
    return v, y, k


def bumps(c, t):
    """Gaussian excess currents: the transform is Dawson's function."""
    if c["trapz"]:
        c = dict(c, n=c["n"] // 4 + 400)
    v, y, want = bump_data(c)
    h = v[1] - v[0]
    if min(s for _, s, _ in c["bumps"]) < (8 if c["trapz"] else 5) * h:
        t.skip("bump not resolved by the grid")
    top = sum(abs(a) for _, _, a in c["bumps"]) + 1e-9
    v0, i0 = v.copy(), v + y
    arg = i0.copy()
    if c["trapz"]:
        got = kk_trans_trapz(v, arg)
        tol = 0.02 + 0.05 * max((h / s) ** 2 for _, s, _ in c["bumps"])
    else:
        # 50 lengths of padding unless told otherwise
        pad = 50 if c["pad"] is None else c["pad"]
        got = kk_trans(v, arg) if c["pad"] is None else kk_trans(v, arg, pad)
        t.same(got, kk_trans(v, arg, n=pad), "padding given by name, or by default")
        # circular images of the net area at distance of the padded length
        area = abs(sum(a * s for _, s, a in c["bumps"])) * 2.5
        tol = 1e-3 + area / top * 4 * c["half"] / (2 * c["half"] * pad) ** 2
    t.close(got, want, tol * top, "transform of Gaussian excess currents")
    t.same(v, v0, "voltage was modified")
    t.same(arg, i0, "current was modified")
    t.label("trapz", c["trapz"])
    t.nontrivial(np.max(np.abs(y)) > 0.01)


@st.composite
def algebra_case(draw):
    return {"n": draw(st.integers(20, 400)), "h": draw(grid(0.001, 0.5, 100)), "v0": draw(grid(-20, 20, 80)),
            "seed": draw(st.integers(0, 9999)), "a": draw(grid(-3, 3, 60)), "b": draw(grid(-3, 3, 60)),
            "pad": draw(st.integers(2, 60)), "fn": draw(st.sampled_from(["fft", "trapz"])),
            "lead": draw(st.integers(0, 60))}


def algebra(c, t):
    """Linear in the excess current, blind to ohmic current, parity flipping, translation and scale covariant."""
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    v = c["v0"] + c["h"] * np.arange(n)

    def kk(v, i):
        return kk_trans(v, i, c["pad"]) if c["fn"] == "fft" else kk_trans_trapz(v, i)
    y1, y2 = rng.normal(size=n), rng.normal(size=n)
    k1, k2 = kk(v, v + y1), kk(v, v + y2)
    big = 1e-9 * (1 + np.abs(v).max()) * (1 + np.abs(k1).max() + np.abs(k2).max())
    t.check(k1.shape == (n,), "transform has shape {}", k1.shape)
    t.close(kk(v, v + c["a"] * y1 + c["b"] * y2), c["a"] * k1 + c["b"] * k2, 10 * big, "transform is not linear")
    t.close(kk(v, v.copy()), np.zeros(n), big, "transform of an ohmic curve")
    # translation of grid and data
    t.close(kk(v + 3, v + 3 + y1), k1, 10 * big, "transform depends on the origin of the voltage axis")
    # scaling voltage and current together
    t.close(kk(2 * v, 2 * v + 2 * y1), 2 * k1, 10 * big, "transform is not covariant under rescaling")
    # mirror: v -> -v flips the sign of the transform of the mirrored excess current
    m = -v[::-1]
    if c["fn"] == "trapz":
        t.close(kk(m, m + y1[::-1]), -k1[::-1], 10 * big, "mirrored data")
        i = int(rng.integers(0, n))
        vp, ip = np.delete(v, i), np.delete(v + y1, i)
        q = (ip - vp) / (vp - v[i])
        t.close(k1[i], np.sum((q[1:] + q[:-1]) / 2 * np.diff(vp)) / np.pi, big, "trapezoidal sum")
    else:
        # parity on a symmetric grid
        w = c["h"] * np.arange(-n, n + 1)
        odd = np.r_[-y1[::-1], 0, y1]
        even = np.r_[y1[::-1], 0.3, y1]
        ko, ke = kk(w, w + odd), kk(w, w + even)
        t.close(ko, ko[::-1], 1e-9 * (1 + np.abs(w).max()) * 10, "transform of an odd curve is not even")
        t.close(ke, -ke[::-1], 1e-9 * (1 + np.abs(w).max()) * 10, "transform of an even excess is not odd")
        # zero padding on the left only moves the data
        L = c["lead"]
        vl = np.r_[v[0] - c["h"] * np.arange(L, 0, -1), v]
        P = 50
        kl = kk_trans(vl, vl + np.r_[np.zeros(L), y1], P)[L:]
        ks = kk_trans(v, v + y1, P)
        t.close(kl, ks, 3e-3 * (1 + L / n) * np.abs(y1).max(), "transform depends on empty leading data")
    t.label(c["fn"])
    t.nontrivial(True)


@st.composite
def curve_case(draw):
    long = draw(st.integers(0, 11)) == 0
    return {"curve": draw(curve), "half": draw(grid(8, 40, 32)),
            "n": draw(st.sampled_from([25000, 50000])) if long else draw(st.integers(1500, 4000)),
            "pad": 50 if long else draw(st.sampled_from([20, 50])),
            # current deficit above the gap: an excess current that does not die out
            "off": draw(st.sampled_from([0.0, 0.0, 0.3, -0.4, 0.15]))}


def curves(c, t):
    """Generated I-V curves against direct principal-value integration of the same samples."""
    n = 2 * c["n"] + 1
    v = np.linspace(-c["half"], c["half"], n)
    h = v[1] - v[0]
    base = curve_fn(c["curve"])

    def f(v):
        return base(v) + c["off"] * np.tanh(2 * v ** 3)
    i = f(v)
    k = kk_trans(v, i, c["pad"])
    big = n > 20000
    mid = np.arange(n // 2 - int(2.2 / h), n // 2 + int(2.2 / h), 37 if not big else int(4.4 / h) // 19)
    fine = np.linspace(-c["half"], c["half"], (8 if not big else 2) * (n - 1) + 1)
    at = v[mid]
    hf = fine[1] - fine[0]
    want = 0.5 * (pv_kk(fine, f(fine), at + hf / 2) + pv_kk(fine, f(fine), at - hf / 2))
    # samples per width of the step at the gap
    sharp = c["curve"]["agap"] * c["curve"]["vgap"] if c["curve"]["kind"] == "exp" else 0
    if h * sharp > 1.2:
        t.skip("step at the gap not resolved by the grid")
    t.close(k[mid], want, 0.002 + 0.025 * max((h / 0.03) ** 2, (h * sharp) ** 2 / 4), "transform of an I-V curve")
    t.nontrivial(np.max(np.abs(i - v)) > 0.1)


@st.composite
def perfect_case(draw):
    return {"half": draw(grid(20, 40, 20)), "n": draw(st.integers(3000, 8000)), "pad": draw(st.sampled_from([20, 50]))}


def perfect(c, t):
    n = 2 * c["n"] + 1
    v = np.linspace(-c["half"], c["half"], n)
    h = v[1] - v[0]
    k = kk_trans(v, ivm.perfect(v), c["pad"])
    ref = -(2 + v * np.log(np.abs((v - 1 + 1e-300) / (v + 1 + 1e-300)))) / np.pi
    use = (np.abs(np.abs(v) - 1) > 0.05) & (np.abs(v) < 5)
    d = np.abs(np.abs(v) - 1)
    t.close(k[use], ref[use], 0.004, "transform of the perfect I-V curve", scale=1 + h / d[use] / 0.004)
    t.nontrivial(True)


@st.composite
def uneven_case(draw):
    n = draw(st.integers(10, 200))
    return {"n": n, "at": draw(st.integers(0, n - 1)), "h": draw(grid(0.01, 0.2, 19)),
            "jump": draw(st.sampled_from([2e-5, 1e-4, 1e-3, 5e-3, -2e-5, -1e-4, -1e-3, -5e-3, 0.0, 2e-7, -2e-7])),
            "ramp": draw(st.booleans())}


def uneven(c, t):
    """Uneven spacing is refused, wherever it is and whichever sign it has."""
    v = c["h"] * np.arange(c["n"])
    if c["ramp"] and c["at"] < c["n"] - 1:
        v = v + c["jump"] * (np.arange(c["n"]) > c["at"])       # one interval is longer or shorter
    else:
        v[c["at"]] += c["jump"]                                  # one point is displaced
    i = np.where(v > 1, v, 0.1 * v)
    for fn in (kk_trans, kk_trans_trapz):
        if abs(c["jump"]) > 1e-5:
            t.raises(lambda: fn(v, i), "uneven spacing accepted", (AssertionError, ValueError))
        else:
            t.check(np.all(np.isfinite(fn(v, i))), "even spacing not accepted")
    t.nontrivial(abs(c["jump"]) > 1e-5)


CHECKS = [
    Check("bumps", bump_case(), bumps, quick=400, thorough=10000),
    Check("algebra", algebra_case(), algebra, quick=400, thorough=10000),
    Check("curves", curve_case(), curves, quick=100, thorough=2000),
    Check("perfect", perfect_case(), perfect, quick=50, thorough=500),
    Check("uneven", uneven_case(), uneven, quick=200, thorough=3000),
]
