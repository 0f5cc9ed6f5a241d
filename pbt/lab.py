"""Synthetic SIS measurements with known truth, for the data-analysis checks."""

import contextlib
import io

import numpy as np
import scipy.constants as sc
from hypothesis import strategies as st
from scipy.special import jv

from pbt.core import grid
from pbt.curves import logistic

V_UNIT = {"uV": 1e-6, "mV": 1e-3, "V": 1.0}
I_UNIT = {"uA": 1e-6, "mA": 1e-3, "A": 1.0}

junction = st.fixed_dictionaries({
    "vgap": grid(2.3e-3, 3.1e-3, 80), "rn": grid(5, 45, 80), "leak": grid(6, 60, 54), "agap": grid(1.5e4, 6e4, 45),
    "ileak": grid(0.02, 0.08, 30), "w": grid(3e-5, 1e-4, 35)})
# excess (or missing) current above the gap: the normal-state line then misses the origin
junction_exc = st.fixed_dictionaries({"j": junction, "exc": st.sampled_from([0.0, 0.0, 0.12, -0.08, 0.06, -0.15])}).map(
    lambda d: dict(d["j"], exc=d["exc"]))


def current(j, v):
    """True dc current of a junction in A at voltages in V."""
    v = np.asarray(v, dtype=float)
    x, vg, rn = v, j["vgap"], j["rn"]
    up, dn = logistic(j["agap"] * (x - vg)), logistic(-j["agap"] * (x + vg))
    sub = 1 - up - dn
    # the step at the origin is what makes the offset of a measurement identifiable
    exc = j.get("exc", 0.0) * vg / rn * (up - dn)
    return exc + x / (rn * j["leak"]) * sub + x / rn * (up + dn) + j["ileak"] * vg / rn * np.tanh(x / j["w"]) * sub


def pumped(j, v, freq_hz, alpha, nmax=25):
    """Photon-assisted dc current (Tien-Gordon) of the same junction, in A."""
    v = np.asarray(v, dtype=float)
    vph = sc.h * freq_hz / sc.e
    out = np.zeros_like(v)
    for n in range(-nmax, nmax + 1):
        out += jv(n, alpha) ** 2 * current(j, v + n * vph)
    return out


def sweep(vmax, step, order="up", start=None, jitter=0.0, rng=None, pos=False):
    """Bias voltages in the order in which they are measured."""
    n = int(round(vmax / step))
    v = np.arange(0 if pos else -n, n + 1) * (vmax / n)
    if start is not None and pos:
        v = v + start
    if jitter:
        v = v + jitter * step * rng.uniform(-0.5, 0.5, len(v))
        v = np.sort(v)
    if order == "up":
        return v
    if order == "down":
        return v[::-1]
    k = int(np.abs(v - (start or 0.0)).argmin())
    if order == "updown":           # from the middle up, all the way down, back up
        return np.r_[v[k:], v[::-1][1:], v[1:k + 1]]
    if order == "downup":           # from the middle down, all the way up, back down
        return np.r_[v[:k + 1][::-1], v[1:], v[::-1][1:len(v) - k]]
    raise ValueError(order)


def table(v, i, v_fmt="mV", i_fmt="mA"):
    return np.vstack((v / V_UNIT[v_fmt], i / I_UNIT[i_fmt])).T


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def sg_reference(v, i, nwind, npoly, theta, npts):
    """Local polynomial least-squares fits to a curve turned by theta, as (v, i); the ends are left out."""
    a, b = v.max(), i.max()
    z = (v / a + 1j * i / b) * np.exp(-1j * theta)
    x = np.linspace(z.real.min(), z.real.max(), npts)
    y = np.interp(x, z.real, z.imag)
    h = nwind // 2
    k = np.arange(-h, h + 1) / max(h, 1)
    w = np.linalg.pinv(np.vander(k, npoly + 1, increasing=True))[0]     # value of the fit at the centre
    q = np.lib.stride_tricks.sliding_window_view(y, nwind) @ w
    z = (x[h:npts - h] + 1j * q) * np.exp(1j * theta)
    return z.real * a, z.imag * b
