"""Synthetic IF-power measurements with known calibration, noise temperature and gain."""

import numpy as np
import scipy.constants as sc
from hypothesis import strategies as st

from qmix.exp.iv_data import DCIVData
from pbt.core import grid
from pbt.lab import V_UNIT, current, sweep

from pbt.lab import junction

H, KB = 6.62607015e-34, 1.380649e-23

setup = st.fixed_dictionaries({
    "j": junction, "off": grid(-3e-4, 3e-4, 60), "vint": grid(-1e-4, 6e-4, 70), "rs": st.sampled_from([None, None, 0.4]),
    "vm": st.sampled_from([1.0, 1.0, 0.5, 2.0, -1.0]), "vu": st.sampled_from(["mV", "mV", "V", "uV"]),
    "npts": st.sampled_from([None, None, 1500, 4001]), "vmax": st.sampled_from([None, None, 5.5e-3]),
    "sigma": st.sampled_from(["default", "default", None, 2e-5, 4.0]), "step": st.sampled_from([4e-6, 8e-6]),
    "top": st.sampled_from([6.3e-3, 6.3e-3, 5.0003e-3]), "start": st.sampled_from([-6.3e-3, -3e-4, -6.3e-3, 1.0003e-3]),
    "jitter": st.sampled_from([0.0, 0.8]), "order": st.sampled_from(["up", "down", "shuffle"]), "dirt": st.sampled_from([0, 0, 30]),
    "seed": st.integers(0, 9999), "loggain": grid(-6, 6, 120)})


def dc_meta(s):
    """Metadata of an unpumped curve as it would have been imported."""
    j = s["j"]
    v = sweep(6.6e-3, 4e-6)
    i = current(j, v)
    vg = j["vgap"]
    ig = vg / j["rn"]
    x = np.linspace(-6e-3, 6e-3, 6001)
    return DCIVData(vraw=v + i * (s["rs"] or 0.0), iraw=i, vnorm=x / vg, inorm=current(j, x) / ig, vgap=vg, igap=ig,
                    fgap=sc.e * vg / sc.h, rn=j["rn"], rsg=j["rn"] * j["leak"], offset=(s["off"], 1e-6), vint=s["vint"], rseries=s["rs"])


def options(s):
    kw = {"verbose": False, "v_fmt": s["vu"], "v_multiplier": s["vm"]}
    for k, name in (("rs", "rseries"), ("npts", "ifdata_npts"), ("vmax", "vmax")):
        if s[k] is not None:
            kw[name] = s[k]
    if s["sigma"] != "default":
        kw["ifdata_sigma"] = s["sigma"]
    return kw


def record(s, power, salt=0):
    """The measurement of power(v) as it would be written to a file: (table, lowest and highest voltage)."""
    rng = np.random.default_rng(s["seed"] + salt)
    n = int(round((s["top"] - s["start"]) / s["step"]))
    v = s["start"] + (s["top"] - s["start"]) / n * np.arange(n + 1)
    if s["jitter"]:
        v = np.sort(v + s["jitter"] * s["step"] * rng.uniform(-0.5, 0.5, len(v)))
    p = power(v)
    vm = v + current(s["j"], v) * (s["rs"] or 0.0) + s["off"]
    d = np.vstack((vm / s["vm"] / V_UNIT[s["vu"]], p)).T
    if s["dirt"]:
        bad = np.full((s["dirt"], 2), np.nan)
        bad[::3, 0] = rng.uniform(-9, 9, len(bad[::3]))
        bad[1::3, 1] = rng.uniform(-9, 9, len(bad[1::3]))
        d = np.insert(d, rng.integers(0, len(d), s["dirt"]), bad, axis=0)
    if s["order"] == "down":
        d = d[::-1].copy()
    elif s["order"] == "shuffle":
        d = d[rng.permutation(len(d))]
    return d, v[0], v[-1]


def grid_of(s, meta):
    """Expected normalised voltages and the reach of the smoothing filter in volts."""
    n, top = s["npts"] or 3000, s["vmax"] or 6e-3
    x = np.linspace(0, top / meta.vgap, n)
    step = top / (n - 1)
    sig = {"default": 1e-5, None: 0.0}.get(s["sigma"], s["sigma"])
    if sig > 0.5:
        sig = sig * step
    return x, sig, step


def callen_welton(freq_hz, temp):
    x = H * freq_hz / (2 * KB)
    return x / np.tanh(x / temp)


assert grid
