"""C20: IF data without LO is calibrated by the slope of the shot noise."""

import numpy as np
from hypothesis import strategies as st

from qmix.exp.if_data import dcif_data
from pbt.core import Check, grid
from pbt.iflab import dc_meta, grid_of, options, record, setup
from pbt.lab import quiet

PROPERTY = "C20"
RULE = ("cases: IF power versus bias voltage with known shot-noise slope, IF noise and conversion factor over 12 decades, with a noise "
        "peak at the gap, offsets, series resistance, gain factors, units, smoothing, dirt and limited sweeps; non-trivial: the calibration "
        "factor differs from one and at least one of offset or series resistance is present")
ASSUMPTIONS = ["shot noise of 5.8 K per mV above the gap", "the shot-noise range given lies above the gap where the power is linear",
               "without a given range the linear part above 1.7 gaps is found automatically (noiseless data)"]


@st.composite
def case(draw):
    s = draw(setup)
    g = s["j"]["vgap"]
    kind = draw(st.sampled_from(["one", "one", "list", "two", "three", "lap", "nest", "auto", "few"]))
    lo = draw(grid(1.6 * g, 1.62 * g, 2))
    hi = min(0.95 * s["top"], 5.4e-3)
    if s["top"] < 5.1e-3:
        lo = 1.5 * g
    cut = [lo + (hi - lo) * f for f in (0, 0.3, 0.45, 0.6, 0.8, 1)]
    ranges = {"one": [[cut[0], cut[5]]], "list": [[cut[1], cut[5]]], "two": [[cut[0], cut[1]], [cut[3], cut[5]]],
              "three": [[cut[0], cut[1]], [cut[2], cut[3]], [cut[4], cut[5]]], "lap": [[cut[0], cut[3]], [cut[2], cut[5]]], "nest": [[cut[0], cut[4]], [cut[1], cut[2]]], "auto": None, "few": [[cut[2], cut[2] + 2e-7]]}[kind]
    return {"s": s, "kind": kind, "ranges": [[round(x, 9) for x in r] for r in ranges] if ranges else None,
            "tif": draw(st.one_of(grid(0.5, 30, 59), grid(-20, 80, 100))), "peak": draw(grid(0, 30, 30)), "kink": draw(grid(-20, 40, 60)),
            "form": draw(st.sampled_from(["tuple", "list"])),
            "bend": 0.0 if kind in ("auto", "few") else draw(st.sampled_from([0.0, 0.0, 0.06, -0.05, 0.12]))}


def power_of(c, g):
    """IF power in arbitrary units at voltages in V: (nearly) linear wherever the calibration looks."""
    s = c["s"]
    vg = s["j"]["vgap"]

    def f(v):
        line = 5.8e3 * (v - s["vint"]) + c["tif"]
        out = line + c["peak"] * np.exp(-0.5 * ((v - vg) / 1e-4) ** 2)
        out = out + c["bend"] * 5.8e6 * np.clip(v - 1.3 * vg, 0, None) ** 2
        # another slope far below the gap
        out = out + c["kink"] * 0.5 * (1 - np.tanh((v - 0.75 * vg) / (0.1 * vg)))
        return out * g
    return f


def calibrated(c, t):
    s = c["s"]
    meta = dc_meta(s)
    g = 10 ** s["loggain"]
    f = power_of(c, g)
    d, first, last = record(s, f)
    kw = options(s)
    if c["kind"] == "few" and min(last, s["vmax"] or 6e-3) < 2 * meta.vgap + 0.7e-3:
        t.skip("little measured above twice the gap")
    if c["kind"] == "auto" and (last < 5.9e-3 or s["jitter"]):
        t.skip("the automatic search needs a full, clean sweep")
    if c["ranges"]:
        r = c["ranges"]
        if c["kind"] in ("one", "few"):
            r = r[0]
            kw["vshot"] = tuple(r) if c["form"] == "tuple" else list(r)
        else:
            kw["vshot"] = tuple(tuple(q) for q in r) if c["form"] == "tuple" else [list(q) for q in r]
    d0 = d.copy()
    if c["kind"] == "few" and (s["vmax"] or 6e-3) > last - 1e-4:
        kw["vmax"] = last - 2e-4            # the fallback uses everything above twice the gap
        s = dict(s, vmax=last - 2e-4)
    if c["kind"] == "auto":
        kw["vmax"] = 5.9e-3
        s = dict(s, vmax=5.9e-3)
    got, info = quiet(dcif_data, d, meta, **kw)
    t.same(d, d0, "the measurement was modified")
    x, sig, step = grid_of(s, meta)
    t.close(got[:, 0], x, 1e-12, "voltages of the IF data")
    t.check(got.shape == (len(x), 2), "shape {}", got.shape)
    v = x * meta.vgap
    # what a straight line through the selected points should give
    tif, line = c["tif"], 5.8e3 * (v - s["vint"]) + c["tif"]
    unit = 1.0
    if c["bend"]:
        sel = np.zeros(len(v), dtype=bool)
        for a, b in c["ranges"]:
            sel |= (a < v) & (v < b)
        b, a = np.polyfit(v[sel], f(v[sel]) / g, 1)
        unit = 5.8e3 / b
        line = (b * v + a) * unit
        tif = np.interp(s["vint"], v, line)
    loose = {"auto": 2e-2, "few": 4e-3}.get(c["kind"], 6e-4)
    t.close(info.corr * g / unit, 1.0, loose, "conversion factor")
    # the line is fitted at 1.5 gaps or more and read at the intercept voltage
    line_tol = loose * 5.8e3 * 6e-3 * (3 if c["kind"] == "few" else 1) + 0.01
    v_read = min(max(s["vint"], 0.0), v[-1])
    t.close(info.if_noise, tif if c["bend"] else c["tif"] + 5.8e3 * (v_read - s["vint"]), line_tol, "IF noise")
    want_noise = info.if_noise
    t.check(bool(info.if_fit) == bool(0 < want_noise < 50), "IF noise of {} K judged as {}", want_noise, info.if_fit)
    t.close(info.vmax, v[-1], 1e-12, "maximum voltage")
    t.same(info.shot_slope[:, 0], got[:, 0], "voltages of the shot-noise line")
    t.close(info.shot_slope[:, 1], line, line_tol, "shot-noise line")
    # a line with a slope of 5.8 K/mV, exactly
    sl = np.diff(info.shot_slope[:, 1]) / np.diff(v)
    t.close(sl, np.full(len(sl), 5.8e3), 1e-4 * 5.8e3, "slope of the shot-noise line")
    reach = 4 * sig + 2e-5
    inside = (v > max(first, 0.0) + reach) & (v < min(last, v[-1]) - reach)
    if not s["start"] < 0:
        inside &= v > first + reach
    e = 4 * max(sig, s["step"], step)
    want = f(v[inside]) / g
    w = v[inside]
    curl = np.max([np.abs(f(w + q + e) - 2 * f(w + q) + f(w + q - e)) for q in (-e, 0, e)], axis=0) / g
    t.close(got[inside, 1] / (info.corr * g), want, 1, "IF data in K", scale=1e-3 * (1 + np.abs(want)) + 0.5 * curl)
    outside = (v < first - reach) | (v > last + reach)
    t.check(np.all(got[outside, 1] == 0), "IF data outside of the measured range")
    # near zero bias the data continues as if mirrored
    t.label("range " + c["kind"])
    t.label("good fit", bool(info.if_fit))
    t.nontrivial(abs(s["loggain"]) > 0.1 and (s["off"] or s["rs"]))


@st.composite
def bad_case(draw):
    return {"s": draw(setup), "kind": draw(st.sampled_from(["three", "flat", "one", "unit", "vshot"]))}


def refused(c, t):
    s = dict(c["s"], dirt=0)
    meta = dc_meta(s)
    d, _, _ = record(s, lambda v: 1 + 5e3 * v)
    kw = options(s)
    if c["kind"] == "three":
        d = np.c_[d, d[:, 1]]
    elif c["kind"] == "flat":
        d = d[:, 1]
    elif c["kind"] == "one":
        d = d[:, :1]
    elif c["kind"] == "unit":
        kw["v_fmt"] = "kV"
    else:
        kw["vshot"] = 4e-3
    t.raises(lambda: quiet(dcif_data, d, meta, **kw), "malformed IF data accepted")
    t.nontrivial()


CHECKS = [
    Check("calibrated", case(), calibrated, quick=900, thorough=25000),
    Check("refused", bad_case(), refused, quick=40, thorough=400),
]
