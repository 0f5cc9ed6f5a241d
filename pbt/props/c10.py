"""C10: response functions from measured I-V data follow the data below the limit, are ohmic above it,
and smearing is a Gaussian convolution of the I-V curve."""

import numpy as np
from hypothesis import strategies as st

import qmix.respfn as respfn
from pbt.core import Check, grid
from pbt.curves import curve, curve_fn, pv_kk, smear, smeared_perfect

PROPERTY = "C10"
RULE = ("cases: I-V curves sampled densely on even or uneven grids, with junk beyond the voltage limit and at negative "
        "voltages, generated limits, gap smearing from 0.01 to 0.15 and every response function class; "
        "non-trivial: the curve differs from an ohmic line by more than 0.1")
ASSUMPTIONS = ["measured data is sorted, starts near zero, extends to the limit and has steps of at most 0.006 (0.2 in the check `coarse`, where the data "
               "is taken as joined by straight lines)",
               "interpolation tolerance 0.015 in normalised current, 0.03 for the transform"]

DENSE = {"max_npts_dc": 600, "max_npts_kk": 600}      # interpolation errors become negligible


@st.composite
def iv_case(draw):
    return {"curve": draw(curve), "top": draw(grid(2.5, 6.0, 35)), "tilt": draw(grid(-0.3, 0.4, 7)), "even": draw(st.booleans()),
            "start": draw(st.sampled_from([0.0, 0.002, -0.004, -1.5])), "seed": draw(st.integers(0, 9999)),
            "step": draw(st.sampled_from([0.001, 0.002, 0.003])),
            "vlimit": draw(st.one_of(st.none(), grid(1.25, 2.4, 46))),
            "opts": draw(st.sampled_from([{}, DENSE, DENSE, {"spline_order": 2},
                                          {"verbose": True}, {"kk_n": 20}]))}


def sampled(c):
    rng = np.random.default_rng(c["seed"])
    n = int((c["top"] - c["start"]) / c["step"])
    v = np.linspace(c["start"], c["top"], n)
    if not c["even"]:
        v = np.sort(v + rng.uniform(-0.45, 0.45, n) * c["step"] * np.r_[0, np.ones(n - 2), 0])
    return v, measured(c)(v), rng


def measured(c):
    """The curve with a normal state that is not exactly ohmic."""
    base = curve_fn(c["curve"])

    def f(v):
        a = np.abs(v)
        return base(v) + np.sign(v) * c["tilt"] * np.where(a > 1.15, (a - 1.15) ** 2 / (a - 0.65), 0.0)
    return f


def from_iv(c, t):
    f = measured(c)
    v, i, rng = sampled(c)
    lim = 1.8 if c["vlimit"] is None else c["vlimit"]
    kw = dict({"verbose": False}, **c["opts"])
    if c["vlimit"] is not None:
        kw["vlimit"] = lim
    v0, i0 = v.copy(), i.copy()
    r = respfn.RespFnFromIVData(v, i, **kw)
    t.same(v, v0, "the voltage data was modified")
    t.same(i, i0, "the current data was modified")
    # data outside of (0, limit) has no say
    junk = i.copy()
    out = (v >= lim) | (v < 0)
    junk[out] += rng.normal(size=out.sum()) * 3
    r2 = respfn.RespFnFromIVData(v, junk, **kw)
    x = rng.uniform(-3, 3, 60)
    t.same(r2.resp(x), r.resp(x), "data outside of the limits changes the response function")
    dense = c["opts"] == DENSE
    # expected curve: data below the limit, unit slope above
    last = v[v < lim][-1]

    def want(x):
        a = np.abs(x)
        return np.sign(x) * np.where(a < last, f(np.minimum(a, last)), f(last) + a - last)
    x = np.r_[rng.uniform(0.02, lim, 60), rng.uniform(lim, 30, 20), 0.9, 0.97, 1, 1.03, 1.1]
    x = np.r_[x, -x]
    # the corner at the limit is rounded off by the interpolation: not looked at there
    x = x[np.abs(np.abs(x) - lim) > 0.3]
    corner = abs(c["tilt"]) * 0.15 * np.exp(-(np.abs(np.abs(x) - lim) - 0.3) / 0.7)
    t.close(r.idc(x), want(x), 1, "dc current against the measured data",
            scale=(0.008 if dense else 0.015 + c["step"] * 0.5) + corner)
    hi = rng.uniform(lim + 0.5, 29, 20)
    t.close(r.didc(hi), np.ones(20), 1, "slope above the limit",
            scale=0.02 + 0.5 * abs(c["tilt"]) * np.exp(-(hi - lim)))
    # transform of that curve
    g = np.linspace(-35, 35, 14001)
    step = g[1] - g[0]
    at = (np.floor(rng.uniform(-2.5, 2.5, 25) / step) + 0.5) * step
    # the data corner at the limit is smoothed by the interpolation of the transform
    at = at[np.abs(np.abs(at) - last) > 0.3]
    t.close(r.ikk(at), pv_kk(g, want(g), at), 0.015 if dense else 0.04, "transform against direct integration of the measured data")
    t.close(r.resp(at), r.ikk(at) + 1j * r.idc(at), 1e-12, "response function", scale=1 + np.abs(at))
    t.label("junk", bool(out.any()))
    t.label(c["curve"]["kind"])
    w = np.linspace(0, 1.5, 200)
    t.nontrivial(np.max(np.abs(f(w) - w)) > 0.1)


@st.composite
def smear_case(draw):
    c = {"cls": draw(st.sampled_from(["RespFn", "FromIVData", "Polynomial", "Exponential", "Perfect", "Perfect"])),
         "s": draw(grid(0.011, 0.15, 60)), "seed": draw(st.integers(0, 9999)), "dense": draw(st.booleans())}
    if c["cls"] in ("RespFn", "FromIVData"):
        c["curve"] = draw(curve)
        c["n"] = draw(st.sampled_from([7001, 5001, 3501]))
        c["vmax"] = draw(st.sampled_from([35, 35, 35, 20, 8, 6]))
    elif c["cls"] == "Polynomial":
        c["curve"] = {"kind": "poly", "order": draw(st.integers(10, 60))}
    elif c["cls"] == "Exponential":
        c["curve"] = {"kind": "exp", "vgap": draw(grid(2e-3, 3.5e-3, 30)), "rn": draw(grid(5, 40, 70)),
                      "leak": draw(grid(4, 80, 76)), "agap": draw(grid(1e4, 6e4, 50))}
    return c


def smearing(c, t):
    rng = np.random.default_rng(c["seed"])
    kw = {"verbose": False, "v_smear": c["s"]}
    if c["dense"]:
        kw.update(DENSE)
    cls = c["cls"]
    if cls == "RespFn":
        v = np.linspace(0, c["vmax"], c["n"])
        r = respfn.RespFn(v, curve_fn(c["curve"])(v), **kw)
    elif cls == "FromIVData":
        v = np.linspace(0, 3, 1501)
        r = respfn.RespFnFromIVData(v, curve_fn(c["curve"])(v), **kw)
    elif cls == "Polynomial":
        r = respfn.RespFnPolynomial(c["curve"]["order"], **kw)
    elif cls == "Exponential":
        q = c["curve"]
        r = respfn.RespFnExponential(q["vgap"], q["rn"], q["rn"] * q["leak"], q["agap"], **kw)
    else:
        r = respfn.RespFnPerfect(**kw)
    x = np.r_[rng.uniform(-2, 2, 40), 1 + rng.normal(size=20) * c["s"], -1 + rng.normal(size=10) * c["s"]]

    def want(x):
        if cls == "Perfect":
            return smeared_perfect(x, c["s"])
        f = curve_fn(c["curve"])
        if cls == "FromIVData":
            b = f(1.8) - 1.8
            return smear(lambda u: np.sign(u) * np.where(np.abs(u) < 1.8, f(np.abs(u)), np.abs(u) + b), x, c["s"])
        return smear(f, x, c["s"])
    tol = 0.004 if c["dense"] else 0.012
    t.close(r.idc(x), want(x), tol, "smeared I-V curve against Gaussian convolution")
    t.close(r.idc(-x), -r.idc(x), tol, "smeared curve is not odd")
    t.label(cls)
    t.nontrivial(True)
    if c.get("vmax", 35) < 35:
        return
    g = np.r_[np.linspace(-35, -4, 400), np.linspace(-4, 4, 3202)[1:-1], np.linspace(4, 35, 400)]
    # smearing commutes with the transform, so integrate the smeared curve
    y = want(g[np.abs(g) < 6.01])
    full = np.where(np.abs(g) < 6.01, 0.0, 0.0)
    full[np.abs(g) < 6.01] = y
    hi = np.abs(g) >= 6.01
    off = want(np.array([6.0]))[0] - 6.0
    full[hi] = g[hi] + np.sign(g[hi]) * off
    if cls == "Polynomial" or cls == "Exponential" or cls == "RespFn":
        full[hi] = curve_fn(c["curve"])(g[hi])
    at = rng.uniform(-2.2, 2.2, 25)
    at = at[np.min(np.abs(at[:, None] - g[None, :]), axis=1) > 2e-4]
    t.close(r.ikk(at), pv_kk(g, full, at), 0.01 if c["dense"] else 0.03, "transform of the smeared curve")


@st.composite
def coarse_case(draw):
    return {"curve": draw(curve), "step": draw(st.one_of(grid(0.01, 0.2, 38), st.sampled_from([0.05, 0.1, 0.2]))),
            "before": draw(st.sampled_from([0, 0, 1, 3, 20])), "top": draw(grid(2.3, 4.0, 17)),
            "vlimit": draw(st.one_of(st.none(), grid(1.25, 2.2, 38))), "seed": draw(st.integers(0, 9999)),
            "dense": draw(st.booleans())}


def coarse(c, t):
    """Few data points: between them the curve is the straight line through them, also next to zero."""
    f = curve_fn(c["curve"])
    n = int(c["top"] / c["step"]) + 1
    v = np.arange(-c["before"], n) * c["step"]
    i = f(v)
    lim = 1.8 if c["vlimit"] is None else c["vlimit"]
    kw = {"verbose": False}
    if c["vlimit"] is not None:
        kw["vlimit"] = lim
    if c["dense"]:
        kw.update(DENSE)
    r = respfn.RespFnFromIVData(v, i, **kw)
    use = (v >= 0) & (v < lim)
    vu, iu = v[use], i[use]
    rng = np.random.default_rng(c["seed"])
    x = np.r_[rng.uniform(0, vu[-1], 60), rng.uniform(0, 2 * c["step"], 30), rng.uniform(vu[-1], 20, 20), vu]
    want = np.where(x < vu[-1], np.interp(x, vu, iu), iu[-1] + x - vu[-1])
    tol = 0.012 if c["dense"] else 0.03
    t.close(r.idc(x), want, tol, "dc current against the line through the data")
    t.close(r.idc(-x), -want, tol, "dc current at negative voltage")
    near = x[:60] * min(c["step"], 0.1)
    t.close(r.idc(near), np.interp(near, vu, iu), 0.002 if c["dense"] else 0.005, "dc current next to zero voltage")
    t.check(abs(r.idc(np.zeros(1))[0]) < 1e-3, "dc current at zero voltage: {}", float(r.idc(np.zeros(1))[0]))
    t.label("step > 0.05", c["step"] > 0.05)
    t.nontrivial(np.max(np.abs(iu - vu)) > 0.1)


CHECKS = [
    Check("coarse", coarse_case(), coarse, quick=80, thorough=2000),
    Check("from_iv", iv_case(), from_iv, quick=120, thorough=3000),
    Check("smearing", smear_case(), smearing, quick=120, thorough=3000),
]
