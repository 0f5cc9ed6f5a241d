"""C09: a response function reproduces its I-V curve and the matching Kramers-Kronig transform."""

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline
from scipy.ndimage import gaussian_filter1d

import qmix.respfn as respfn
from pbt.core import Check, grid
from pbt.curves import curve, curve_fn, pv_kk, ref_exponential

PROPERTY = "C09"
RULE = ("cases: response functions built from generated smooth I-V curves (polynomial, exponential, soft gaps with "
        "leakage and bumps) on even grids, and from the built-in models with random parameters and options; "
        "non-trivial: the curve is non-linear (differs from an ohmic line by more than 0.1)")
ASSUMPTIONS = ["evenly spaced data starting at zero voltage (checked by the tool)",
               "interpolation tolerance 0.012 in normalised current (the tool aims at 0.001), 0.02 for the transform"]

DENSE = {"max_npts_dc": 600, "max_npts_kk": 600}      # interpolation errors become negligible


def probe(c, vmax):
    rng = np.random.default_rng(c["seed"])
    inner = rng.uniform(-2.2, 2.2, 60)
    outer = rng.uniform(-(vmax - 1), vmax - 1, 15)
    near = np.r_[1 + rng.normal(size=12) * 0.05, -1 + rng.normal(size=12) * 0.05]
    return np.r_[inner, outer, near, 0.0]


@st.composite
def data_case(draw, smeared=True):
    vmax, n = draw(st.sampled_from([(35, 7001), (35, 7001), (10, 2001), (6, 1501), (20, 4001), (50, 10001)]))
    smear_by = draw(st.sampled_from([None, None, 0.02, 0.05, 0.11])) if smeared else None
    return {"curve": draw(curve), "vmax": vmax, "n": n, "seed": draw(st.integers(0, 9999)), "smear": smear_by,
            "opts": draw(st.sampled_from([{}, DENSE, {"max_npts_dc": 151}, {"max_npts_kk": 201}, DENSE, {"kk_n": 20},
                                          {"spline_order": 2}, {"verbose": True}]))}


@st.composite
def model_case(draw):
    kind = draw(st.sampled_from(["poly", "exp"]))
    c = {"kind": kind, "seed": draw(st.integers(0, 9999)), "vmax": 35, "n": 7001}
    if kind == "poly":
        c["order"] = draw(st.integers(8, 60))
    else:
        c.update(vgap=draw(grid(2e-3, 3.5e-3, 30)), rn=draw(grid(5, 40, 70)), leak=draw(grid(4, 80, 76)),
                 agap=draw(grid(1e4, 6e4, 50)))
    c["opts"] = draw(st.sampled_from([{}, {"kk_n": 30}, DENSE]))
    c["smear"] = draw(st.sampled_from([None, None, 0.02, 0.05, 0.11]))
    return c


def blurred(f, c):
    """The curve after smearing with a Gaussian of the requested width, and the option that asks for it.

    (The tool cuts the Gaussian off at three standard deviations; what that may change is added to the tolerance.)
    """
    if c["smear"] is None:
        return f, {}
    s, top = c["smear"], c["vmax"] + 8.0
    g = np.arange(-np.ceil(top / 2e-3), np.ceil(top / 2e-3) + 1) * 2e-3
    sp = CubicSpline(g, gaussian_filter1d(f(g) - g, s / 2e-3, truncate=9, mode="nearest"))
    short = CubicSpline(g, gaussian_filter1d(f(g) - g, s / 2e-3, truncate=3, mode="nearest"))
    c["cut"] = 3e-4 + 1.5 * float(np.max(np.abs(short(g) - sp(g))))
    return lambda v: sp(v) + v, {"v_smear": s}


def judge(t, r, f, c):
    vmax = c["vmax"]
    step = vmax / (c["n"] - 1)
    x = probe(c, vmax)
    cut = c.get("cut", 0.0)
    tol = (0.002 if c["opts"] == DENSE else 0.012) + cut
    dc, kk = r.idc(x), r.ikk(x)
    src = f(x)
    t.close(dc, src, tol, "dc current against the source I-V curve")
    t.close(r.idc(-x), -dc, tol, "dc current is not odd")
    t.close(r.ikk(-x), kk, tol, "transform is not even")
    g = np.linspace(-vmax, vmax, 2 * c["n"] - 1)
    at = x[np.abs(x) < min(4.0, vmax / 3)]
    at = (np.floor(at / step) + 0.5) * step              # between grid points
    ref = pv_kk(g, f(g), at)
    tail = 0.6 / vmax
    t.close(r.ikk(at), ref, (0.01 if vmax >= 20 else 0.02 + 0.3 * tail) + 2 * cut,
            "Kramers-Kronig transform against direct principal-value integration")
    t.close(r.resp(x), kk + 1j * dc, 1e-12, "response function is not transform + i * dc current", scale=1 + np.abs(x))
    t.close(r(x), kk + 1j * dc, 1e-12, "calling the response function", scale=1 + np.abs(x))
    t.close(r.resp_conj(x), kk - 1j * dc, 1e-12, "conjugate response function", scale=1 + np.abs(x))
    t.close(r.resp_swap(x), dc + 1j * kk, 1e-12, "swapped response function", scale=1 + np.abs(x))
    # derivatives belong to the interpolated curves
    h = 1e-6
    for name, fn, der in (("dc current", r.idc, r.didc), ("transform", r.ikk, r.dikk)):
        num = (fn(x + h) - fn(x - h)) / (2 * h)
        t.close(der(x), num, 1e-4, "derivative of the " + name, scale=1 + np.abs(num))
    # at the end of the data and beyond it: the normal state goes on
    far = vmax + np.array([-0.9, -0.3, -1e-3, 0.0, 1e-3, 0.2, 0.7, 1.5, 3.0, 6.0])
    for s in (1, -1):
        t.close(r.idc(s * far), f(s * far), 1e-4 + c.get("cut", 0.0), "dc current at and beyond the end of the data")
        t.close(r.didc(s * far), (f(s * far + 0.5) - f(s * far - 0.5)), 1e-3, "slope at and beyond the end of the data")
        t.close(r.ikk(s * far[:7]), np.zeros(7), 0.08 / vmax, "transform at the end of the data")
        t.close(r.resp(s * far), r.ikk(s * far) + 1j * r.idc(s * far), 1e-12, "response function beyond the data", scale=1 + far)
    # shapes
    m = x[:6].reshape(2, 3)
    for fn in (r.idc, r.ikk, r.didc, r.dikk, r.resp, r.resp_conj, r.resp_swap, r):
        t.same(np.asarray(fn(m)), np.asarray(fn(m.ravel())).reshape(2, 3), "array shape is not preserved")
        t.close(fn(float(x[0])), fn(x[:1])[0], 1e-12, "scalar and array arguments disagree", scale=1 + abs(x[0]))
    # stored data
    t.close(r.current, f(r.voltage), 1e-6 + c.get("cut", 0.0), "stored dc I-V curve", scale=1 + np.abs(r.voltage))
    t.check(len(r.voltage) == len(r.current) and len(r.voltage_kk) == len(r.current_kk), "stored arrays differ in length")
    t.close(r.voltage, -r.voltage[::-1], 1e-9, "stored voltages are not symmetric")
    mid = (np.abs(r.voltage_kk) < 4)
    t.close(r.ikk(r.voltage_kk[mid]), r.current_kk[mid], 0.006, "interpolated against stored transform")
    v = np.linspace(0, 2, 200)
    t.nontrivial(np.max(np.abs(f(v) - v)) > 0.1)


def from_data(c, t):
    c = dict(c)
    f = curve_fn(c["curve"])
    v = np.linspace(0, c["vmax"], c["n"])
    i = f(v)
    f, kw = blurred(f, c)
    r = respfn.RespFn(v, i, **dict({"verbose": False}, **c["opts"], **kw))
    judge(t, r, f, c)
    t.label(c["curve"]["kind"])
    t.label("smeared", c["smear"] is not None)


def from_model(c, t):
    c = dict(c)
    f, kw = blurred(curve_fn(c), c)
    kw.update(c["opts"])
    if c["kind"] == "poly":
        r = respfn.RespFnPolynomial(c["order"], verbose=False, **kw)
    else:
        r = respfn.RespFnExponential(c["vgap"], c["rn"], c["rn"] * c["leak"], c["agap"], verbose=False, **kw)
    judge(t, r, f, c)
    t.label("smeared", c["smear"] is not None)
    t.label(c["kind"])


@st.composite
def perfect_case(draw):
    return {"v": draw(st.lists(st.one_of(grid(-3, 3, 600), st.sampled_from([1.0, -1.0]), grid(-30, 30, 60)),
                               min_size=1, max_size=12))}


_P = {}


def perfect(c, t):
    if "r" not in _P:
        _P["r"] = respfn.RespFnPerfect(verbose=False)
    r = _P["r"]
    v = np.array(c["v"], dtype=float)
    dc = np.where(np.abs(v) > 1, v, np.where(np.abs(v) == 1, 0.5 * np.sign(v), 0.0))
    t.close(r.idc(v), dc, 1e-12, "perfect I-V curve", scale=1 + np.abs(v))
    off = np.abs(np.abs(v) - 1) > 1e-9
    w = v[off]
    kk = -(2 + w * np.log(np.abs((w - 1) / (w + 1)))) / np.pi
    t.close(r.ikk(w), kk, 1e-9, "transform of the perfect I-V curve", scale=1 + np.abs(w))
    t.close(r.resp(w), kk + 1j * dc[off], 1e-9, "perfect response function", scale=1 + np.abs(w))
    t.close(r(w), kk + 1j * dc[off], 1e-9, "perfect response function", scale=1 + np.abs(w))
    t.close(r.resp_conj(w), kk - 1j * dc[off], 1e-9, "perfect response function, conjugate", scale=1 + np.abs(w))
    t.close(r.resp_swap(w), dc[off] + 1j * kk, 1e-9, "perfect response function, swapped", scale=1 + np.abs(w))
    far = np.abs(np.abs(v) - 1) > 1e-4
    w = v[far]
    t.close(r.didc(w), np.where(np.abs(w) > 1, 1.0, 0.0), 1e-12, "slope of the perfect I-V curve")
    slope = -(np.log(np.abs((w - 1) / (w + 1))) + 1 / (w - 1) * w - w / (w + 1)) / np.pi
    t.close(r.dikk(w), slope, 1e-9, "slope of the transform of the perfect I-V curve", scale=1 + np.abs(slope) + w ** 2)
    if len(w):
        t.close(r.didc(float(w[0])), 1.0 if abs(w[0]) > 1 else 0.0, 1e-12, "slope of the perfect I-V curve, scalar")
        t.close(r.dikk(float(w[0])), slope[0], 1e-9, "slope of the transform, scalar", scale=1 + abs(slope[0]) + w[0] ** 2)
    if (~off).any():
        t.check(np.all(r.ikk(v[~off]) > 10), "transform at the gap must be large and finite")
    t.nontrivial(np.any(np.abs(v) > 1))


@st.composite
def error_case(draw):
    c = draw(data_case(False))
    # structure far above the gap counts as well
    c["far"] = draw(st.sampled_from([None, None, [draw(grid(0.05, 1, 19)), draw(grid(6, 30, 48)), draw(grid(0.1, 0.5, 8))]]))
    c["limit"] = draw(st.sampled_from([1e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2, 1e-6]))
    c["opts"] = {"max_npts_dc": draw(st.sampled_from([11, 31, 101, 201])),
                 "max_npts_kk": draw(st.sampled_from([11, 51, 151, 301]))}
    return c


def error_check(c, t):
    """With the accuracy check on, a response function is refused exactly when it is not accurate."""
    f0 = curve_fn(c["curve"])
    v = np.linspace(0, c["vmax"], c["n"])

    def f(x):
        if not c.get("far"):
            return f0(x)
        h, at, w = c["far"]
        return f0(x) + h * (np.exp(-0.5 * ((x - at) / w) ** 2) - np.exp(-0.5 * ((x + at) / w) ** 2))
    kw = dict(verbose=False, **c["opts"])
    r = respfn.RespFn(v, f(v), **kw)
    use = np.abs(r.voltage) < 34
    e = max(np.max(np.abs(r.idc(r.voltage) - r.current)[use]),
            np.max(np.abs(r.ikk(r.voltage_kk) - r.current_kk)[use]))
    ok = True
    try:
        respfn.RespFn(v, f(v), check_error=True, max_interp_error=c["limit"], **kw)
    except AssertionError:
        ok = False
    if e > c["limit"] * 1.001:
        t.check(not ok, "interpolation error {:.2e} accepted with a limit of {:.0e}", float(e), c["limit"])
    elif e < c["limit"] * 0.999:
        t.check(ok, "interpolation error {:.2e} refused with a limit of {:.0e}", float(e), c["limit"])
    t.label("refused", not ok)
    t.label("structure far above the gap", bool(c.get("far")))
    t.nontrivial(True)


@st.composite
def refused_case(draw):
    return {"curve": draw(curve), "start": draw(st.one_of(st.just(0.0), st.just(0.0), grid(-1, 1, 20))),
            "top": draw(st.one_of(grid(2, 8, 60), st.just(5.0))), "n": draw(st.integers(1201, 3001)),
            "smear": draw(st.booleans())}


def refused(c, t):
    """Data that do not start at zero voltage, or end at 5 or below, are refused; other data are accepted."""
    v = np.linspace(c["start"], c["top"], c["n"])
    v[0] = c["start"]
    v[-1] = c["top"]
    i = curve_fn(c["curve"])(v)
    kw = {"verbose": False}
    if c["smear"]:
        kw["v_smear"] = 0.05
    if c["start"] != 0 or c["top"] <= 5:
        t.raises(lambda: respfn.RespFn(v, i, **kw), "data from {} to {} accepted".format(c["start"], c["top"]), AssertionError)
        t.label("refused")
    else:
        r = respfn.RespFn(v, i, **kw)
        t.check(abs(r.voltage[-1] - c["top"]) < 1e-12 and abs(r.voltage[0] + c["top"]) < 1e-12, "stored voltages")
    t.nontrivial(True)


CHECKS = [
    Check("refused", refused_case(), refused, quick=60, thorough=500),
    Check("from_data", data_case(), from_data, quick=120, thorough=3000),
    Check("from_model", model_case(), from_model, quick=100, thorough=2000),
    Check("perfect", perfect_case(), perfect, quick=300, thorough=4000),
    Check("error_check", error_case(), error_check, quick=80, thorough=1500),
]
assert ref_exponential
