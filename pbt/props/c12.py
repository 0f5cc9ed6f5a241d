"""C12: the I-V curve models are odd, follow their published formulas and have the requested resistances."""

import numpy as np
from hypothesis import strategies as st

from qmix.mathfn import ivcurve_models as ivm
from pbt.core import Check, grid
from pbt.curves import logistic

PROPERTY = "C12"
RULE = ("cases: voltage arrays (any length and shape, both signs, exactly at the gap, integer and float, up to +-50 gaps) "
        "and random junction parameters for every model; non-trivial: some voltage is above and some below the gap")
ASSUMPTIONS = ["reference formulas are re-derived from logistic transition functions, independently of the code's "
               "exponentials", "relative tolerance 1e-9"]

volts = st.lists(st.one_of(grid(-2.5, 2.5, 5000), st.sampled_from([0.0, 1.0, -1.0, 1e-9, 1 + 1e-9, 1 - 1e-9, -1 - 1e-9]),
                           grid(-50, 50, 1000)), min_size=1, max_size=30)
form = st.sampled_from(["float", "float", "int", "2d", "0d", "scalar", "intscalar", "strided"])


def shaped(v, how):
    v = np.array(v, dtype=float)
    if how == "int":
        return np.round(v).astype(int)
    if how == "2d":
        return np.resize(v, (3, len(v)))
    if how == "0d":
        return np.array(v[0])
    if how == "scalar":
        return float(v[0])
    if how == "intscalar":
        return int(round(v[0]))
    if how == "strided":
        return np.repeat(v, 2)[::2]
    return v


def judge(t, fn, v, want, tol=1e-9):
    """fn on v (any form) against the reference; the argument is left alone; odd."""
    keep = np.array(v, copy=True)
    got = fn(v)
    t.check(got is not None, "no value for {!r}", v)
    t.same(np.asarray(v), keep, "argument was modified")
    w = np.asarray(keep, dtype=float)
    t.close(np.asarray(got, dtype=float), want(w), tol, "model value", scale=1 + np.abs(want(w)) + np.abs(w))
    t.close(np.asarray(fn(-v), dtype=float), -np.asarray(got, dtype=float), tol, "model is not odd",
            scale=1 + np.abs(w) + np.abs(want(w)))
    if w.ndim and w.size:
        one = np.array([fn(float(x)) for x in w.ravel()], dtype=float).reshape(w.shape)
        t.close(one, np.asarray(got, dtype=float), 1e-12, "scalar and array evaluation disagree", scale=1 + np.abs(one))
    t.nontrivial(w.size > 1 and np.any(np.abs(w) > 1) and np.any(np.abs(w) < 1))


@st.composite
def perfect_case(draw):
    return {"v": draw(volts), "form": draw(form), "max": draw(st.sampled_from([None, 50.0, 10.0, 1e3]))}


def perfect(c, t):
    v = shaped(c["v"], c["form"])

    def ref(w):
        a = np.abs(w)
        return np.where(a > 1, w, np.where(a == 1, 0.5 * w, 0.0))
    judge(t, ivm.perfect, v, ref, 1e-15)
    top = 100.0 if c["max"] is None else c["max"]
    kw = {} if c["max"] is None else {"max_kk": c["max"]}
    w = np.asarray(v, dtype=float)

    def kk(w):
        a = np.abs(w)
        with np.errstate(all="ignore"):
            r = -(2 + w * (np.log(np.abs(w - 1)) - np.log(np.abs(w + 1)))) / np.pi
        return np.where(a == 1, top, r)
    got = np.asarray(ivm.perfect_kk(v, **kw), dtype=float)
    t.close(got, kk(w), 1e-9, "transform of the perfect model", scale=1 + np.abs(kk(w)) + np.abs(w))
    t.close(np.asarray(ivm.perfect_kk(-v, **kw), dtype=float), got, 1e-9, "transform is not even",
            scale=1 + np.abs(got) + np.abs(w))
    t.label(c["form"])


@st.composite
def poly_case(draw):
    return {"v": draw(volts), "form": draw(form), "order": draw(st.one_of(st.none(), st.integers(1, 60), st.integers(60, 400)))}


def polynomial(c, t):
    v = shaped(c["v"], c["form"])
    n = 50 if c["order"] is None else c["order"]

    def fn(x):
        return ivm.polynomial(x) if c["order"] is None else ivm.polynomial(x, c["order"])

    def ref(w):
        with np.errstate(all="ignore"):
            return w * logistic(2 * n * np.log(np.abs(w) + 1e-300))
    judge(t, fn, v, ref)
    # v^(2n+1)/(1+v^(2n)), half the voltage at the gap
    t.close(float(np.asarray(fn(np.array([1.0])))[0]), 0.5, 1e-12, "polynomial model at the gap")
    t.label(c["form"])


@st.composite
def exp_case(draw):
    rn = draw(grid(3, 100, 194))
    return {"v": draw(volts), "form": draw(form), "vgap": draw(grid(1e-3, 6e-3, 100)), "rn": rn,
            "rsg": rn * draw(grid(2, 200, 198)), "agap": draw(grid(5e3, 1e5, 95)),
            "model": draw(st.sampled_from([None, "fixed", "original", "corrected", "FIXED", "Original"])),
            "seed": draw(st.integers(0, 9999))}


def exponential(c, t):
    v = shaped(c["v"], c["form"])
    vg, rn, rsg, a = c["vgap"], c["rn"], c["rsg"], c["agap"]
    kw = {} if c["model"] is None else {"model": c["model"]}

    def fn(x):
        return ivm.exponential(x, vg, rn, rsg, a, **kw)
    orig = str(c["model"]).lower() == "original"

    def ref(w):
        x = w * vg
        up, dn = logistic(a * (x - vg)), logistic(-a * (x + vg))
        sub = (logistic(a * (x + vg)) + logistic(-a * (x - vg))) if orig else 1 - up - dn
        return (x / rsg * sub + x / rn * (up + dn)) * rn / vg
    judge(t, fn, v, ref)
    # requested resistances, far away from the transition
    edge = 30 / (a * vg)
    far = np.array([1 + edge, 2 + edge])
    slope = np.diff(fn(far))[0]
    t.close(slope, 1.0 + (rn / rsg if orig else 0), 1e-6, "normal resistance")
    if edge < 0.9:
        low = np.array([(1 - edge) / 2, 1 - edge])
        t.close(np.diff(fn(low))[0] / np.diff(low)[0], rn / rsg * (2 if orig else 1), 1e-6, "subgap resistance")
    # keyword form and defaults
    w = np.asarray(v, dtype=float)
    t.same(np.asarray(ivm.exponential(w, vgap=vg, rn=rn, rsg=rsg, agap=a, **kw)), np.asarray(fn(w)), "keyword arguments")
    t.raises(lambda: ivm.exponential(w, model="nope"), "unknown model name accepted", ValueError)
    t.label(c["form"])
    t.label("original" if orig else "fixed")


@st.composite
def expanded_case(draw):
    rn = draw(grid(3, 60, 114))
    vg = draw(grid(2e-3, 4e-3, 40))
    return {"v": draw(volts), "form": draw(form), "p": dict(
        vgap=vg, rn=rn, rsg=rn * draw(grid(5, 100, 95)), agap=draw(grid(1e4, 8e4, 70)), a0=draw(grid(5e3, 4e4, 35)),
        ileak=draw(grid(0, 2e-5, 20)), vnot=vg * draw(grid(1, 1.1, 20)), inot=draw(grid(0, 3e-5, 30)),
        anot=draw(grid(5e3, 5e4, 45)), ioff=draw(grid(0, 3e-5, 30)))}


def expanded(c, t):
    v = shaped(c["v"], c["form"])
    p = c["p"]

    def ref(w):
        x = w * p["vgap"]
        up, dn = logistic(p["agap"] * (x - p["vgap"])), logistic(-p["agap"] * (x + p["vgap"]))
        leak = p["ileak"] * (np.tanh(p["a0"] * x / 2) - up + dn)
        ohm = x / p["rsg"] * (1 - up - dn) + x / p["rn"] * (up + dn)
        notch = -p["inot"] * (logistic(p["anot"] * (x - p["vnot"])) - logistic(-p["anot"] * (x + p["vnot"])))
        off = -p["ioff"] * (up - dn)
        return (leak + ohm + notch + off) * p["rn"] / p["vgap"]
    judge(t, lambda x: ivm.expanded(x, **p), v, ref)
    far = np.array([8.0, 9.0])
    y = ivm.expanded(far, **p)
    t.close(np.diff(y)[0], 1.0, 1e-6, "normal resistance")
    t.close(y[0], 8 - (p["inot"] + p["ioff"]) * p["rn"] / p["vgap"], 1e-6, "current deficit above the gap")
    t.label(c["form"])


CHECKS = [
    Check("perfect", perfect_case(), perfect, quick=600, thorough=20000),
    Check("polynomial", poly_case(), polynomial, quick=500, thorough=20000),
    Check("exponential", exp_case(), exponential, quick=600, thorough=20000),
    Check("expanded", expanded_case(), expanded, quick=500, thorough=20000),
]
