"""C05: harmonic balance reports its own outcome truthfully."""

import numpy as np
from hypothesis import strategies as st

from qmix.harmonic_balance import check_hb_error, harmonic_balance
from pbt.core import Check, grid
from pbt.hb import hb_case, hb_circuit, initial, num_b_of, residual, resolved, slack
from pbt.sim import make_resp, quiet

PROPERTY = "C05"
RULE = ("cases: the harmonic-balance cases of C04 with few iterations allowed, solved in every output mode, restarted "
        "from their own solution and re-checked; non-trivial: the solver iterated at least once or stopped unconverged")
ASSUMPTIONS = ["verdicts within 2 % of the tolerance are not judged"]


def kwargs(c, cct):
    return dict(num_b=num_b_of(c), max_it=c["max_it"], stop_rerror=c["stop"], damp_coeff=c["damp"],
                zj_guess=c["guess"], vj_initial=initial(c, cct), verbose=False)


def status(c, t):
    cct = hb_circuit(c, t)
    resp = make_resp(c["resp"])
    vj = harmonic_balance(cct, resp, mode="o", **kwargs(c, cct))
    out_x = harmonic_balance(cct, resp, mode="x", **kwargs(c, cct))
    out_m = harmonic_balance(cct, resp, mode="m", **kwargs(c, cct))
    t.check(isinstance(out_x, tuple) and len(out_x) == 3, "extended output must be (voltage, iterations, converged)")
    t.check(isinstance(out_m, tuple) and len(out_m) == 2, "masked output must be (voltage, mask)")
    big = 1e-9 * (1 + np.abs(vj))
    t.close(out_x[0], vj, 1, "junction voltage in extended mode", scale=big)
    t.close(out_m[0], vj, 1, "junction voltage in masked mode", scale=big)
    _, its, conv = out_x
    mask = np.asarray(out_m[1])
    t.check(0 <= its <= c["max_it"], "{} iterations reported, at most {} allowed", its, c["max_it"])
    t.check(mask.shape == (cct.vb_npts,), "wrong shape of the convergence mask")
    t.check(np.all(vj[0] == 0) and np.all(vj[:, 0] == 0), "unused entries of the junction voltage must be zero")
    if not np.all(np.isfinite(vj)):
        t.check(not conv, "diverged solution reported as converged")
        t.skip("diverged")
    if not resolved(c, cct, vj):
        t.check(bool(conv) == bool(mask.all()), "convergence and mask disagree")
        t.skip("voltages beyond the summation limit")
    err, _ = residual(c, cct, resp, vj)
    lo, hi = np.maximum(err - slack(cct), 0), err + slack(cct)
    mag = np.maximum(np.abs(vj[1:, 1:]), 1e-300)
    good = np.all(hi < 0.98 * c["stop"] * mag, axis=(0, 1))
    bad = np.any(lo > 1.02 * c["stop"] * mag, axis=(0, 1))
    for i in range(cct.vb_npts):
        if good[i]:
            t.check(bool(mask[i]), "bias point {} meets the tolerance but is masked out", i)
        if bad[i]:
            t.check(not mask[i], "bias point {} misses the tolerance but is marked as finished", i)
    if good.all():
        t.check(bool(conv), "all points meet the tolerance but the run is reported as not converged")
    if bad.any():
        t.check(not conv, "a point misses the tolerance but the run is reported as converged")
        t.check(its == c["max_it"], "gave up after {} of {} iterations", its, c["max_it"])
    # the stand-alone check has to reach the same verdict
    if (np.abs(cct.zt[1:, 1:]) > 0).any():
        verdict = True
        try:
            with quiet():
                check_hb_error(vj, cct, resp, num_b=num_b_of(c), stop_rerror=c["stop"])
        except AssertionError:
            verdict = False
        if good.all():
            t.check(verdict, "the error check rejects a solution that meets the tolerance")
        if bad.any():
            t.check(not verdict, "the error check accepts a solution that misses the tolerance")
        else:
            # restarting from the solution costs no iteration and does not move it
            if good.all():
                v2, it2, conv2 = harmonic_balance(cct, resp, mode="x", **dict(kwargs(c, cct), vj_initial=vj.copy()))
                t.check(it2 == 0 and conv2, "restarting from a solution took {} iterations", it2)
                t.close(v2, vj, 1e-12, "restarting from a solution moved it")
    t.label("hit limit", its == c["max_it"])
    t.label("converged", bool(conv))
    t.nontrivial(its > 0 or not conv)


@st.composite
def tamper_case(draw):
    c = draw(hb_case(tones=(1, 1, 2), zero_z=False))
    c.update(stop=1e-3, max_it=20, damp=1.0, init=None)
    c["f"] = draw(st.integers(0, len(c["freq"]) - 1))
    c["p"] = draw(st.integers(0, len(c["alpha"][0]) - 1))
    c["i"] = draw(st.integers(0, c["vb"][2] - 1))
    c["eps"] = draw(st.one_of(grid(0.01, 0.5, 49), grid(2e-4, 1e-2, 98)))
    if draw(st.booleans()):
        # from below the gap (little current) to where the junction shorts the source
        c["vb"] = [draw(grid(0, 0.4, 8)), draw(grid(1, 1.5, 10)), draw(st.integers(2, 5))] + c["vb"][3:]
        c["zt"] = [[[draw(grid(0.5, 4, 35)), z[1]] for z in row] for row in c["zt"]]
        c["i"] = "weakest"
    return c


def tampered(c, t):
    """A solution moved at a single signal and bias point is no longer accepted."""
    cct = hb_circuit(c, t)
    resp = make_resp(c["resp"])
    vj, mask = harmonic_balance(cct, resp, mode="m", **kwargs(c, cct))
    if not np.all(mask):
        t.skip("no solution to tamper with")
    vj = vj.copy()
    i = int(np.argmin(np.abs(vj[c["f"] + 1, c["p"] + 1]))) if c["i"] == "weakest" else c["i"]
    vj[c["f"] + 1, c["p"] + 1, i] *= 1 + c["eps"]
    if not resolved(c, cct, vj):
        t.skip("voltages beyond the summation limit")
    err, _ = residual(c, cct, resp, vj)
    lo, hi = np.maximum(err - slack(cct), 0), err + slack(cct)
    if np.all(hi < 0.95 * c["stop"] * np.abs(vj[1:, 1:])):
        quietly(check_hb_error, vj, cct, resp, num_b_of(c), c["stop"])
        t.label("still a solution")
        return
    if not np.any(lo > 1.05 * c["stop"] * np.abs(vj[1:, 1:])):
        t.skip("too close to call")
    t.raises(lambda: quietly(check_hb_error, vj, cct, resp, num_b_of(c), c["stop"]),
             "the error check accepts a tampered solution", AssertionError)
    t.nontrivial()


def quietly(fn, *a):
    with quiet():
        return fn(*a)


@st.composite
def zero_case(draw):
    c = draw(hb_case(tones=(1, 2, 3)))
    c["zt"] = [[[0.0, 0.0] for _ in row] for row in c["zt"]]
    return c


def no_impedance(c, t):
    cct = hb_circuit(c, t)
    resp = make_resp(c["resp"])
    want = np.zeros((cct.num_f + 1, cct.num_p + 1, cct.vb_npts), dtype=complex)
    want[1:, 1:] = cct.vt[1:, 1:, None]
    v = harmonic_balance(cct, resp, mode="o", **kwargs(c, cct))
    x = harmonic_balance(cct, resp, mode="x", **kwargs(c, cct))
    m = harmonic_balance(cct, resp, mode="m", **kwargs(c, cct))
    t.check(isinstance(x, tuple) and len(x) == 3, "extended output must be (voltage, iterations, converged)")
    t.check(isinstance(m, tuple) and len(m) == 2, "masked output must be (voltage, mask)")
    for got in (v, x[0], m[0]):
        t.close(got, want, 1e-12, "junction voltage without embedding impedance")
    t.check(x[1] == 0 and bool(x[2]), "nothing to iterate, but reported as {} iterations, converged={}", x[1], x[2])
    t.check(np.all(m[1]) and np.shape(m[1]) == (cct.vb_npts,), "nothing to solve, but points are masked out")
    t.nontrivial(np.max(np.abs(want)) > 1e-6)


CHECKS = [
    Check("status", hb_case(), status, quick=800, thorough=10000),
    Check("tampered", tamper_case(), tampered, quick=600, thorough=4000),
    Check("no_impedance", zero_case(), no_impedance, quick=300, thorough=3000),
]
