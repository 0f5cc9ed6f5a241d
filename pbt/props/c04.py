"""C04: a harmonic-balance solution satisfies every circuit equation."""

import numpy as np
from hypothesis import strategies as st

from qmix.harmonic_balance import harmonic_balance
from pbt.core import Check, grid
from pbt.hb import hb_case, hb_circuit, initial, num_b_of, residual, slack
from pbt.sim import make_resp, matches

PROPERTY = "C04"
RULE = ("cases: random embedding circuits (1-3 tones, 1-3 harmonics, complex and zero impedances, idle sources, "
        "different tolerances, dampings, starting points); non-trivial: the solver reported convergence at one bias "
        "point or more and some source drives the junction through a non-zero impedance")
ASSUMPTIONS = ["nothing is claimed about bias points the solver does not report as converged",
               "sources set to zero are treated as 1e-10 by the solver (documented minimum)"]


def solve(c, t):
    cct = hb_circuit(c, t)
    resp = make_resp(c["resp"])
    vj, mask = harmonic_balance(cct, resp, num_b=num_b_of(c), max_it=c["max_it"], stop_rerror=c["stop"],
                                damp_coeff=c["damp"], zj_guess=c["guess"], vj_initial=initial(c, cct),
                                mode="m", verbose=False)
    t.check(np.shape(vj) == (cct.num_f + 1, cct.num_p + 1, cct.vb_npts), "wrong shape of the junction voltage")
    t.check(np.shape(mask) == (cct.vb_npts,), "wrong shape of the convergence mask")
    vt, zt = cct.vt[1:, 1:], cct.zt[1:, 1:]
    # a signal without series impedance is applied directly
    if (zt == 0).all():
        t.close(vj[1:, 1:], vt[:, :, None] * np.ones(cct.vb_npts), 1e-12,
                "junction voltage without any embedding impedance")
        t.check(bool(np.all(mask)), "no embedding impedance, yet points are reported as not converged")
    for i in np.flatnonzero(mask):
        sub = vj[:, :, i:i + 1]
        c1 = dict(c)
        one = hb_circuit(c, t)
        one.vb, one.vb_npts = cct.vb[i:i + 1], 1
        err, _ = residual(c1, one, resp, sub)
        lim = c["stop"] * np.abs(sub[1:, 1:]) * (1 + 1e-6) + slack(one)
        t.check(bool(np.all(np.isfinite(err))), "junction voltage is not finite")
        bad = err - lim
        if np.max(bad) > 0:
            k = np.unravel_index(np.argmax(bad), bad.shape)
            t.check(False, "bias point {} reported as converged, but tone {} harmonic {} misses the circuit equation "
                    "by {:.3e} (allowed {:.3e})", int(i), k[0] + 1, k[1] + 1, float(err[k]), float(lim[k]))
    t.label("tones=%d" % cct.num_f)
    t.label("harmonics=%d" % cct.num_p)
    t.label("all converged", bool(np.all(mask)))
    t.label("none converged", not np.any(mask))
    t.nontrivial(bool(np.any(mask)) and bool(np.any((np.abs(vt) > 1e-3) & (zt != 0))))


@st.composite
def solvable(draw):
    c = draw(hb_case())
    c["max_it"] = draw(st.sampled_from([10, 20, 20, 30, 4]))
    c["damp"] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.8]))
    return c


@st.composite
def linear_case(draw):
    g = draw(grid(0.1, 2, 19))
    c = draw(hb_case(resp=st.just({"g": g, "dc": [], "kk": [[0.0, 0.0]], "k0": draw(grid(-1, 1, 4))})))
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    amax = {1: 1.0, 2: 0.5, 3: 0.15, 4: 0.03}[nf] / np_ ** 2
    c["alpha"] = [[min(a, amax) for a in row] for row in c["alpha"]]
    c.update(init=None, damp=1.0, max_it=draw(st.sampled_from([4, 10])), stop=draw(st.sampled_from([1e-3, 1e-4])))
    # keep sources away from the floor so that relative errors are meaningful
    c["alpha"] = [[max(a, 0.01) for a in row] for row in c["alpha"]]
    return c


def linear(c, t):
    """A linear junction is a voltage divider; Newton's method gets there at once."""
    cct = hb_circuit(c, t)
    resp = make_resp(c["resp"])
    g = c["resp"]["g"]
    for f in c["freq"]:
        for p in range(1, cct.num_p + 1):
            if len(matches(c["freq"], cct.num_p, f * p)) != 1:
                t.skip("a mixing product coincides")
    vj, its, conv = harmonic_balance(cct, resp, num_b=num_b_of(c), max_it=c["max_it"], stop_rerror=c["stop"],
                                     zj_guess=c["guess"], mode="x", verbose=False)
    want = np.zeros_like(vj)
    want[1:, 1:] = (cct.vt[1:, 1:] / (1 + g * cct.zt[1:, 1:]))[:, :, None]
    t.check(bool(conv), "no solution for a linear junction within {} iterations", c["max_it"])
    t.close(vj, want, 1, "voltage divider with a linear junction", scale=3 * c["stop"] * np.abs(want) + 1e-5)
    t.check(its <= 3, "a linear junction took {} Newton iterations", its)
    t.nontrivial(bool(np.any(cct.zt[1:, 1:] != 0)))


CHECKS = [
    Check("solution", solvable(), solve, quick=1440, thorough=20000),
    Check("linear_junction", linear_case(), linear, quick=480, thorough=6000),
]
