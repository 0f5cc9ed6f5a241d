"""C03: closed-form limits of the tunnelling currents."""

import numpy as np
from hypothesis import strategies as st
from scipy.special import jv

from qmix.qtcurrent import qtcurrent
from pbt.core import Check, grid
from pbt.sim import (AnalyticResp, any_resp, bias, build_cct, build_vj, drive, freqs, make_resp, matches)

PROPERTY = "C03"
RULE = ("cases: random circuits (1-4 tones, 1-3 harmonics) in situations with a closed-form answer: no drive, a linear "
        "junction, a single small signal, the dc photon-step sum, and dc power bookkeeping; non-trivial: the expected "
        "currents are not all below 1e-6 (and the drive is above 0.01 except for the undriven case)")
ASSUMPTIONS = ["tones are not harmonically related (documented domain)",
               "summation limits are chosen so that the truncated part of the spectrum is below the tolerance"]


@st.composite
def undriven_case(draw):
    nf = draw(st.sampled_from([1, 2, 3, 4]))
    np_ = draw(st.integers(1, 3 if nf < 3 else 1))
    nb = [draw(st.integers(1, {1: 15, 2: 8, 3: 4, 4: 2}[nf])) for _ in range(nf)]
    return {"freq": draw(freqs(nf)), "np": np_, "vb": draw(bias(6)), "num_b": nb,
            "resp": draw(st.one_of(any_resp, st.just("perfect"))),
            "out": [round(draw(st.integers(1, 20000)) * 1e-4, 4)]}


def undriven(c, t):
    nf, np_ = len(c["freq"]), c["np"]
    c = dict(c, alpha=[[0.0] * np_ for _ in range(nf)])
    cct = build_cct(c)
    vj = cct.initialize_vj()
    resp = make_resp(c["resp"])
    outs = [0.0] + [f * p for f in c["freq"] for p in range(1, np_ + 1)] + c["out"]
    if any(matches(c["freq"], np_, f) is None for f in outs):
        t.skip("ambiguous frequency match")
    cur = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    dc = np.asarray(resp.idc(cct.vb))
    t.close(cur[0], dc, 1e-11, "dc current without any signal against the I-V curve", scale=1 + np.abs(dc))
    t.close(cur[1:], np.zeros_like(cur[1:]), 1e-11, "ac current without any signal", scale=1 + np.max(np.abs(dc)))
    t.nontrivial(np.max(np.abs(dc)) > 1e-6)
    t.label("tones=%d" % nf)


@st.composite
def ohmic_case(draw):
    nf = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    np_ = draw(st.integers(1, {1: 3, 2: 2, 3: 1, 4: 1}[nf]))
    nb = {1: 24, 2: 14, 3: 8, 4: 4}[nf]
    alpha, phase = draw(drive(nf, np_, {1: 1.5, 2: 0.7, 3: 0.3, 4: 0.08}[nf] / (1 if np_ == 1 else np_)))
    vecs = draw(st.lists(st.tuples(*[st.integers(-np_, np_)] * nf), max_size=3))
    return {"freq": draw(freqs(nf)), "alpha": alpha, "phase": phase, "vb": draw(bias(3)),
            "ramp": draw(st.sampled_from([0.0, 0.5])), "nb": nb + draw(st.integers(0, 2 if nf < 3 else 0)),
            "g": draw(grid(0.05, 3, 59)), "k0": draw(grid(-1, 1, 4)), "vec": [list(v) for v in vecs]}


def ohmic(c, t):
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    cct = build_cct(c)
    vj = build_vj(c, cct)
    resp = AnalyticResp(c["g"], [], [], c["k0"])
    outs, want = [0.0], [c["g"] * cct.vb + 0j]
    for f in range(1, nf + 1):
        for p in range(1, np_ + 1):
            outs.append(c["freq"][f - 1] * p)
            want.append(c["g"] * vj[f, p])
    for v in c["vec"]:
        if sum(1 for k in v if k) < 2:
            continue
        f = abs(float(np.dot(v, c["freq"])))
        outs.append(f)
        want.append(np.zeros(cct.vb_npts, dtype=complex))
    for f in outs:
        m = matches(c["freq"], np_, f)
        if m is None or len(m) != 1:
            t.skip("ambiguous frequency match")
    cur = qtcurrent(vj, cct, resp, outs, num_b=c["nb"], verbose=False)
    t.close(cur, np.array(want), 1e-6, "current through an ohmic junction (dc, every tone and harmonic, mixing products)",
            scale=c["g"] * (1 + np.max(np.abs(cct.vb)) + c["nb"] * sum(c["freq"])) + 1)
    t.nontrivial(np.max(c["alpha"]) > 0.01)
    t.label("tones=%d" % nf)


@st.composite
def small_case(draw):
    return {"freq": draw(freqs(1)), "vb": draw(bias(6)), "phase": [[draw(grid(-np.pi, np.pi, 60))]],
            "alpha": [[draw(grid(1e-3, 1e-2, 9))]], "nb": draw(st.integers(3, 15)), "resp": draw(any_resp)}


def small_signal(c, t):
    """A weak signal sees the quantum admittance: finite differences of width one photon step."""
    cct = build_cct(c)
    vj = build_vj(c, cct)
    resp = make_resp(c["resp"])
    f, v = c["freq"][0], cct.vb
    cur = qtcurrent(vj, cct, resp, [0.0, f], num_b=c["nb"], verbose=False)
    g = (resp.idc(v + f) - resp.idc(v - f)) / (2 * f)
    b = (resp.ikk(v + f) - 2 * resp.ikk(v) + resp.ikk(v - f)) / (2 * f)
    want = (g + 1j * b) * vj[1, 1]
    a2 = c["alpha"][0][0] ** 2
    big = 1 + np.max(np.abs(v)) + 2 * f
    t.close(cur[1], want, 4 * a2, "small-signal ac current against the quantum admittance",
            scale=np.abs(vj[1, 1]) * (big + 4) / f)
    dc = resp.idc(v) + a2 / 4 * (resp.idc(v + f) - 2 * resp.idc(v) + resp.idc(v - f))
    t.close(cur[0], dc, 4 * a2 ** 2, "small-signal dc current against the photon-assisted expansion", scale=big + 4)
    t.nontrivial(np.max(np.abs(want)) > 1e-6)


@st.composite
def steps_case(draw):
    nf = draw(st.sampled_from([1, 1, 2, 3, 4]))
    nb = [draw(st.integers(1, {1: 15, 2: 9, 3: 5, 4: 3}[nf])) for _ in range(nf)]
    alpha, phase = draw(drive(nf, 1, 3.0))
    return {"freq": draw(freqs(nf)), "alpha": alpha, "phase": phase, "vb": draw(bias(4)), "num_b": nb,
            "ramp": 0.0, "resp": draw(any_resp)}


def photon_steps(c, t):
    """dc current = sum of shifted I-V curves weighted by squared Bessel functions."""
    nf = len(c["freq"])
    if matches(c["freq"], 1, 0.0) is None:
        t.skip("commensurate tones")
    cct = build_cct(c)
    vj = build_vj(c, cct)
    resp = make_resp(c["resp"])
    dc = qtcurrent(vj, cct, resp, 0, num_b=tuple(c["num_b"]), verbose=False)
    shift, weight = np.zeros(1), np.ones(1)
    for f in range(nf):
        k = np.arange(-c["num_b"][f], c["num_b"][f] + 1)
        shift = (shift[:, None] + k * c["freq"][f]).ravel()
        weight = (weight[:, None] * jv(k, c["alpha"][f][0]) ** 2).ravel()
    want = (weight[:, None] * np.asarray(resp.idc(cct.vb[None, :] + shift[:, None]))).sum(axis=0)
    t.close(dc, want, 1e-10,
            "pumped dc current against the photon-step sum", scale=1 + np.max(np.abs(want)))
    t.check(not np.iscomplexobj(dc), "dc current requested on its own must be real")
    t.nontrivial(np.max(c["alpha"]) > 0.01 and np.max(np.abs(want)) > 1e-6)
    t.label("tones=%d" % nf)


CHECKS = [
    Check("undriven", undriven_case(), undriven, quick=1250, thorough=10000),
    Check("ohmic", ohmic_case(), ohmic, quick=1000, thorough=10000),
    Check("small_signal", small_case(), small_signal, quick=1250, thorough=10000),
    Check("photon_steps", steps_case(), photon_steps, quick=2000, thorough=20000),
]
