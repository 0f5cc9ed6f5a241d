"""C01: tunnelling currents equal an independent evaluation of the theory."""

import numpy as np
from hypothesis import strategies as st

from qmix.qtcurrent import qtcurrent
from pbt.core import Check
from pbt.sim import (RAMPS, any_resp, bias, build_cct, build_vj, combos, drive, freqs,
                     make_resp, matches, ref_at, truncated_coeffs)

PROPERTY = "C01"
RULE = ("cases: random circuits with 1-4 tones, 1-4 harmonics, bias sweeps, drive levels and phases, "
        "truncation limits (one for all tones or one per tone), closed-form or modelled response functions "
        "and requested output frequencies (dc, harmonics, mixing products, absent ones); "
        "non-trivial: at least one tone is driven (level > 0.01) and a requested current exceeds 1e-6")
ASSUMPTIONS = ["tones are not harmonically related (documented domain)",
               "with several harmonics the summation limit is chosen large enough that truncation of the "
               "phase-factor spectrum is below the 1e-6 tolerance"]


@st.composite
def cases(draw, single=True):
    nf = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
    if single:
        np_ = 1
        # any truncation is exact here: sum over |k| <= num_b
        hi = {1: 14, 2: 7, 3: 4, 4: 2}[nf]
        amax = 3.0
        if draw(st.integers(0, 7)) == 0:        # strong drive, many photon numbers
            hi, amax = {1: 45, 2: 16, 3: 6, 4: 3}[nf], {1: 14.0, 2: 8.0, 3: 5.0, 4: 3.0}[nf]
        nb = [draw(st.integers(1, hi)) for _ in range(nf)]
    else:
        nf = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
        np_ = draw(st.integers(2, {1: 4, 2: 3, 3: 2}[nf]))
        lo = {1: 22, 2: 14, 3: 9}[nf]
        nb = [draw(st.integers(lo, lo + {1: 10, 2: 3, 3: 1}[nf])) for _ in range(nf)]
        amax = {1: 1.2, 2: 0.6, 3: 0.25}[nf] / (1 + 0.6 * (np_ - 2))
        more = draw(st.integers(0, 15))
        if more == 0:                           # many harmonics of one tone
            nf, np_, nb, amax = 1, draw(st.integers(5, 7)), [draw(st.integers(44, 50))], 0.15
        elif more == 1:
            nf, np_, nb, amax = 2, 4, [22, 22], 0.1
        elif more == 2:
            nf, np_, nb, amax = 4, 2, [5, 5, 5, 5], 0.03
    alpha, phase = draw(drive(nf, np_, amax))
    freq = draw(freqs(nf))
    uniform = draw(st.booleans())
    if uniform:
        num_b = max(nb) if not single else nb[0]
        if nf <= 2 and draw(st.integers(0, 5)) == 0 and (single or nf == 1):
            num_b = None                     # the documented default, 15
            if not single:
                alpha = [[a / 3 for a in al] for al in alpha]
    else:
        # surplus entries in the tuple are allowed and ignored
        num_b = nb + draw(st.lists(st.integers(1, 9), max_size=1))
    npts = {1: 4, 2: 4, 3: 3, 4: 2}[nf]
    vecs = draw(st.lists(st.tuples(*[st.integers(-np_, np_)] * nf), min_size=1, max_size=4))
    outs = []
    for v in vecs:
        f = float(np.dot(v, freq))
        if f < 0:
            f = -f
        outs.append(f + draw(st.sampled_from([0, 0, 1, -1])) * 1e-12 if f else f)
    if draw(st.booleans()):
        outs.append(0.0)
    if draw(st.integers(0, 4)) == 0:
        outs.append(round(draw(st.integers(1, 30000)) * 1e-4, 4))
    return {"freq": freq, "alpha": alpha, "phase": phase, "vb": draw(bias(npts)),
            "ramp": draw(st.sampled_from(RAMPS)), "num_b": num_b,
            "out": outs, "form": draw(st.sampled_from(["list", "tuple", "array", "scalar"])),
            "resp": draw(any_resp)}


def _run(c, t, tol):
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    outs = c["out"] if c["form"] != "scalar" else c["out"][:1]
    num_b = c["num_b"] if c["num_b"] is None or isinstance(c["num_b"], int) else tuple(c["num_b"])
    kw = {} if num_b is None else {"num_b": num_b}
    num_b = 15 if num_b is None else num_b
    nbl = [num_b] * nf if isinstance(num_b, int) else list(num_b[:nf])
    for f in outs:
        if matches(c["freq"], np_, f) is None:
            t.skip("ambiguous frequency match")
    cct = build_cct(c)
    vj = build_vj(c, cct)
    resp = make_resp(c["resp"])
    arg = {"list": list(outs), "tuple": tuple(outs), "array": np.array(outs), "scalar": outs[0]}[c["form"]]
    got = qtcurrent(vj, cct, resp, arg, verbose=False, **kw)
    if c["form"] == "scalar":
        t.check(np.shape(got) == (cct.vb_npts,), "scalar output frequency must give a 1-D current")
        if outs[0] == 0:
            t.check(not np.iscomplexobj(got), "scalar dc current must be real")
        got = np.asarray(got)[None, :]
    else:
        t.check(np.shape(got) == (len(outs), cct.vb_npts), "wrong output shape")
    big = 0.0
    pick = np.arange(cct.vb_npts)
    if len(pick) > 5:
        pick = np.unique([0, 1, len(pick) // 3, len(pick) // 2, len(pick) - 1])
    t.label("full sweep", cct.vb_npts > 5)
    for i, f in enumerate(outs):
        want = ref_at(c["freq"], vj[:, :, pick], cct.vb[pick], resp, nbl, np_, f)
        scale = 1 + np.max(np.abs(cct.vb)) + sum(b * g for b, g in zip(nbl, c["freq"]))
        if f == 0:
            t.check(np.all(np.imag(got[i]) == 0), "dc current has an imaginary part")
        t.close(got[i][pick], want, tol, "current at normalised frequency %s" % f, scale=scale)
        big = max(big, float(np.max(np.abs(want))))
        t.label("absent frequency", not matches(c["freq"], np_, f))
    t.label("tones=%d" % nf)
    t.label("harmonics=%d" % np_)
    t.label("per-tone limits", not isinstance(num_b, int))
    t.nontrivial(big > 1e-6 and np.max(c["alpha"]) > 0.01)


def exact(c, t):
    _run(c, t, 1e-11)


def harmonics(c, t):
    _run(c, t, 1e-6)


@st.composite
def short_case(draw):
    nf = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    np_ = draw(st.integers(2, {1: 5, 2: 3, 3: 2}[nf]))
    alpha, phase = draw(drive(nf, np_, 2.0))
    vecs = draw(st.lists(st.tuples(*[st.integers(-np_, np_)] * nf), min_size=1, max_size=3))
    return {"freq": draw(freqs(nf)), "alpha": alpha, "phase": phase, "vb": draw(bias(3)),
            "ramp": draw(st.sampled_from(RAMPS)), "num_b": draw(st.integers(1, {1: 14, 2: 8, 3: 4}[nf])),
            "vec": [list(v) for v in vecs] + [[0] * nf], "resp": draw(any_resp)}


def short_sums(c, t):
    """Few terms for many harmonics: the sums are cut where the limit says, or better."""
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    outs = [abs(float(np.dot(v, c["freq"]))) for v in c["vec"]]
    if any(matches(c["freq"], np_, f) is None for f in outs):
        t.skip("ambiguous frequency match")
    cct = build_cct(c)
    vj = build_vj(c, cct)
    resp = make_resp(c["resp"])
    got = qtcurrent(vj, cct, resp, outs, num_b=c["num_b"], verbose=False)
    pick = np.unique(np.linspace(0, cct.vb_npts - 1, 4).astype(int))
    nb = [c["num_b"]] * nf
    scale = 1 + np.max(np.abs(cct.vb)) + sum(c["num_b"] * f for f in c["freq"])
    apart = 0.0
    for i, f in enumerate(outs):
        arg = (c["freq"], vj[:, :, pick], cct.vb[pick], resp)
        cut = ref_at(*arg, nb, np_, f, truncated_coeffs)
        err = np.abs(got[i][pick] - cut)
        if np.all(err <= 1e-10 * scale):
            apart = max(apart, float(np.max(np.abs(cut))))
            continue
        # an evaluation that leaves out less is as good
        full = ref_at(*arg, nb, np_, f)
        t.check(np.all(np.abs(got[i][pick] - full) <= np.abs(cut - full) + 1e-10 * scale),
                "current at normalised frequency {} with sums cut at {} terms: {} instead of {}", f, c["num_b"],
                got[i][pick], cut)
    t.label("tones=%d" % nf)
    t.label("harmonics=%d" % np_)
    t.nontrivial(apart > 1e-6 and np.max(c["alpha"]) > 0.01)


CHECKS = [
    Check("single_harmonic", cases(True), exact, quick=6000, thorough=120000),
    Check("with_harmonics", cases(False), harmonics, quick=1000, thorough=16000),
    Check("short_sums", short_case(), short_sums, quick=800, thorough=16000),
]
assert combos
