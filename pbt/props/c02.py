"""C02: symmetries and invariances of the tunnelling currents."""

import numpy as np
from hypothesis import strategies as st

from qmix.circuit import EmbeddingCircuit
from qmix.qtcurrent import qtcurrent, interpolate_respfn
from pbt.core import Check, grid
from pbt.sim import (RAMPS, set_bias, AnalyticResp, analytic_resp, any_resp, bias, build_cct, build_vj, drive,
                     freqs, make_resp, matches)

PROPERTY = "C02"
RULE = ("cases: random driven circuits (1-4 tones, 1-3 harmonics) paired with a transformed description of the same "
        "physical situation; non-trivial: some tone is driven (level > 0.01) and the compared currents are not all "
        "below 1e-6")
ASSUMPTIONS = ["tones are not harmonically related (documented domain)"]


@st.composite
def base(draw, tones=(1, 2, 2, 3), harm=(1, 1, 2), symmetric=False, resp=any_resp, nbmax=None):
    nf = draw(st.sampled_from(list(tones)))
    np_ = draw(st.sampled_from(list(harm))) if nf < 4 else 1
    hi = (nbmax or {1: 14, 2: 7, 3: 4, 4: 2})[nf]
    nb = [draw(st.integers(2, hi)) for _ in range(nf)]
    # (now and then a strong drive with many photon numbers)
    alpha, phase = draw(drive(nf, np_, draw(st.sampled_from([2.0, 2.0, 2.0, 6.0]))))
    vecs = draw(st.lists(st.tuples(*[st.integers(-np_, np_)] * nf), min_size=1, max_size=3))
    return {"freq": draw(freqs(nf)), "alpha": alpha, "phase": phase,
            "vb": draw(bias(3, symmetric)), "ramp": draw(st.sampled_from(RAMPS)),
            "num_b": nb, "vec": [list(v) for v in vecs] + [[0] * nf], "resp": draw(resp)}


def prepare(c, t):
    np_ = len(c["alpha"][0])
    outs, vecs = [], []
    for v in c["vec"]:
        f = float(np.dot(v, c["freq"]))
        if f < 0:
            v, f = [-k for k in v], -f
        m = matches(c["freq"], np_, f)
        if m is None:
            t.skip("ambiguous frequency match")
        outs.append(f)
        vecs.append(v)
    cct = build_cct(c)
    vj = build_vj(c, cct)
    return cct, vj, make_resp(c["resp"]), outs, vecs


def scale_of(cct, nb):
    return 1 + np.max(np.abs(cct.vb)) + float(np.dot(nb, cct.freq[1:]))


def note(c, t, cur):
    t.nontrivial(np.max(c["alpha"]) > 0.01 and np.max(np.abs(cur)) > 1e-6)
    t.label("tones=%d" % len(c["freq"]))


# -- relabelling the tones --------------------------------------------------

@st.composite
def perm_case(draw):
    c = draw(base(tones=(2, 2, 3, 4)))
    c["perm"] = draw(st.permutations(list(range(len(c["freq"])))))
    return c


def permutation(c, t):
    cct, vj, resp, outs, _ = prepare(c, t)
    nf = len(c["freq"])
    a = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    pm = c["perm"]
    d = build_cct(c)
    d.freq[1:] = np.array(c["freq"])[pm]
    wj = np.zeros_like(vj)
    for i in range(nf):
        wj[i + 1] = vj[pm[i] + 1]
    b = qtcurrent(wj, d, resp, outs, num_b=tuple(c["num_b"][i] for i in pm), verbose=False)
    t.close(b, a, 1e-10, "currents after relabelling the tones", scale=scale_of(cct, c["num_b"]))
    note(c, t, a)
    if pm == sorted(pm):
        t.trivial = True


# -- tones and harmonics that carry no signal -------------------------------

@st.composite
def idle_case(draw):
    c = draw(base(tones=(1, 1, 2, 3), harm=(1, 1, 2, 3), nbmax={1: 12, 2: 6, 3: 3}))
    c["idle_freq"] = round(draw(st.integers(300, 9000)) * 1e-4, 4)
    c["where"] = draw(st.integers(0, len(c["freq"])))
    # (with several harmonics the largest limit sets the common truncation)
    c["idle_nb"] = draw(st.integers(1, min(3, max(c["num_b"]))))
    return c


def idle_tone(c, t):
    cct, vj, resp, outs, _ = prepare(c, t)
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    w = c["where"]
    fr = list(c["freq"])
    fr.insert(w, c["idle_freq"])
    want_hits = [matches(c["freq"], np_, f) for f in outs]
    for f, h in zip(outs, want_hits):
        m = matches(fr, np_, f)
        if m is None or len(m) != len(h):
            t.skip("idle tone coincides with a mixing product")
    nb = list(c["num_b"])
    nb.insert(w, c["idle_nb"])
    a = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    d = EmbeddingCircuit(nf + 1, np_, vb_min=c["vb"][0], vb_max=c["vb"][1], vb_npts=c["vb"][2])
    set_bias(d, c["vb"])
    d.freq[1:] = fr
    wj = d.initialize_vj()
    src = [i for i in range(nf + 1) if i != w]
    for i, k in enumerate(src):
        wj[k + 1] = vj[i + 1]
    b = qtcurrent(wj, d, resp, outs, num_b=tuple(nb), verbose=False)
    t.close(b, a, 1e-10, "currents after adding a tone without signal", scale=scale_of(cct, c["num_b"]))
    idle = qtcurrent(wj, d, resp, [c["idle_freq"]], num_b=tuple(nb), verbose=False)
    if matches(fr, np_, c["idle_freq"]) == [tuple(int(i == w) for i in range(nf + 1))]:
        t.close(idle, np.zeros_like(idle), 1e-10, "current at the frequency of the tone without signal",
                scale=scale_of(d, nb))
    note(c, t, a)


def idle_harmonic(c, t):
    cct, vj, resp, outs, _ = prepare(c, t)
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    for f in outs:
        m = matches(c["freq"], np_ + 1, f)
        if m is None or len(m) != len(matches(c["freq"], np_, f)):
            t.skip("a higher mixing product coincides")
    a = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    d = EmbeddingCircuit(nf, np_ + 1, vb_min=c["vb"][0], vb_max=c["vb"][1], vb_npts=c["vb"][2])
    set_bias(d, c["vb"])
    d.freq[1:] = c["freq"]
    wj = d.initialize_vj()
    wj[:, :-1] = vj
    b = qtcurrent(wj, d, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    t.close(b, a, 1e-10, "currents after adding a harmonic without signal", scale=scale_of(cct, c["num_b"]))
    note(c, t, a)


# -- the same signal as a harmonic of a lower fundamental --------------------

@st.composite
def harm_case(draw):
    c = draw(base(tones=(1, 1, 2), harm=(1,), nbmax={1: 7, 2: 3}))
    c["sub"] = [draw(st.integers(1, 3)) for _ in c["freq"]]
    c["freq"] = [f * s for f, s in zip(draw(freqs(len(c["freq"]), 200, 3000, off_grid=False)), c["sub"])]
    return c


def as_harmonic(c, t):
    nf = len(c["freq"])
    P = max(c["sub"])
    low = [f / s for f, s in zip(c["freq"], c["sub"])]
    vecs = [v for v in c["vec"]]
    outs = []
    for v in vecs:
        f = abs(float(np.dot(v, c["freq"])))
        m = matches(c["freq"], 1, f)
        # the same output as seen from the lower fundamentals
        n = matches(low, P, f)
        if m is None or n is None or len(m) != len(n):
            t.skip("ambiguous frequency match")
        ok = all(any(all(b == a * s for a, b, s in zip(va, vb_, c["sub"])) for vb_ in n) for va in m)
        if not ok:
            t.skip("output not representable")
        outs.append(f)
    cct = build_cct(c)
    vj = build_vj(c, cct)
    resp = make_resp(c["resp"])
    a = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    d = EmbeddingCircuit(nf, P, vb_min=c["vb"][0], vb_max=c["vb"][1], vb_npts=c["vb"][2])
    set_bias(d, c["vb"])
    d.freq[1:] = low
    wj = d.initialize_vj()
    for i, s in enumerate(c["sub"]):
        wj[i + 1, s] = vj[i + 1, 1]
    b = qtcurrent(wj, d, resp, outs, num_b=tuple(n * s for n, s in zip(c["num_b"], c["sub"])), verbose=False)
    t.close(b, a, 1e-10, "currents with the signal written as a harmonic", scale=scale_of(cct, c["num_b"]))
    note(c, t, a)
    if P == 1:
        t.trivial = True


# -- time shift and sign reversal -------------------------------------------

@st.composite
def shift_case(draw):
    c = draw(base(tones=(1, 2, 2, 3, 4), harm=(1, 2, 3)))
    c["shift"] = [draw(grid(-np.pi, np.pi, 120)) for _ in c["freq"]]
    return c


def time_shift(c, t):
    cct, vj, resp, outs, _ = prepare(c, t)
    np_ = len(c["alpha"][0])
    hits = [matches(c["freq"], np_, f) for f in outs]
    if any(len(h) > 1 for h in hits):
        t.skip("two mixing products share a frequency")
    a = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    wj = vj.copy()
    for f, s in enumerate(c["shift"], start=1):
        for p in range(1, np_ + 1):
            wj[f, p] = vj[f, p] * np.exp(1j * p * s)
    b = qtcurrent(wj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    rot = np.array([np.exp(1j * float(np.dot(h[0], c["shift"]))) if h else 1.0 for h in hits])
    t.close(b, a * rot[:, None], 1e-10, "currents after shifting the phase of each tone",
            scale=scale_of(cct, c["num_b"]))
    note(c, t, a)


def reversal(c, t):
    cct, vj, resp, outs, _ = prepare(c, t)
    a = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    d = build_cct(c)
    d.vb = -cct.vb
    b = qtcurrent(-vj, d, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    # modelled response functions are odd/even to within their interpolation error
    tol = 1e-10 if not isinstance(c["resp"], str) else 2e-3
    t.close(b, -a, tol, "currents after reversing bias and signal", scale=scale_of(cct, c["num_b"]))
    note(c, t, a)


# -- every bias point stands alone -------------------------------------------

@st.composite
def point_case(draw):
    c = draw(base())
    c["vb"] = [c["vb"][0], c["vb"][1] + 0.11, draw(st.integers(2, 5))] + c["vb"][3:]
    c["pick"] = draw(st.integers(0, c["vb"][2] - 1))
    return c


def bias_points(c, t):
    cct, vj, resp, outs, _ = prepare(c, t)
    i = c["pick"]
    a = qtcurrent(vj, cct, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    d = EmbeddingCircuit(cct.num_f, cct.num_p, vb_min=cct.vb[i], vb_max=cct.vb[i], vb_npts=1)
    d.freq[1:] = c["freq"]
    b = qtcurrent(vj[:, :, i:i + 1].copy(), d, resp, outs, num_b=tuple(c["num_b"]), verbose=False)
    t.close(b[:, 0], a[:, i], 1e-10, "current at one bias point computed alone", scale=scale_of(cct, c["num_b"]))
    note(c, t, a)


# -- how the request is phrased ----------------------------------------------

@st.composite
def request_case(draw):
    c = draw(base(tones=(1, 2, 2, 3, 4), harm=(1, 2)))
    c["perm"] = draw(st.permutations(list(range(len(c["vec"])))))
    c["uniform"] = draw(st.booleans())
    return c


def request_form(c, t):
    cct, vj, resp, outs, _ = prepare(c, t)
    nb = tuple(c["num_b"]) if not c["uniform"] else int(min(c["num_b"]))
    a = qtcurrent(vj, cct, resp, outs, num_b=nb, verbose=False)
    tol = dict(scale=scale_of(cct, c["num_b"]))
    order = [outs[i] for i in c["perm"]]
    b = qtcurrent(vj, cct, resp, np.array(order), num_b=nb, verbose=True)
    t.close(b, a[c["perm"]], 1e-11, "currents with the output frequencies reordered", **tol)
    m = interpolate_respfn(cct, resp, nb)
    b = qtcurrent(vj, cct, resp, tuple(outs), num_b=nb, verbose=False, resp_matrix=m)
    t.close(b, a, 1e-11, "currents with the response function interpolated in advance", **tol)
    for i, f in enumerate(outs):
        s = qtcurrent(vj, cct, resp, f, num_b=nb, verbose=False)
        t.close(s, a[i].real if f == 0 else a[i], 1e-11, "current requested as a single frequency", **tol)
    if c["uniform"]:
        b = qtcurrent(vj, cct, resp, outs, num_b=(nb,) * cct.num_f, verbose=False)
        t.close(b, a, 1e-11, "one summation limit for all tones against the same limit per tone", **tol)
    note(c, t, a)


# -- linearity in the response function ---------------------------------------

@st.composite
def linear_case(draw):
    c = draw(base(tones=(1, 2, 2, 3), resp=analytic_resp))
    c["resp2"] = draw(analytic_resp)
    c["mix"] = draw(grid(-2, 2, 16))
    return c


class _Sum(AnalyticResp):
    def __init__(self, a, b, k):
        self.a, self.b, self.k = a, b, k
        self._f_idc, self._f_ikk = self.idc, self.ikk

    def idc(self, v):
        return self.a.idc(v) + self.k * self.b.idc(v)

    def ikk(self, v):
        return self.a.ikk(v) + self.k * self.b.ikk(v)


def linearity(c, t):
    cct, vj, r1, outs, _ = prepare(c, t)
    r2 = make_resp(c["resp2"])
    kw = dict(num_b=tuple(c["num_b"]), verbose=False)
    a = qtcurrent(vj, cct, r1, outs, **kw)
    b = qtcurrent(vj, cct, r2, outs, **kw)
    s = qtcurrent(vj, cct, _Sum(r1, r2, c["mix"]), outs, **kw)
    t.close(s, a + c["mix"] * b, 1e-10, "currents for a sum of two response functions",
            scale=3 * scale_of(cct, c["num_b"]))
    note(c, t, a)


CHECKS = [
    Check("permutation", perm_case(), permutation, quick=1250, thorough=12000),
    Check("idle_tone", idle_case(), idle_tone, quick=1000, thorough=10000),
    Check("idle_harmonic", idle_case(), idle_harmonic, quick=1000, thorough=10000),
    Check("as_harmonic", harm_case(), as_harmonic, quick=1000, thorough=10000),
    Check("time_shift", shift_case(), time_shift, quick=1250, thorough=12000),
    Check("reversal", base(tones=(1, 2, 2, 3, 4), symmetric=False), reversal, quick=1000, thorough=10000),
    Check("bias_points", point_case(), bias_points, quick=1000, thorough=10000),
    Check("request_form", request_case(), request_form, quick=1250, thorough=12000),
    Check("linearity", linear_case(), linearity, quick=750, thorough=8000),
]
