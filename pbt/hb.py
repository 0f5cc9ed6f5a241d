"""Generators and oracles for harmonic balance."""

import numpy as np
from hypothesis import strategies as st

from pbt.core import grid
from pbt.sim import (analytic_resp, build_cct, drive, freqs, matches, pool_resp, ref_at)

# monotonic, junction-like closed-form responses keep Newton well behaved
junction_like = st.builds(
    lambda g, a, b, e: {"g": g, "dc": [[a, b, 0.0, 0.0]], "kk": [[e, 1.0]], "k0": 0.0},
    grid(0.3, 1.5, 12), grid(0, 0.5, 10), grid(0.5, 3, 5), grid(-0.5, 0.5, 10))
hb_resp = st.one_of(junction_like, pool_resp, analytic_resp)


@st.composite
def hb_case(draw, tones=(1, 1, 1, 2, 2, 3), resp=hb_resp, zero_z=True):
    nf = draw(st.sampled_from(list(tones)))
    if nf == 3 and draw(st.integers(0, 3)) == 0:
        nf = 4
    np_ = draw(st.sampled_from({1: [1, 1, 2, 3, 4], 2: [1, 1, 2], 3: [1], 4: [1]}[nf]))
    nb = {1: 15, 2: 8, 3: 4, 4: 2}[nf] if np_ == 1 else {1: 20 if np_ < 4 else 36, 2: 11, 3: 5}[nf]
    nb = [nb + draw(st.integers(0, 2 if nf < 3 else 0)) for _ in range(nf)]
    alpha, phase = draw(drive(nf, np_, {1: 1.6, 2: 0.9, 3: 0.4, 4: 0.3}[nf] / np_))
    zt = [[[draw(grid(0.02, 2.0, 99)), draw(grid(-1, 1, 40))] for _ in range(np_)] for _ in range(nf)]
    if zero_z and draw(st.integers(0, 3)) == 0:
        zt[draw(st.integers(0, nf - 1))][draw(st.integers(0, np_ - 1))] = [0.0, 0.0]
    if zero_z and draw(st.integers(0, 5)) == 0:
        alpha[draw(st.integers(0, nf - 1))][0] = 0.0
    if zero_z:
        kind = draw(st.integers(0, 15))
        if kind < 2:                                   # nothing dissipates: a purely reactive circuit
            zt = [[[0.0, x if abs(x) > 0.01 else 0.3] for _, x in row] for row in zt]
        elif kind == 2:                                # only the harmonics see an impedance
            zt = [[[0.0, 0.0]] + row[1:] for row in zt]
        elif kind == 3:                                # one reactive signal
            zt[draw(st.integers(0, nf - 1))][draw(st.integers(0, np_ - 1))][0] = 0.0
        elif kind == 4:                                # purely resistive
            zt = [[[r, 0.0] for r, _ in row] for row in zt]
    a = draw(grid(0, 1.5, 60))
    npts = draw(st.integers(1, {1: 5, 2: 3, 3: 2, 4: 2}[nf]))
    if np_ == 1 and nf == 1 and draw(st.integers(0, 9)) == 0:       # a full sweep
        npts = draw(st.sampled_from([33, 64, 101]))
    return {"freq": draw(freqs(nf, 1500, 6000)), "alpha": alpha, "phase": phase, "zt": zt,
            "vb": [a, a + draw(grid(0, 0.8, 8)), npts] + draw(st.sampled_from([[], [], ["dense_low"], ["down"], ["mixed"]])),
            "num_b": nb if draw(st.booleans()) else int(min(nb)),
            "stop": draw(st.sampled_from([1e-3, 1e-2, 1e-4, 1e-6])),
            "max_it": draw(st.sampled_from([10, 20, 5, 3, 2, 1, 0])),
            "damp": draw(st.sampled_from([1.0, 1.0, 0.8, 0.5])),
            "guess": draw(st.sampled_from([0.67, 0.67, 0.4, 1.0])),
            "init": draw(st.sampled_from([None, None, 0.5, 1.0, 2.0])),
            "resp": draw(resp)}


def hb_circuit(c, t):
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    for f in c["freq"]:
        for p in range(1, np_ + 1):
            if matches(c["freq"], np_, f * p) is None:
                t.skip("ambiguous frequency match")
    cct = build_cct(c)
    for f in range(nf):
        for p in range(np_):
            z = complex(*c["zt"][f][p])
            cct.zt[f + 1, p + 1] = z
            cct.vt[f + 1, p + 1] = (c["alpha"][f][p] * (p + 1) * c["freq"][f] * (1 + z / 0.67)
                                    * np.exp(1j * c["phase"][f][p]))
    return cct


def num_b_of(c):
    return c["num_b"] if isinstance(c["num_b"], int) else tuple(c["num_b"])


def nb_list(c):
    n = c["num_b"]
    return [n] * len(c["freq"]) if isinstance(n, int) else list(n)


def initial(c, cct):
    if c["init"] is None:
        return None
    vj = cct.initialize_vj()
    vj[1:, 1:, :] = (c["init"] * (cct.vt[1:, 1:] + 0.01) * 0.67 / (0.67 + np.abs(cct.zt[1:, 1:])))[:, :, None]
    return vj


def residual(c, cct, resp, vj):
    """|vt - zt I(vj) - vj| and the currents, from the reference model."""
    nf, np_ = cct.num_f, cct.num_p
    err = np.zeros((nf, np_, cct.vb_npts))
    cur = np.zeros((nf, np_, cct.vb_npts), dtype=complex)
    for f in range(1, nf + 1):
        for p in range(1, np_ + 1):
            i = ref_at(c["freq"], vj, cct.vb, resp, nb_list(c), np_, c["freq"][f - 1] * p)
            cur[f - 1, p - 1] = i
            err[f - 1, p - 1] = np.abs(cct.vt[f, p] - cct.zt[f, p] * i - vj[f, p])
    return err, cur


def slack(cct):
    """Truncation of the reference spectrum plus the 1e-10 floor on idle sources."""
    trunc = 1e-6 if cct.num_p > 1 else 1e-10
    return (trunc * np.abs(cct.zt[1:, 1:]) + 1.1e-10)[:, :, None]


def resolved(c, cct, vj):
    """Does the summation limit cover the spectrum of these voltages?  (One harmonic: nothing is convolved, so always.)"""
    if cct.num_p == 1:
        return True
    top = [np.max(sum(np.abs(vj[f, p]) / cct.freq[f] for p in range(1, cct.num_p + 1))) for f in range(1, cct.num_f + 1)]
    return all(a + 8 <= n for a, n in zip(top, nb_list(c)))
