"""Shared generators and reference models for the simulation half of qmix."""

import contextlib
import io
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.special import jv

import qmix
from qmix.circuit import EmbeddingCircuit
import qmix.respfn as respfn

from pbt.core import grid


# --------------------------------------------------------------------------
# Response functions
# --------------------------------------------------------------------------

class AnalyticResp(respfn.RespFn):
    """A response function given in closed form (odd I-V, even KK part).

    idc(v) = g v + sum_j a_j tanh(b_j v) + c_j sin(d_j v)
    ikk(v) = sum_j e_j cos(h_j v) + k0
    It need not satisfy Kramers-Kronig: the current formulae hold for any
    response function.
    """

    def __init__(self, g=1.0, dc=(), kk=(), k0=0.0):
        self.g, self.dc, self.kkt, self.k0 = g, [tuple(x) for x in dc], [tuple(x) for x in kk], k0
        self._f_idc, self._f_ikk = self.idc, self.ikk

    def idc(self, v):
        v = np.asarray(v, dtype=float)
        out = self.g * v
        for a, b, c, d in self.dc:
            out = out + a * np.tanh(b * v) + c * np.sin(d * v)
        return out

    def ikk(self, v):
        v = np.asarray(v, dtype=float)
        out = np.full(v.shape, float(self.k0))
        for e, h in self.kkt:
            out = out + e * np.cos(h * v)
        return out

    def resp(self, v):
        return self.ikk(v) + 1j * self.idc(v)

    def resp_conj(self, v):
        return self.ikk(v) - 1j * self.idc(v)

    def resp_swap(self, v):
        return self.idc(v) + 1j * self.ikk(v)

    def __call__(self, v):
        return self.resp(v)


_POOL = {
    "poly10": lambda: respfn.RespFnPolynomial(10, verbose=False),
    "poly30": lambda: respfn.RespFnPolynomial(30, verbose=False),
    "poly50": lambda: respfn.RespFnPolynomial(50, verbose=False),
    "exp": lambda: respfn.RespFnExponential(2.8e-3, 14, 300, 4e4, verbose=False),
    "exp_soft": lambda: respfn.RespFnExponential(2.7e-3, 13.5, 150, 1.5e4, verbose=False),
    "perfect": lambda: respfn.RespFnPerfect(verbose=False),
    "perfect_s": lambda: respfn.RespFnPerfect(v_smear=0.03, verbose=False),
}
_CACHE = {}


def make_resp(desc):
    if isinstance(desc, str):
        if desc not in _CACHE:
            with quiet():
                _CACHE[desc] = _POOL[desc]()
        return _CACHE[desc]
    return AnalyticResp(desc["g"], desc["dc"], desc["kk"], desc["k0"])


analytic_resp = st.fixed_dictionaries({
    "g": grid(0, 2, 20),
    "dc": st.lists(st.tuples(grid(-1, 1, 20), grid(0, 6, 12), grid(-1, 1, 20), grid(0, 4, 8)).map(list),
                   min_size=0, max_size=2),
    "kk": st.lists(st.tuples(grid(-1, 1, 20), grid(0, 4, 8)).map(list), min_size=1, max_size=2),
    "k0": grid(-1, 1, 4),
})
pool_resp = st.sampled_from(["poly30", "poly10", "poly50", "exp", "exp_soft", "perfect_s"])
any_resp = st.one_of(analytic_resp, analytic_resp, pool_resp)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# --------------------------------------------------------------------------
# Driven circuits
# --------------------------------------------------------------------------

@st.composite
def freqs(draw, nf, lo=300, hi=9000, off_grid=True):
    """nf normalised frequencies, mostly on the 1e-4 grid the tool works on."""
    if hi == 9000 and draw(st.integers(0, 7)) == 0:
        hi = 22000                  # photon energies above the gap
    ks = draw(st.lists(st.integers(lo, hi), min_size=nf, max_size=nf, unique=True))
    out = []
    for k in ks:
        # (sums that end up at a rounding tie are left out by `matches`)
        d = draw(st.sampled_from([0, 0, 0, 0, 2, -3, 17.3, 37.1, -41.7])) if off_grid else 0
        out.append(round(k * 1e-4 + d * 1e-6, 9))
    return out


@st.composite
def drive(draw, nf, np_, amax):
    """Per tone/harmonic drive level and phase (some of them exactly zero)."""
    # signals many orders of magnitude below the pump (IF, leakage) are normal
    weak = st.sampled_from([1e-2, 3e-3, 9e-4, 1e-4, 2e-6])
    alpha, phase = [], []
    for _ in range(nf):
        alpha.append([draw(st.one_of(grid(0, amax, 200), st.just(0.0), weak)) if p else
                      draw(st.one_of(grid(0, amax, 200), grid(0, amax, 200), weak)) for p in range(np_)])
        phase.append([draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, -0.5, 0.123, -0.77, 0.9])) * np.pi
                      if draw(st.booleans()) else draw(grid(-np.pi, np.pi, 360)) for _ in range(np_)])
    return alpha, phase


@st.composite
def bias(draw, max_pts=4, symmetric=False):
    n = draw(st.integers(1, max_pts))
    if draw(st.integers(0, 15)) == 0:           # a full sweep
        n = draw(st.sampled_from([17, 33, 64, 101, 130, 257]))
    if symmetric:
        v = draw(grid(0, 2, 40))
        return [-v, v, n]
    a = draw(grid(0, 1.6, 64))
    w = draw(grid(0, 1, 20))
    neg = draw(st.booleans())
    out = [-(a + w), -a, n] if neg else [a, a + w, n]
    bow = draw(st.sampled_from(BOWS))
    return out + [bow] if bow else out


# how the bias points are spread between their limits
BOWS = [None, None, None, "dense_low", "dense_high", "down", "mixed", "pairs"]


def bias_points(vb):
    """Bias voltages described by [lowest, highest, number] or [lowest, highest, number, spread]."""
    u = np.linspace(0, 1, vb[2])
    how = vb[3] if len(vb) > 3 else None
    if how == "dense_low":
        u = u ** 2
    elif how == "dense_high":
        u = np.sqrt(u)
    elif how == "down":
        u = u[::-1]
    elif how == "mixed":
        u = np.r_[u[::2], u[1::2][::-1]]
    elif how == "pairs":            # the same voltage twice
        u = u[np.arange(vb[2]) // 2 * 2]
    return vb[0] + (vb[1] - vb[0]) * u


def set_bias(cct, vb):
    if len(vb) > 3:
        cct.vb[:] = bias_points(vb)
    return cct


def build_cct(c):
    nf, np_ = len(c["freq"]), len(c["alpha"][0])
    cct = EmbeddingCircuit(nf, np_, vb_min=c["vb"][0], vb_max=c["vb"][1], vb_npts=c["vb"][2])
    cct.freq[1:] = c["freq"]
    return set_bias(cct, c["vb"])


# signal levels along a sweep that differ by orders of magnitude
SPREADS = {"fading": np.array([1, 1e-5, 0.1, 0, 3e-3, 0.5, 1e-8, 0.02]),
           "rising": np.array([1e-6, 2e-3, 0.7, 1, 0.03, 0.0, 1e-4, 0.3]),
           "faint": np.array([1, 1e-6, 1e-9, 1e-4, 0.2, 1e-2, 1e-7, 0.6])}
RAMPS = [0.0, 0.3, 0.6, "fading", "rising", "faint"]


def build_vj(c, cct, per_bias=True):
    """Junction voltage; varies (deterministically) along the bias sweep."""
    vj = cct.initialize_vj()
    n = cct.vb_npts
    ramp = np.ones(n)
    turn = np.zeros(n)
    if per_bias and isinstance(c.get("ramp"), str):
        ramp = np.resize(np.roll(SPREADS[c["ramp"]], -c.get("from", 0)), n)
        turn = 0.3 * np.arange(n)
    elif per_bias and c.get("ramp"):
        ramp = 1 - c["ramp"] * np.arange(n) / max(n, 1)
        turn = 0.7 * c["ramp"] * np.arange(n)
    for f in range(cct.num_f):
        for p in range(cct.num_p):
            vj[f + 1, p + 1] = (c["alpha"][f][p] * (p + 1) * c["freq"][f] * ramp
                                * np.exp(1j * (c["phase"][f][p] + turn)))
    return vj


def combos(nf, np_):
    return list(itertools.product(range(-np_, np_ + 1), repeat=nf))


def matches(freq, np_, fout, tol=3e-4):
    """Index vectors whose frequency is `fout`.

    Returns None when some vector is neither clearly equal nor clearly
    different (the tool compares frequencies rounded to four decimals), or
    when a non-trivial vector sums to zero (commensurate tones: outside the
    documented domain of non-harmonically related tones).
    """
    hit = []
    freq = np.asarray(freq)
    for a in combos(len(freq), np_):
        s = float(np.dot(a, freq))
        d = abs(s - fout)
        if any(a) and abs(s) < tol:
            return None
        if d < 1e-8:
            if abs((s * 1e4) % 1 - 0.5) < 2e-4:
                return None
            hit.append(a)
        elif d < tol:
            return None
    return hit


def phase_coeffs(alpha, phase, num_b, nfft=512):
    """Fourier coefficients of exp(-i sum_p alpha_p sin(p th + phi_p)).

    Returned as {k: coefficient of e^{-ik th}} in FFT order, length nfft.
    """
    th = 2 * np.pi * np.arange(nfft) / nfft
    arg = np.zeros(nfft)
    for p, (a, f) in enumerate(zip(alpha, phase), start=1):
        arg += a * np.sin(p * th + f)
    return np.fft.ifft(np.exp(-1j * arg))


def truncated_coeffs(alpha, phase, num_b, nfft=512):
    """The same, with every harmonic's own series and every partial product cut at num_b."""
    k = np.arange(-num_b, num_b + 1)
    total = None
    for p, (a, f) in enumerate(zip(alpha, phase), start=1):
        own = jv(k, a) * np.exp(-1j * k * f)
        if total is None:
            total = own
            continue
        new = np.zeros_like(total)
        for i, kk in enumerate(k):
            ok = np.abs(kk - p * k) <= num_b
            new[i] = np.sum(total[(kk - p * k[ok]) + num_b] * own[ok])
        total = new
    out = np.zeros(nfft, dtype=complex)
    out[k] = total
    return out


def ref_current(freq, vj, vb, resp, num_b, index_vectors, coeffs=phase_coeffs):
    """Reference tunnelling currents.

    vj: [num_f+1, num_p+1, npts].  Evaluates the junction current as a real
    function on the torus of tone phases, I(th) = Im{U*(th) W(th)} with
    U = sum C_k e^{-ik.th} and W = sum C_k R(V + k.f) e^{-ik.th}, and reads the
    requested Fourier amplitudes off a multidimensional FFT.
    Returns complex array [len(index_vectors), npts].
    """
    freq = np.asarray(freq, dtype=float)
    nf = len(freq)
    num_p = vj.shape[1] - 1
    npts = len(vb)
    n_ax = [4 * b + 4 for b in num_b]
    for f in range(nf):
        need = 2 * (num_b[f] + max([abs(a[f]) for a in index_vectors] + [0])) + 2
        n_ax[f] = max(n_ax[f], need)
    ks = [np.arange(-b, b + 1) for b in num_b]
    mesh = np.meshgrid(*ks, indexing="ij")
    shift = sum(m * f for m, f in zip(mesh, freq))
    pos = np.ix_(*[(-k) % n for k, n in zip(ks, n_ax)])
    out = np.zeros((len(index_vectors), npts), dtype=complex)
    for i in range(npts):
        c_all = np.ones(())
        for f in range(nf):
            v = vj[f + 1, 1:, i]
            pp = np.arange(1, num_p + 1)
            c = coeffs(np.abs(v) / (pp * freq[f]), np.angle(v), num_b[f])
            c = c[ks[f]]                 # coefficient of e^{-ik th}
            c_all = np.multiply.outer(c_all, c)
        r = resp(vb[i] + shift)
        u = np.zeros(n_ax, dtype=complex)
        w = np.zeros(n_ax, dtype=complex)
        u[pos] = c_all                   # slot -k: coefficient of e^{i(-k) th}
        w[pos] = c_all * r
        size = np.prod(n_ax)
        cur = np.imag(np.conj(np.fft.ifftn(u)) * np.fft.ifftn(w)) * size ** 2
        amp = np.fft.fftn(cur) / size
        for j, a in enumerate(index_vectors):
            val = amp[tuple(k % n for k, n in zip(a, n_ax))]
            out[j, i] = val if not any(a) else 2 * val
    return out


def ref_at(freq, vj, vb, resp, num_b, np_, fout, coeffs=phase_coeffs):
    """Reference current at one output frequency (None: outside the domain)."""
    hit = matches(freq, np_, fout)
    if hit is None:
        return None
    if not hit:
        return np.zeros(len(vb), dtype=complex)
    return ref_current(freq, vj, vb, resp, num_b, hit, coeffs).sum(axis=0)


__all__ = [n for n in dir() if not n.startswith("__")]
assert qmix
