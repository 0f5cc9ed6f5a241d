"""C18: impedance recovery finds the embedding circuit that produced a pumped I-V curve."""

import functools

import numpy as np
from hypothesis import strategies as st
from scipy.special import jv

from qmix.circuit import EmbeddingCircuit
from qmix.exp.exp_data import DCData, PumpedData
from qmix.harmonic_balance import harmonic_balance
from qmix.qtcurrent import qtcurrent
from pbt.core import Check, grid
from pbt.lab import current, quiet, sweep, table

PROPERTY = "C18"
RULE = ("cases: pumped I-V curves calculated for a random embedding circuit (impedance, source level, photon voltage) by an "
        "independent large-signal solver, recovered with generated fit and search ranges, drive limits, forced impedances and "
        "disturbed currents; non-trivial: drive level between 0.2 and 1.6 and complex impedance")
ASSUMPTIONS = ["one tone, one harmonic, first photon step (the method's domain)", "impedances are searched on a 101 x 201 grid",
               "the recovery sees the same response function as the simulation"]

JUNCTIONS = [dict(vgap=v, rn=r, leak=s, agap=a, ileak=.03, w=5e-5)
             for v, r, s, a in ((2.4e-3, 8., 12., 5e4), (2.8e-3, 14., 25., 4e4), (2.7e-3, 33., 50., 3e4))]


@functools.lru_cache(maxsize=None)
def dc_data(k):
    j = JUNCTIONS[k]
    v = sweep(6e-3, 4e-6)
    return quiet(DCData, table(v, current(j, v)), verbose=False, voffset=0.0, ioffset=0.0)


@st.composite
def case(draw):
    forced = draw(st.sampled_from([None, None, None, None, "true", "wrong", "real", "reactive", "short"]))
    return {"j": draw(st.integers(0, 2)), "vph": draw(grid(0.2, 0.5, 60)), "zt": [draw(grid(0.1, 0.95, 85)), draw(grid(-0.85, 0.85, 170))],
            "alpha": draw(grid(0.35, 1.25, 90)), "fit": draw(st.sampled_from(["default", "default", "none", [0.2, 0.7], [0.3, 0.85], "cut"])),
            "range": draw(st.sampled_from([None, None, None, [[0.05, 1.5], [-1.2, 1.2]], [[0, 0.5], [-0.5, 0.5]]])),
            "amax": draw(st.sampled_from([None, 1.5, 2.0])), "num_b": draw(st.sampled_from([None, 15, 25])), "forced": forced,
            "other": [draw(grid(0.05, 0.95, 90)), draw(grid(-0.9, 0.9, 180))],
            "spoil": draw(st.sampled_from([None, None, None, "tilt", "bump", "noise"])), "amount": draw(grid(0.001, 0.03, 29)),
            "seed": draw(st.integers(0, 999))}


def idc_of(resp, v, vph, alpha, nb=15):
    out = np.zeros_like(v)
    for n in range(-nb, nb + 1):
        out += jv(n, alpha) ** 2 * resp.idc(v + n * vph)
    return out


def iac_of(resp, v, vph, alpha, nb=15):
    """Large-signal ac current of a sinusoidally driven junction."""
    out = np.zeros(len(v), dtype=complex)
    for n in range(-nb, nb + 1):
        jm, j0, jp = jv(n - 1, alpha), jv(n, alpha), jv(n + 1, alpha)
        out += j0 * (jm + jp) * resp.idc(v + n * vph) + 1j * j0 * (jm - jp) * resp.ikk(v + n * vph)
    return out


def bisect(fn, target, lo, hi, n=36):
    """Smallest-first bisection of a function that increases with alpha."""
    lo, hi = lo.copy(), hi.copy()
    for _ in range(n):
        mid = (lo + hi) / 2
        up = fn(mid) < target
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return (lo + hi) / 2


def simulate(resp, vph, zt, vs, v):
    """Drive level and dc current at bias voltages v for a source vs behind zt."""
    def level(a):
        return np.abs(a * vph + zt * iac_of(resp, v, vph, a))
    a = bisect(level, vs, np.zeros_like(v), np.full_like(v, 4.0))
    return a, idc_of(resp, v, vph, a)


def error(av, z, zs):
    """Mean squared mismatch of |V| for the best source level, from first principles."""
    u = np.abs(z / (zs + z))
    vs = np.sum(av * u) / np.sum(u * u)
    return vs, np.mean((av - vs * u) ** 2)


def resimulate(c, t, p, resp, x, ip):
    """The recovered circuit, simulated with the package, reproduces the pumped curve."""
    vph = c["vph"]
    cct = EmbeddingCircuit(1, 1, vb_min=1 - 0.75 * vph, vb_max=1 - 0.2 * vph, vb_npts=15)
    aa = np.linspace(0, 4, 81)
    for q in cct.vb:
        if np.any(np.diff(np.abs(aa * vph + p.zt * iac_of(resp, np.full(81, q), vph, aa))) <= 0):
            return              # the recovered circuit has more than one state
    cct.freq[1], cct.zt[1, 1], cct.vt[1, 1] = vph, p.zt, p.vt
    vj = quiet(harmonic_balance, cct, resp, num_b=20, verbose=False)
    got = quiet(qtcurrent, vj, cct, resp, [0], num_b=20, verbose=False)[0]
    t.close(got.real, np.interp(cct.vb, x, ip), 0.012, "pumped current simulated with the recovered circuit")
    t.label("simulated_again")


def recover(c, t):
    dc = dc_data(c["j"])
    resp = dc.resp
    vph = c["vph"]
    zt = complex(*c["zt"])
    vm = np.array([1 - vph / 2])
    # choose the source level that gives the wanted drive level in the middle of the step
    a0 = np.array([c["alpha"]])
    vs = float(np.abs(a0 * vph + zt * iac_of(resp, vm, vph, a0))[0])
    x = np.unique(np.r_[np.linspace(0, 1.7, 86), np.linspace(1 - 1.05 * vph, 1.02, 201)])      # dense on the photon step
    al, ip = simulate(resp, vph, zt, vs, x)
    step = (1 - vph < x) & (x < 1)
    if abs(np.interp(vm[0], x, al) - c["alpha"]) > 1e-3 or al[step].max() > 1.6 or al[step].min() < 0.1:
        t.skip("more than one drive level solves the circuit, or drive outside of the search range")
    rng = np.random.default_rng(c["seed"])
    y = ip.copy()
    if c["spoil"] == "tilt":
        y += c["amount"] * (x - vm[0]) * 4
    elif c["spoil"] == "bump":
        y += c["amount"] * np.exp(-0.5 * ((x - vm[0] - 0.1 * vph) / (0.1 * vph)) ** 2)
    elif c["spoil"] == "noise":
        y += 0.1 * c["amount"] * np.interp(x, x[::9], rng.normal(size=len(x[::9])))
    y[0] = 0.0
    kw = {}
    lo, hi = 0.25, 0.8
    if c["fit"] == "none":
        kw["fit_range"] = None
    elif c["fit"] == "cut":
        kw.update({"fit_range": None} if c["seed"] % 2 else {}, cut_low=0.2, cut_high=0.3)
        lo, hi = 0.2, 0.7
    elif c["fit"] != "default":
        kw["fit_range"] = tuple(c["fit"])
        lo, hi = c["fit"]
    rr, xr = [0, 1], [-1, 1]
    if c["range"]:
        rr, xr = c["range"]
        form = tuple if c["seed"] % 3 else list
        kw.update(remb_range=form(rr), xemb_range=form(xr))
    if c["amax"]:
        kw["alpha_max"] = c["amax"]
    if c["num_b"]:
        kw["num_b"] = c["num_b"]
    forced = {None: None, "true": zt, "wrong": complex(*c["other"]), "real": c["other"][0],
              "reactive": 1j * c["other"][1], "short": 0.0}[c["forced"]]
    if forced is not None:
        kw["zemb"] = forced
    tab = table(np.r_[-x[::-1], x[1:]] * dc.vgap, np.r_[-y[::-1], y[1:]] * dc.igap)
    # the imported curve is the one that is analysed: no filter, so that it is known here
    p = quiet(PumpedData, tab, dc, freq=vph * dc.fgap / 1e9, filter_data=False, verbose=False, **kw)
    v = p.voltage
    m = (1 - vph + vph * lo <= v + 1e-12) & (v <= 1 - vph + vph * hi + 1e-12)
    ve = v[m]
    target = np.interp(ve, x, y)
    t.close(p.current[m], target, 1e-6, "imported curve")
    top = np.full_like(ve, 3.0)
    a = bisect(lambda q: idc_of(resp, ve, vph, q), target, np.zeros_like(ve), top)
    mid = np.abs(ve - vm[0]).argmin()
    if a.max() > 2 or a.min() < 0.05:
        t.skip("drive outside of the search range")
    t.close(p.alpha, a[mid], 5e-4, "drive level")
    cur = iac_of(resp, ve, vph, a)
    z = a * vph / cur
    t.close(p.zw, z[mid], 2e-3 * (1 + abs(z[mid])), "impedance of the junction")
    # the reported circuit is the best one of the grid
    zr, zi = np.linspace(rr[0], rr[1], 101), np.linspace(xr[0], xr[1], 201)
    zs = zr[:, None, None] + 1j * zi[None, :, None]
    u = np.abs(z / (zs + z))
    w = (u * (a * vph)).sum(-1) / (u * u).sum(-1)
    err = ((a * vph - w[..., None] * u) ** 2).mean(-1)
    vt, e = error(a * vph, z, p.zt)
    if forced is not None:
        t.check(p.zt == forced, "forced impedance {} not used: {}", forced, p.zt)
    else:
        t.check(e <= err.min() * 1.02 + 2e-10, "impedance {} has error {}, but {} has {}", p.zt, float(e),
                complex(zs.reshape(101, 201)[np.unravel_index(err.argmin(), err.shape)]), float(err.min()))
        t.check(rr[0] - 1e-9 <= p.zt.real <= rr[1] + 1e-9 and xr[0] - 1e-9 <= p.zt.imag <= xr[1] + 1e-9,
                "impedance {} outside of the search range", p.zt)
    t.close(p.vt, vt, 1e-3 * (1 + vt), "source voltage")
    if abs(e - 7e-7) > 0.05 * 7e-7 + 1e-8:
        t.check(bool(p.fit_good) == bool(e <= 7e-7), "fit reported as {} with an error of {}", "good" if p.fit_good else "bad", float(e))
    inrange = rr[0] <= zt.real <= rr[1] and xr[0] <= zt.imag <= xr[1]
    if c["spoil"] is None and (c["forced"] == "true" or (forced is None and inrange)):
        t.check(bool(p.fit_good), "no good fit for data of a matching circuit")
        # impedances that explain the data as well, to within rounding of the drive level, cannot be told apart
        same = err <= err.min() + 2e-9
        flat = np.abs(zs[..., 0] - zt)[same].max() if forced is None else 0.0
        t.close(p.zt, zt, max(0.06, flat + 0.02), "recovered impedance")
        t.close(p.vt, vs, max(0.03, (np.abs(w - vs)[same].max() + 0.01) if forced is None else 0.0), "recovered source voltage")
        t.label("well determined", flat < 0.04)
        t.close(p.alpha, c["alpha"], 0.01, "recovered drive level")
        resimulate(c, t, p, resp, x, ip)
    t.label("forced " + str(c["forced"]))
    t.label("good fit", bool(p.fit_good))
    t.label("bad fit", not p.fit_good)
    t.nontrivial(zt.imag != 0 and 0.2 < c["alpha"] < 1.6)


CHECKS = [Check("recovery", case(), recover, quick=220, thorough=6000)]
