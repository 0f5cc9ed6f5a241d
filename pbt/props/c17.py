"""C17: pumped I-V curves are imported on the scale of the unpumped curve they belong to."""

import numpy as np
import scipy.constants as sc
from hypothesis import strategies as st

from qmix.exp.exp_data import DCData, PumpedData
from qmix.exp.iv_data import dciv_curve, iv_curve
from pbt.core import Check, grid
from pbt.lab import current, junction_exc, pumped, quiet, sweep, table

PROPERTY = "C17"
RULE = ("cases: synthetic pumped I-V curves (photon-assisted tunnelling of a known junction, 1-3 photon steps) with offsets, series "
        "resistance, gain factors and limited sweeps, imported together with the unpumped curve of the same junction; non-trivial: "
        "the pump changes the current by more than 1 % of the gap current and an offset, resistance or limited sweep is present")
ASSUMPTIONS = ["bias steps of at most 5 uV", "offsets are taken from the unpumped curve unless both are given"]


@st.composite
def case(draw):
    return {"j": draw(junction_exc), "step": draw(st.sampled_from([3e-6, 5e-6])), "freq": draw(grid(100e9, 700e9, 600)),
            "alpha": draw(grid(0.3, 1.8, 30)), "off": [draw(grid(-3e-4, 3e-4, 60)), draw(grid(-1e-5, 1e-5, 40))],
            "off2": [draw(grid(-3e-4, 3e-4, 60)), draw(grid(-1e-5, 1e-5, 40))],
            "use": draw(st.sampled_from(["dc", "dc", "both", "v_only", "i_only"])),
            "rs": draw(st.sampled_from([None, None, 0.3, 1.0])), "g": draw(st.sampled_from([[1, 1], [2, 0.5], [0.8, 1.3], [-1, 1], [-1.2, -0.9]])),
            "order": draw(st.sampled_from(["up", "down", "updown", "downup"])),
            "top": draw(st.sampled_from([6.3e-3, 6.3e-3, 5.2003e-3, 4.4003e-3])), "vmax": draw(st.sampled_from([None, 4.9e-3])),
            "npts": draw(st.sampled_from([None, 4001])), "vgap": draw(st.one_of(st.none(), grid(2.4e-3, 3e-3, 60))),
            "bump": draw(st.sampled_from([0, 0, 0.03, 0.06])), "filter": draw(st.sampled_from([None, None, False])), "seed": draw(st.integers(0, 999))}


def options(c):
    kw = {}
    for k, name in (("rs", "rseries"), ("vmax", "vmax"), ("npts", "npts"), ("filter", "filter_data")):
        if c[k] is not None:
            kw[name] = c[k]
    kw.update(v_multiplier=c["g"][0], i_multiplier=c["g"][1])
    return kw


def measure(c, v, i, off):
    vm = v + i * (c["rs"] or 0.0) + off[0]
    return table(vm / c["g"][0], (i + off[1]) / c["g"][1])


def truth(c, v):
    """True pumped current, with a feature of negative dynamic resistance if wanted."""
    j = c["j"]
    x = (v - 0.55 * j["vgap"]) / 2e-4
    return pumped(j, v, c["freq"], c["alpha"]) + c["bump"] * j["vgap"] / j["rn"] * np.exp(-0.5 * x ** 2)


def setup(c):
    j = c["j"]
    v = sweep(6.3e-3, c["step"])
    kw = dict(options(c), voffset=c["off"][0], ioffset=c["off"][1])
    if c["vgap"] is not None:
        kw["vgap"] = c["vgap"]
    dctab = measure(c, v, current(j, v), c["off"])
    vp = sweep(c["top"], c["step"], order=c["order"])
    ip = truth(c, vp)
    own = c["off2"] if c["use"] == "both" else c["off"]
    ptab = measure(c, vp, ip, own)
    pkw = options(c)
    if c["use"] == "both":
        pkw.update(voffset=own[0], ioffset=own[1])
    elif c["use"] == "v_only":          # an incomplete offset is not used
        pkw.update(voffset=c["off2"][0])
    elif c["use"] == "i_only":
        pkw.update(ioffset=c["off2"][1])
    return dctab, kw, ptab, pkw


def judge(c, t, v, i, m):
    n, top = c["npts"] or 6001, c["vmax"] or 6e-3
    t.close(v * m.vgap, np.linspace(-top, top, n), 1e-12, "voltage grid")
    vt = v * m.vgap
    j = c["j"]
    gap = j["vgap"] / j["rn"]
    h = c["step"] + 2.2e-6
    inside = np.abs(vt) < c["top"] - 2e-5
    outside = np.abs(vt) > c["top"] + 2e-5
    t.check(np.all(i[outside] == 0), "current outside of the measured range is not zero")
    x = vt[inside]
    want = truth(c, x)
    q = [truth(c, x + s * h) for s in (-4, 0, 4)]
    tol = 2e-3 * gap + 1.5 * np.abs(q[0] - 2 * q[1] + q[2]) + 0.02 * np.abs(q[2] - q[0])
    t.close(i[inside] * m.igap, want, 1, "imported pumped current", scale=tol)
    vt0 = np.abs(want - current(j, x))
    return float(vt0.max() / gap), bool(np.any(outside))


def imported(c, t):
    dctab, kw, ptab, pkw = setup(c)
    _, _, m = quiet(dciv_curve, dctab, **kw)
    before = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in m]
    p0 = ptab.copy()
    v, i = quiet(iv_curve, ptab, m, **pkw)
    t.same(ptab, p0, "the measurement was modified")
    for a, b, name in zip(m, before, m._fields):
        t.same(a if a is not None else 0, b if b is not None else 0, "importing a pumped curve changed the unpumped " + name)
    pump, limited = judge(c, t, v, i, m)
    t.label("offset from " + c["use"])
    t.label("limited sweep", limited)
    t.nontrivial(pump > 0.01 and (limited or c["rs"] or any(c["off"])))


def pumped_object(c, t):
    dctab, kw, ptab, pkw = setup(c)
    dc = quiet(DCData, dctab, verbose=False, **kw)
    freq = c["freq"] / 1e9
    p = quiet(PumpedData, ptab, dc, freq=freq, analyze_iv=False, verbose=False, **pkw)
    pump, _ = judge(c, t, p.voltage, p.current, dc.dc)
    v, i = quiet(iv_curve, ptab, dc.dc, **pkw)
    t.same(p.voltage, v, "voltage")
    t.same(p.current, i, "current")
    t.check(p.freq == freq, "frequency")
    t.close(p.vph, c["freq"] * sc.h / sc.e / dc.vgap, 1e-12, "photon voltage")
    for a in ("vgap", "igap", "fgap", "rn", "offset", "vint"):
        t.same(getattr(p, a), getattr(dc, a), "%s is not the one of the unpumped curve" % a)
    t.same(p.voltage_dc, dc.voltage, "unpumped voltage")
    t.same(p.current_dc, dc.current, "unpumped current")
    # dynamic resistance: a local dV/dI of the pumped curve, normalised
    g = np.diff(p.current) / np.diff(p.voltage)
    n = len(g)
    with np.errstate(all="ignore"):
        cond = 1 / p.rdyn
    steep = np.convolve(g, np.ones(26), mode="valid").argmin() + 13
    for k in [steep, *np.random.default_rng(c["seed"]).integers(30, n - 30, 60)]:
        w = g[k - 13:k + 13]
        if w.min() > 1e-4 or w.max() < -1e-4:
            t.check(w.min() - 1e-6 * abs(w.min()) <= cond[k] <= w.max() + 1e-6 * abs(w.max()),
                    "dynamic resistance {} at point {} but local slopes give {} to {}", float(p.rdyn[k]), int(k), 1 / w.max(), 1 / w.min())
    for a in ("zt", "vt", "fit_good", "zw", "alpha", "if_hot", "if_cold", "tn", "gain", "tn_best", "g_db", "if_noise"):
        t.check(getattr(p, a) is None, "{} reported although not analysed", a)
    t.raises(lambda: quiet(PumpedData, ptab, dc, analyze_iv=False, verbose=False, **pkw), "no frequency given, but accepted", ValueError)
    t.label("negative dynamic resistance", bool(np.any(p.rdyn < 0)))
    t.nontrivial(pump > 0.01)


CHECKS = [
    Check("import", case(), imported, quick=400, thorough=10000),
    Check("pumped_object", case(), pumped_object, quick=80, thorough=2000),
]
