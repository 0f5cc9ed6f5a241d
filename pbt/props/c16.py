"""C16: analysing a dc I-V curve recovers the parameters of the junction that produced it."""

import numpy as np
import scipy.constants as sc
from hypothesis import strategies as st

from qmix.exp.exp_data import DCData
from qmix.exp.iv_data import dciv_curve, iv_curve
from pbt.core import Check, grid
from pbt.curves import logistic
from pbt.lab import current, junction_exc, pumped, quiet, sg_reference, sweep, table

PROPERTY = "C16"
RULE = ("cases: synthetic dc I-V curves of junctions with known gap, resistances and leakage, with known offset, series "
        "resistance, gain factors, hysteresis and sweep, imported with generated options; non-trivial: at least one of offset, series "
        "resistance, gain factor or hysteresis is present")
ASSUMPTIONS = ["bias step of at most 5 uV (the gap is fitted to the points within 10 uV)",
               "the gap voltage is where the steepest tangent reaches half of the current of its crossing with the normal-state line",
               "a step of the current at the origin makes a searched offset identifiable; it is found within 3 uV"]


@st.composite
def case(draw):
    c = {"j": draw(junction_exc), "step": draw(st.sampled_from([2e-6, 3e-6, 5e-6])),
            "off": [draw(grid(-3e-4, 3e-4, 60)), draw(grid(-1e-5, 1e-5, 40))],
            "offset": draw(st.sampled_from(["given", "given", "search", "zero", "none"])),
            "rs": draw(st.sampled_from([None, None, 0.3, 1.0])), "g": draw(st.sampled_from([[1, 1], [1, 1], [2, 0.5], [0.8, 1.3], [-1, 1], [-1.2, -0.9]])),
            "order": draw(st.sampled_from(["up", "down", "updown", "downup"])), "hyst": draw(st.sampled_from([0, 1e-4])),
            "vrn": draw(st.sampled_from([None, None, [3.6e-3, 5e-3], [4e-3, 4.5e-3], [4.2e-3, 5.9e-3]])),
            "vrsg": draw(st.one_of(st.none(), grid(0.5e-3, 1.9e-3, 28))), "vleak": draw(st.one_of(st.none(), grid(0.3e-3, 2.2e-3, 38))),
            "area": draw(st.one_of(st.none(), grid(0.5, 3, 50))), "vgap": draw(st.one_of(st.none(), st.none(), grid(2.4e-3, 3e-3, 60))),
            "vmax": draw(st.sampled_from([None, 4.5e-3, 5.9e-3])), "npts": draw(st.sampled_from([None, 3001, 8001])),
            "range": draw(st.sampled_from([None, [-7e-4, 7e-4], 8e-4, [-5e-4, 8e-4], [-8e-4, 5e-4]])), "low": draw(st.sampled_from([None, None, 0.75e-3])),
            "smear": draw(st.sampled_from([None, 0.03])), "filter": draw(st.sampled_from([None, None, None, False])),
         "dirt": draw(st.sampled_from([0, 0, 25])), "seed": draw(st.integers(0, 999))}
    if c["order"] in ("up", "down") and draw(st.integers(0, 4)) == 0:
        # only positive voltages measured: nothing to search an offset with, one that is not given is zero
        c["uni"] = [draw(st.sampled_from([0.0, 0.0, 1e-5, 1e-4])), draw(st.sampled_from(["both", "none", "none", "v", "i"]))]
        c["off"][0] = round(c["off"][0] / 3, 9)
        c["offset"], c["low"] = {"both": "given", "none": "none"}.get(c["uni"][1], "given " + c["uni"][1]), None
    elif c["offset"] == "search":     # the search starts at zero and finds the nearest solution
        # (where the range is asymmetric, a straight piece of the curve that reflects onto itself may be as near)
        asymmetric = isinstance(c["range"], list) and c["range"][0] != -c["range"][1]
        c["off"][0] = round(c["off"][0] / (6 if asymmetric else 2), 9)
    return c


def offsets(c):
    """Offsets present in the measurement."""
    return {"none": [0.0, 0.0], "zero": [0.0, 0.0], "given v": [c["off"][0], 0.0], "given i": [0.0, c["off"][1]]}.get(c["offset"], c["off"])


def short(c):
    return c.get("low") and c["order"] in ("up", "down") and (c["range"] == [-5e-4, 8e-4] or c["range"] is None and c["offset"] in ("given", "zero"))


def measured(c):
    """The synthetic measurement: bias voltages and currents in the order in which they were taken."""
    j = c["j"]
    v = sweep(6.3e-3, c["step"], order=c["order"])
    i = current(j, v)
    if c["order"] in ("updown", "downup") and c["hyst"]:
        # moving towards zero the junction is retrapped at a lower voltage
        inward = np.zeros(len(v), dtype=bool)
        inward[:-1] = np.abs(v[1:]) < np.abs(v[:-1])
        i = np.where(inward, current(dict(j, vgap=j["vgap"] - c["hyst"]), v), i)
    if c.get("uni"):
        v, i = v[v > -c["uni"][0] - 1e-12], i[v > -c["uni"][0] - 1e-12]
    if short(c):            # hardly anything measured at negative voltages
        v, i = v[v > -c["low"]], i[v > -c["low"]]
    vm = v + i * (c["rs"] or 0.0)
    off = offsets(c)
    vm, i = vm + off[0], i + off[1]
    vm, i = vm / c["g"][0], i / c["g"][1]
    if c.get("dirt"):       # rows without a reading, and readings taken twice
        rng = np.random.default_rng(c["seed"])
        at = np.sort(rng.integers(1, len(vm) - 1, c["dirt"]))
        kind = np.arange(c["dirt"]) % 3
        bv, bi = np.where(kind == 0, np.nan, vm[at]), np.where(kind == 1, np.nan, i[at])
        vm, i = np.insert(vm, at, bv), np.insert(i, at, bi)
    return vm, i


def true_gap(j, vrn, shift):
    """Gap voltage of the true curve by the definition in ASSUMPTIONS, from the analytic derivative."""
    v = np.arange(2e-3, 6e-3, 1e-6)
    i = current(j, v)
    m = (vrn[0] < v) & (v < min(vrn[1], 6.2e-3))
    b, a = np.polyfit(v[m], i[m], 1)
    d = np.gradient(i, v)
    k = np.arange(-700, 701)
    w = np.exp(-0.5 * (k / 200.0) ** 2)
    ds = np.convolve(np.pad(d, 700, mode="reflect"), w / w.sum(), mode="valid")
    at = v[ds.argmax()] + shift
    m = np.abs(v - at) < 1e-5
    q, p = np.polyfit(v[m], i[m], 1)
    vc = (p - a) / (b - q)
    return ((q * vc + p) / 2 - p) / q


def options(c):
    kw = {}
    for k, name in (("rs", "rseries"), ("vrn", "vrn"), ("vrsg", "vrsg"), ("vleak", "vleak"), ("area", "area"), ("vgap", "vgap"),
                    ("vmax", "vmax"), ("npts", "npts"), ("range", "voffset_range"), ("smear", "v_smear"), ("filter", "filter_data")):
        if c[k] is not None:
            kw[name] = c[k]
    if c["g"] != [1, 1]:
        kw.update(v_multiplier=c["g"][0], i_multiplier=c["g"][1])
    if c["offset"] in ("given", "given v"):
        kw.update(voffset=c["off"][0])
    if c["offset"] in ("given", "given i"):
        kw.update(ioffset=c["off"][1])
    if c["offset"] == "zero":
        kw.update(voffset=0.0, ioffset=0.0)
    return kw


def judge(c, t, v, i, m):
    """Imported curve and metadata against the truth."""
    j = c["j"]
    searched = c["offset"] in ("search", "none") and not c.get("uni")
    off = offsets(c)
    # searched offsets are uncertain by dv; the currents then are uncertain by dv times the slope
    dv = 3e-6 if searched else 1e-15
    gap = j["vgap"] / j["rn"]
    t.close(m.offset[0], off[0], dv, "voltage offset")
    step0 = j["ileak"] * gap / j["w"] + 1 / (j["rn"] * j["leak"])
    t.close(m.offset[1], off[1], (dv * step0 + 1e-6 * gap) if searched else 1e-15, "current offset")
    # normal resistance and intercept: straight-line fit of the true curve
    lo, hi = c["vrn"] or (3.5e-3, 6.25e-3)
    x = np.linspace(lo, hi, 4001)
    b, a = np.polyfit(x, current(j, x), 1)
    t.close(m.rn * b, 1.0, 1e-3, "normal resistance")
    t.close(m.vint, -a / b, 2e-6 + 2 * dv + 4e-3 * abs(a / b), "intercept voltage")
    at = c["vrsg"] or 2e-3
    # which points fall into the window depends on the bias grid, the filter and the offset
    near = 3e-3 if c["filter"] is False else 1.5e-2 if j["vgap"] - at > 6e-4 else 5e-2
    d = 7e-6 + dv + 3 * 12.6e-3 / (c["npts"] or 6001)
    bs = [np.polyfit(x, current(j, x), 1)[0] for lo_ in (-d, 0, d) for hi_ in (-d, 0, d)
          for x in [np.linspace(at - 1e-4 + lo_, at + 1e-4 + hi_, 401)]]
    t.check(min(bs) * (1 - near) <= 1 / m.rsg <= max(bs) * (1 + near), "sub-gap resistance {}, expected {} to {}", m.rsg,
            1 / max(bs), 1 / min(bs))
    if c["vgap"] is not None:
        t.check(m.vgap == c["vgap"], "gap voltage given is not used")
    else:
        # the steepest point is only found to within a few grid points, which matters where the tangent turns quickly
        gs = [true_gap(j, (lo, hi), s) for s in (-6e-6, 0.0, 6e-6)]
        tol = 2.5e-3 + 2 * dv / gs[1]
        t.check(min(gs) * (1 - tol) <= m.vgap <= max(gs) * (1 + tol), "gap voltage {}, expected {} to {}", m.vgap, min(gs), max(gs))
    t.close(m.igap * m.rn / m.vgap, 1.0, 1e-12, "gap current")
    t.close(m.fgap * sc.h / sc.e / m.vgap, 1.0, 1e-12, "gap frequency")
    t.check(m.rseries == c["rs"], "series resistance not recorded")
    n, top = c["npts"] or 6001, c["vmax"] or 6e-3
    t.close(v * m.vgap, np.linspace(-top, top, n), 1e-12, "voltage grid")
    t.same(m.vnorm, v, "metadata voltage")
    t.same(m.inorm, i, "metadata current")
    vt = v * m.vgap
    want = current(j, vt)
    h = c["step"] + 2.2e-6
    slope = np.max([np.abs(current(j, vt + s * h) - current(j, vt + (s - 1) * h)) / h for s in (-2, -1, 0, 1, 2, 3)], axis=0)
    curl = np.abs(current(j, vt + 4 * h) - 2 * want + current(j, vt - 4 * h))
    tol = 2e-3 * gap + 1.5 * curl + slope * (dv + 1e-7) + (dv * step0 if searched else 0)
    # beyond the measurement the last current is kept
    first = -c["low"] + 5e-5 if short(c) else -c["uni"][0] + 1.5e-4 if c.get("uni") else -1.0
    use = vt > first
    t.close(i[use] * m.igap, want[use], 1, "imported current", scale=tol[use])
    t.check(m.vraw.shape == m.iraw.shape, "raw data")
    # the data saved as raw is the one before the series resistance is removed
    wraw = m.vraw - (c["rs"] or 0) * m.iraw
    tol = (2e-3 * gap + (dv * step0 if searched else 0)
           + (6 * h + 2 * dv) * np.abs(current(j, wraw + 4 * h) - current(j, wraw - 4 * h)) / h / 8)
    use = wraw > (first if c.get("uni") else -1.0)
    t.close(m.iraw[use], current(j, wraw)[use], 1, "stored filtered data", scale=tol[use])


def imported(c, t):
    vm, im = measured(c)
    v, i, m = quiet(dciv_curve, table(vm, im), **options(c))
    judge(c, t, v, i, m)
    t.label("offset " + c["offset"])
    t.label(c["order"])
    t.label("positive voltages only", bool(c.get("uni")))
    t.nontrivial(c["offset"] in ("given", "search", "given v", "given i") or c.get("uni") or c["rs"] or c["g"] != [1, 1] or (c["hyst"] and len(c["order"]) > 4))


def smear_ref(j, vgap, igap, v, s):
    x = np.linspace(-5, 5, 401)
    w = np.exp(-0.5 * x ** 2)
    w /= w.sum()
    return (current(j, (v[:, None] + s * x[None, :]) * vgap) * w).sum(axis=1) / igap


def dc_object(c, t):
    """The analysis object reports the same numbers and builds response functions from the curve."""
    c = dict(c, vmax=None, low=None)
    if c.pop("uni", None):
        c["offset"] = "zero"
    vm, im = measured(c)
    kw = options(c)
    d = quiet(DCData, table(vm, im), verbose=False, **kw)
    v, i, m = quiet(dciv_curve, table(vm, im), **kw)
    judge(c, t, d.voltage, d.current, d.dc)
    t.same(d.voltage, v, "voltage")
    t.same(d.current, i, "current")
    for a in ("vgap", "igap", "fgap", "rn", "rsg", "vint", "offset"):
        t.same(getattr(d, a), getattr(m, a), a)
    area = (c["area"] or 1.5) * 1e-12
    t.close(d.q * m.rn / m.rsg, 1.0, 1e-12, "quality factor")
    t.close(d.rna / (m.rn * area), 1.0, 1e-12, "resistance-area product")
    t.close(d.jc * d.rna / m.vgap, 1.0, 1e-12, "critical current density")
    vl = c["vleak"] or 2e-3
    j = c["j"]
    gap = j["vgap"] / j["rn"]
    dv = 3e-6 if c["offset"] in ("search", "none") else 0
    sl = np.abs(current(j, vl + 2e-5) - current(j, vl - 2e-5)) / 4e-5
    st0 = j["ileak"] * gap / j["w"]
    t.close(d.ileak, current(j, vl), 1e-3 * gap + sl * (dv + 2e-6) + dv * st0, "leakage current")
    t.check(d.if_data is None and d.dcif is None and d.if_noise is None, "IF data without IF measurement")
    # response functions follow the curve, the second one smeared by the requested width
    x = np.linspace(-1.8, 1.8, 73)
    want = np.interp(x, d.voltage, d.current)
    sharp = 0.02 + 0.02 * np.abs(np.interp(x + .02, d.voltage, d.current) - np.interp(x - .02, d.voltage, d.current))
    # away from the gap, where a given gap voltage may put the step, the curve is sampled every 0.02
    curl = np.max([np.abs(np.interp(x + .02 + s, d.voltage, d.current) - 2 * np.interp(x + s, d.voltage, d.current)
                          + np.interp(x - .02 + s, d.voltage, d.current)) for s in (-.02, -.01, 0, .01, .02)], axis=0)
    t.close(d.resp.idc(x), want, 1, "response function of the imported curve", scale=sharp + 0.012 + 0.15 * curl)
    s = c["smear"] or 0.02
    t.close(d.resp_smear.idc(x), smear_ref(j, m.vgap, m.igap, x, s), 1, "smeared response function",
            scale=0.03 + 3 * dv * st0 / m.igap + 0.02 * np.abs(np.interp(x + .02, d.voltage, d.current) - np.interp(x - .02, d.voltage, d.current)))
    t.label("offset " + c["offset"])
    t.nontrivial()


@st.composite
def filter_case(draw):
    npoly = draw(st.sampled_from([None, 1, 2, 3, 4, 5]))
    return {"j": draw(junction_exc), "step": draw(st.sampled_from([5e-6, 1e-5, 2e-5])), "npoly": npoly,
            "nwind": draw(st.one_of(st.none(), st.integers(4, 40).map(lambda k: 2 * k + 1))),
            "theta": draw(st.sampled_from([None, 0.785, 0.7, 0.85])), "npts": draw(st.sampled_from([None, 3001, 4500, 8001])),
            "noise": draw(st.sampled_from([0.0, 0.5, 0.5, 1.0])), "seed": draw(st.integers(0, 9999)),
            "off": [draw(grid(-3e-4, 3e-4, 60)), draw(grid(-1e-5, 1e-5, 40))], "pump": draw(st.sampled_from([None, None, 0.5, 1.2])),
            "order": draw(st.sampled_from(["up", "down"])), "on": draw(st.sampled_from([None, True, True]))}


def filtering(c, t):
    """The filter is a Savitzky-Golay filter of the requested width and order, applied along the turned curve."""
    j = c["j"]
    rng = np.random.default_rng(c["seed"])
    v = sweep(6.3e-3, c["step"])
    gap = j["vgap"] / j["rn"]
    kw = {k: c[q] for k, q in (("filter_nwind", "nwind"), ("filter_npoly", "npoly"), ("filter_theta", "theta"), ("npts", "npts"),
                               ("filter_data", "on")) if c[q] is not None}
    kw.update(voffset=c["off"][0], ioffset=c["off"][1], vgap=j["vgap"])
    i = current(j, v)
    dc = quiet(dciv_curve, table(v + c["off"][0], i + c["off"][1]), **kw)[2]
    clean = i if c["pump"] is None else pumped(j, v, 320e9, c["pump"])
    # as much noise as leaves the turned curve single valued
    noise = c["noise"] * c["step"] / v.max() * clean.max() / 4
    i = clean + noise * rng.uniform(-1.7, 1.7, len(v))
    theta = 0.785 if c["theta"] is None else c["theta"]
    if np.any(np.diff(np.cos(theta) * v / v.max() + np.sin(theta) * i / i.max()) <= 0):
        t.skip("the turned curve is not single valued")
    d = table(v + c["off"][0], i + c["off"][1])
    if c["order"] == "down":
        d = d[::-1]
    if c["pump"] is None:
        x, y, m = quiet(dciv_curve, d, **kw)
    else:
        (x, y), m = quiet(iv_curve, d, dc, **kw), dc
    n = c["npts"] or 6001
    rv, ri = sg_reference(v, i, c["nwind"] or 21, c["npoly"] or 3, theta, n)
    # where the turned curve is single valued, the filtered curve is a function of the voltage as well
    t.check(len(x) == n, "number of points")
    use = np.abs(x * m.vgap) < 5.7e-3
    vt = x[use] * m.vgap
    if np.any(np.diff(rv) <= 0):
        t.skip("filtered noise bends the curve back")
    want = np.interp(vt, rv, ri)
    # the result may be read off a straight line between neighbouring points of an even grid
    h = (rv[-1] - rv[0]) / (n - 1) * 1.05
    near = np.zeros(len(vt))
    for u in np.linspace(0, 1, 33):
        chord = (1 - u) * np.interp(vt - u * h, rv, ri) + u * np.interp(vt + (1 - u) * h, rv, ri)
        near = np.maximum(near, np.abs(chord - want))
    t.close(y[use] * m.igap, want, 1, "filtered curve", scale=1e-5 * gap + 1.2 * near)
    if c["noise"] and (c["nwind"] or 21) >= 5 * (c["npoly"] or 3):
        flat = use & ((np.abs(x * m.vgap) > 3.6e-3) | ((np.abs(x * m.vgap) > 6e-4) & (np.abs(x * m.vgap) < 1.5e-3)))
        if c["pump"] is None:
            r = np.std(y[flat] * m.igap - current(j, x[flat] * m.vgap)) / noise
            t.check(r < 0.95, "filter leaves {} of the noise", float(r))
    t.label("pumped", c["pump"] is not None)
    t.nontrivial(c["noise"] > 0)


assert logistic
CHECKS = [
    Check("filter", filter_case(), filtering, quick=150, thorough=4000),
    Check("import", case(), imported, quick=500, thorough=12000),
    Check("dc_object", case(), dc_object, quick=100, thorough=2000),
]
