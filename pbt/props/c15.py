"""C15: importing I-V data does not depend on how the same measurement is written down."""

import numpy as np
import scipy.constants as sc
from hypothesis import strategies as st

from qmix.exp.iv_data import dciv_curve, iv_curve
from pbt.core import Check, grid
from pbt.lab import current, junction, pumped, quiet, sweep, table, V_UNIT, I_UNIT

PROPERTY = "C15"
RULE = ("cases: one synthetic measurement (random junction, offset, noise, sweep) written in two ways - other units, other "
        "sweep direction or order, with NaN rows, with repeated rows, with compensating gain factors, as a read-only or "
        "strided array, with lists or tuples for ranges; non-trivial: the rewriting changes at least one row")
ASSUMPTIONS = ["each bias voltage of one sweep is measured once, so that rewriting does not change which data is used",
               "numerical search for offsets may differ by 0.02 uV / 1e-5 of the gap current between rewritings"]


@st.composite
def case(draw):
    c = {"j": draw(junction), "seed": draw(st.integers(0, 9999)), "noise": draw(st.sampled_from([0, 0, 1e-3, 5e-3])),
            "step": draw(st.sampled_from([3e-6, 5e-6, 8e-6])), "jitter": draw(st.sampled_from([0, 0.8])),
            "off": [draw(grid(-2e-4, 2e-4, 40)), draw(grid(-1e-5, 1e-5, 40))], "given": draw(st.booleans()),
            "pumped": draw(st.sampled_from([None, None, 0.6, 1.2])),
            "how": draw(st.sampled_from(["units", "units", "reverse", "order", "nans", "repeat", "gain", "layout", "mix", "mix"])),
            "vu": draw(st.sampled_from(["uV", "mV", "V"])), "iu": draw(st.sampled_from(["uA", "mA", "A"])),
            "nan": draw(st.sampled_from(["any", "current", "voltage"])), "order": draw(st.sampled_from(["updown", "downup"])), "g": [draw(grid(0.2, 5, 48)) * draw(st.sampled_from([1, 1, -1])), draw(grid(0.2, 5, 48)) * draw(st.sampled_from([1, 1, -1]))],
            "filter": draw(st.sampled_from([None, None, False])), "npts": draw(st.sampled_from([None, 4001])),
            "vmax": draw(st.sampled_from([None, 5e-3])), "rs": draw(st.sampled_from([None, None, 0.5])), "top": draw(st.sampled_from([6.3007e-3, 6.3007e-3, 5.5513e-3]))}
    if c["filter"] is False:        # the gap is fitted to the points within 10 uV
        c["step"] = min(c["step"], 5e-6)
    return c


def rewrite(c, v, i, rng):
    """The same measurement in another notation: (table, keywords)."""
    how = c["how"]
    vu, iu = ("mV", "mA") if how not in ("units", "mix") else (c["vu"], c["iu"])
    kw = {}
    if how in ("units", "mix"):
        kw = {"v_fmt": vu, "i_fmt": iu}
    d = table(v, i, vu, iu)
    if how in ("gain", "mix"):
        kw.update(v_multiplier=c["g"][0], i_multiplier=c["g"][1])
        d = d / np.array(c["g"])
    if how in ("reverse",):
        d = d[::-1]
    if how in ("order", "mix"):
        # up from the middle, all the way down, back up: later visits of a voltage measure something else
        k = len(v) // 2
        junk = d.copy()
        junk[:, 1] *= 0.97
        junk[k] = d[k]      # the start of the outward pass belongs to both halves
        if c["order"] == "updown":
            d = np.vstack((d[k:], junk[::-1][1:len(v) - k], d[::-1][len(v) - k:], junk[1:k]))
        else:
            d = np.vstack((d[:k + 1][::-1], junk[1:k + 1], d[k + 1:], junk[::-1][1:len(v) - k - 1]))
    if how in ("nans", "mix"):
        rows = np.sort(rng.integers(0, len(d), 40))
        bad = np.full((40, 2), np.nan)
        a, b = {"any": (slice(0, None, 3), slice(1, None, 3)), "current": (slice(None), slice(0)), "voltage": (slice(0), slice(None))}[c["nan"]]
        bad[a, 0] = rng.uniform(-9, 9, len(bad[a]))
        bad[b, 1] = rng.uniform(-9, 9, len(bad[b]))
        d = np.insert(d, rows, bad, axis=0)
    if how in ("repeat",):
        rows = np.sort(rng.integers(0, len(d), 40))
        d = np.insert(d, rows, d[rows], axis=0)
    if how == "layout":
        d = np.asfortranarray(d)
        d.flags.writeable = False
    return d, kw


def same_import(c, t):
    rng = np.random.default_rng(c["seed"])
    j = c["j"]
    v = sweep(c["top"], c["step"], jitter=c["jitter"], rng=rng)
    i = current(j, v) + c["noise"] * 1e-2 * rng.normal(size=len(v)) * j["vgap"] / j["rn"]
    rs = c["rs"] or 0.0         # the measured voltage includes the drop across the series resistance
    vm, im = v + i * rs + c["off"][0], i + c["off"][1]
    kw = {k: c[q] for k, q in (("filter_data", "filter"), ("npts", "npts"), ("vmax", "vmax"), ("rseries", "rs"))
          if c[q] is not None}
    if c["given"]:
        kw.update(voffset=c["off"][0], ioffset=c["off"][1])
    base = table(vm, im)
    d, more = rewrite(c, vm, im, rng)
    d0 = d.copy()
    v1, i1, m1 = quiet(dciv_curve, base, **kw)
    v2, i2, m2 = quiet(dciv_curve, d, **dict(kw, **more))
    t.same(d, d0, "the measurement was modified")
    gap = j["vgap"] / j["rn"]
    exact = c["given"]
    tv, ti = (1e-9, 1e-9) if exact else (2e-8, 1e-5)
    t.close(m2.offset[0], m1.offset[0], tv * 1e-3 if exact else tv, "voltage offset")
    t.close(m2.offset[1] / gap, m1.offset[1] / gap, ti, "current offset")
    # the gap voltage is read off at a data point, so that rounding may move it by one step
    t.close(m2.vgap / m1.vgap, 1.0, 5e-3, "gap voltage")
    t.close(m2.rn / m1.rn, 1.0, 1e-5 if exact and not c["noise"] else 1e-4, "normal resistance")
    for m in (m1, m2):
        t.close(m.igap, m.vgap / m.rn, 1e-15, "gap current")
        t.close(m.fgap / (sc.e * m.vgap / sc.h), 1.0, 1e-12, "gap frequency")
    t.check(v2.shape == v1.shape == i1.shape == i2.shape, "shapes differ")
    t.close(v2 * m2.vgap, v1 * m1.vgap, 1e-12, "imported voltages")
    t.close(i2 * m2.igap / gap, i1 * m1.igap / gap, 1e-6 if exact else 6e-3, "imported currents")
    n = c["npts"] or 6001
    top = c["vmax"] or 6e-3
    t.close(v1 * m1.vgap, np.linspace(-top, top, n), 1e-12, "imported voltage grid")
    t.check(np.all(np.isfinite(i1)) and np.all(np.isfinite(i2)), "imported current not finite")
    if c["pumped"]:
        ip = pumped(j, v, 0.3 * 2.4e14 * j["vgap"] * 2, c["pumped"])
        vp, ip = v + ip * rs + c["off"][0], ip + c["off"][1]
        a = quiet(iv_curve, table(vp, ip), m1, **kw)
        r, more = rewrite(c, vp, ip, np.random.default_rng(c["seed"]))
        b = quiet(iv_curve, r, m1, **dict(kw, **more))
        t.close(b[0], a[0], 1e-12, "pumped voltages")
        t.close(b[1], a[1], 1e-6, "pumped currents")
    t.label(c["how"])
    t.nontrivial(d.shape != base.shape or not np.array_equal(d, base))


@st.composite
def bad_case(draw):
    return {"kind": draw(st.sampled_from(["list", "three", "one", "flat", "3d", "unit_v", "unit_i"]))}


def bad(c, t):
    """Anything that is not a two-column table in known units is refused."""
    v = np.linspace(-6, 6, 2001)
    d = np.vstack((v, v / 14)).T
    kw = {}
    if c["kind"] == "list":
        d = d.tolist()
    elif c["kind"] == "three":
        d = np.c_[d, v]
    elif c["kind"] == "one":
        d = d[:, :1]
    elif c["kind"] == "flat":
        d = d.ravel()
    elif c["kind"] == "3d":
        d = d[None]
    elif c["kind"] == "unit_v":
        kw = {"v_fmt": "nV"}
    else:
        kw = {"i_fmt": "Volts"}
    t.raises(lambda: quiet(dciv_curve, d, **kw), "malformed I-V data accepted")
    t.raises(lambda: quiet(iv_curve, d, None, **kw), "malformed I-V data accepted")
    t.nontrivial()


assert V_UNIT and I_UNIT
CHECKS = [
    Check("same_import", case(), same_import, quick=320, thorough=8000),
    Check("malformed", bad_case(), bad, quick=14, thorough=14, shards=1),
]
