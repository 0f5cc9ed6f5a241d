"""C19: hot/cold IF data gives the noise temperature and gain of the receiver that produced it."""

import numpy as np
from hypothesis import strategies as st

from qmix.exp.exp_data import DCData, PumpedData
from qmix.exp.if_data import DCIFData, if_data
from pbt.core import Check, grid
from pbt.iflab import callen_welton, dc_meta, grid_of, options, record, setup
from pbt.lab import current, pumped, quiet, sweep, table

PROPERTY = "C19"
RULE = ("cases: hot and cold IF power of a receiver with known noise temperature and gain versus bias (one or two maxima, regions without "
        "response), with known conversion factor, load temperatures, frequency, offset, units, dirt, smoothing and choice of best point; "
        "non-trivial: noise temperature and gain vary with bias")
ASSUMPTIONS = ["loads radiate as given by Callen and Welton", "hot power must exceed cold power, otherwise the Y-factor is one",
               "without series resistance (IF data is corrected with the unpumped curve)"]


@st.composite
def case(draw):
    s = draw(setup)
    s["rs"] = None
    hump = st.tuples(grid(0.35, 1.05, 70), grid(0.06, 0.3, 24), grid(0.01, 1.5, 149)).map(list)
    return {"s": s, "humps": draw(st.lists(hump, min_size=1, max_size=2)), "floor": draw(st.sampled_from([0.0, 0.0, 1e-3, 0.01])),
            "tn": [draw(grid(5, 200, 195)), draw(grid(-0.5, 0.5, 40))], "th": draw(st.one_of(st.none(), grid(200, 400, 200))),
            "tc": draw(st.one_of(st.none(), grid(4, 100, 96))), "freq": draw(grid(80, 1000, 920)),
            "best": draw(st.sampled_from(["default", "Max Gain", "max gain", "Min Tn", "MIN TN", "v"])),
            "vbest": draw(grid(0.5e-3, 4e-3, 350)), "calib": draw(st.sampled_from(["dcif", "dcif", "average", "nocorr"])),
            "salt": draw(st.booleans()),
            # extra power in the cold measurement only: a region where cold exceeds hot
            "extra": draw(st.one_of(st.none(), st.none(), st.tuples(grid(0.35, 1.05, 70), grid(0.06, 0.2, 14), grid(5, 900, 179)).map(list)))}


def receiver(c, vg):
    """True noise temperature and gain versus bias voltage in V."""
    def gain(v):
        x = np.asarray(v) / vg
        out = np.full_like(x, c["floor"])
        for m, w, a in c["humps"]:
            out = out + a * np.exp(-0.5 * ((x - m) / w) ** 2)
        return out

    def noise(v):
        x = np.asarray(v) / vg
        return c["tn"][0] * (1 + c["tn"][1] * np.sin(3 * x))
    return noise, gain


def cold_power(c, vg):
    noise, g = receiver(c, vg)
    tc = loads(c)[1]

    def f(v):
        out = g(v) * (tc + noise(v))
        if c["extra"] is not None:
            m, w, a = c["extra"]
            out = out + a * np.exp(-0.5 * ((np.asarray(v) / vg - m) / w) ** 2)
        return out
    return f


def loads(c):
    hz = c["freq"] * 1e9
    return (callen_welton(hz, 293.0 if c["th"] is None else c["th"]), callen_welton(hz, 78.0 if c["tc"] is None else c["tc"]))


def keywords(c):
    kw = dict(options(c["s"]), freq=c["freq"])
    if c["th"] is not None:
        kw["t_hot"] = c["th"]
    if c["tc"] is not None:
        kw["t_cold"] = c["tc"]
    if c["best"] == "v":
        kw["vbest"] = c["vbest"]
    elif c["best"] != "default":
        kw["best_pt"] = c["best"]
    return kw


def expect_best(c, t, v, tn, gain, idx):
    """The chosen point is the best one of the reported results."""
    if c["best"] == "v":
        t.check(abs(v[idx] - c["vbest"]) <= np.abs(v - c["vbest"]).min() + 1e-12, "bias voltage {} chosen for {}", v[idx], c["vbest"])
    elif c["best"].lower() == "min tn":
        t.check(tn[idx] == np.nanmin(tn), "best noise temperature is {}, not {}", np.nanmin(tn), tn[idx])
    else:
        t.check(gain[idx] == gain.max(), "best gain is {}, not {}", gain.max(), gain[idx])


def judge(c, t, x, hot, cold, tn, gain, meta, first, last, corr_err=1e-9):
    s = c["s"]
    xg, sig, step = grid_of(s, meta)
    t.close(x, xg, 1e-12, "voltages")
    v = x * meta.vgap
    noise, g = receiver(c, meta.vgap)
    th, tc = loads(c)
    reach = 4 * sig + 2e-5
    inside = (v > max(first, 0.0) + reach) & (v < min(last, v[-1]) - reach)
    w = v[inside]
    h = s["step"] * (1 + s["jitter"])
    x5, w5 = np.polynomial.hermite_e.hermegauss(9)

    def smoothed(f):
        """Gaussian average of f and the uncertainty from interpolating measured points."""
        avg = sum(q * f(w + sig * k) for k, q in zip(x5, w5)) / w5.sum()
        d = 0.5 * max(h, sig, 1e-6)
        curl = np.max([np.abs(f(w + q + d) - 2 * f(w + q) + f(w + q - d)) for q in (-3 * d, 0, 3 * d)], axis=0) / d ** 2
        return avg, 1.5 * (h ** 2 / 8 + 0.03 * sig ** 2) * curl + 1e-8 * avg + (1e-5 if corr_err > 1e-6 else 1e-12)
    ph, dh = smoothed(lambda u: g(u) * (th + noise(u)))
    pc, dc = smoothed(cold_power(c, meta.vgap))
    t.close(hot[inside], ph, 1, "hot power in K", scale=dh + corr_err * ph)
    t.close(cold[inside], pc, 1, "cold power in K", scale=dc + corr_err * pc)
    t.close(gain[inside], (ph - pc) / (th - tc), 1, "gain", scale=(dh + dc + corr_err * (ph + pc)) / (th - tc))
    with np.errstate(all="ignore"):
        y = ph / pc
        tn_s = (th - tc * y) / (y - 1)
        tol_t = 1.5 * (th - tc) / (y - 1) ** 2 * y * (dh / ph + dc / pc) + 1e-6 * (th + tn_s)
        use = (y > 1.001) & (tol_t < 0.1 * (tn_s + 20))
    t.close(tn[inside][use], tn_s[use], 1, "noise temperature", scale=tol_t[use])
    # everywhere: Y factor, noise temperature and gain belong together
    with np.errstate(all="ignore"):
        yy = hot / cold
    ok = np.isfinite(yy)
    yy = np.where(yy <= 1 + 1e-10, 1 + 1e-10, yy)
    t.close(tn[ok] * (yy[ok] - 1) + tc * yy[ok], np.full(ok.sum(), th), 1e-6, "noise temperature and Y factor", scale=(th + tc) * yy[ok])
    t.close(gain, (hot - cold) / (th - tc), 1e-9, "gain and powers", scale=1 + np.abs(gain))
    return use.sum()


def hot_cold(c, t):
    s = c["s"]
    meta = dc_meta(s)
    scale = 10 ** s["loggain"]
    noise, g = receiver(c, meta.vgap)
    th, tc = loads(c)
    hot, first, last = record(s, lambda v: g(v) * (th + noise(v)) * scale)
    cold, f2, l2 = record(s, lambda v: cold_power(c, meta.vgap)(v) * scale, salt=17 if c["salt"] else 0)
    kw = keywords(c)
    corr_err = 1e-9
    line = np.vstack((np.linspace(0, 2, 5), np.zeros(5))).T
    if c["calib"] == "dcif":
        kw["dcif"] = DCIFData(if_noise=7.5, corr=1 / scale, if_fit=False, shot_slope=line, vmax=6e-3)
    elif c["calib"] == "nocorr":
        kw["dcif"] = DCIFData(if_noise=None, corr=None, if_fit=None, shot_slope=None, vmax=None)
    if c["calib"] != "dcif":
        # calibrate with the data itself: add shot noise above the gap to both measurements
        lo = 1.75 * meta.vgap
        hi = min(5.4e-3, last - 1e-4)
        if hi < lo + 4e-4:
            t.skip("no room for a shot-noise range")
        kw["vshot"] = (lo, hi)

        def shot(v):
            return 5.8e3 * (v - s["vint"]) + 4.0
        sm = 1 / (0.03 * meta.vgap)

        def mix(base):
            def f(v):
                u = 0.5 * (1 + np.tanh((v - 1.5 * meta.vgap) * sm))
                return (base(v) * (1 - u) + shot(v) * u) * scale
            return f
        hot, first, last = record(s, mix(lambda v: g(v) * (th + noise(v))))
        cold, f2, l2 = record(s, mix(cold_power(c, meta.vgap)), salt=17 if c["salt"] else 0)
        corr_err = 3e-3
    first, last = max(first, f2), min(last, l2)
    h0, c0 = hot.copy(), cold.copy()
    res, idx, info = quiet(if_data, hot, cold, meta, **kw)
    t.same(hot, h0, "hot data was modified")
    t.same(cold, c0, "cold data was modified")
    if c["calib"] == "dcif":
        t.check(info.if_noise == 7.5 and info.corr == 1 / scale and info.if_fit is False, "calibration was not taken over")
        t.same(info.shot_slope, line, "calibration line was not taken over")
        upto = last
    else:
        t.close(info.corr * scale, 1.0, 3e-3, "conversion factor from hot and cold data")
        v_read = max(s["vint"], 0.0)
        t.close(info.if_noise, 4.0 + 5.8e3 * (v_read - s["vint"]), 0.15, "IF noise from hot and cold data")
        upto = min(last, 1.25 * meta.vgap)
    n = judge(c, t, res[:, 0], res[:, 1], res[:, 2], res[:, 3], res[:, 4], meta, first, upto, corr_err)
    expect_best(c, t, res[:, 0] * meta.vgap, res[:, 3], res[:, 4], idx)
    t.close(info.vmax, res[-1, 0] * meta.vgap, 1e-12, "maximum voltage")
    t.label("calibration " + c["calib"])
    t.label("best " + c["best"])
    t.label("judged noise temperatures", n > 0)
    t.label("cold exceeds hot somewhere", bool(np.any(res[:, 2] > res[:, 1])))
    t.nontrivial(n > 20)


def receiver_object(c, t):
    """The analysis object reports the best point of the same results."""
    c = dict(c, s=dict(c["s"], vm=1.0, top=6.3e-3, start=-6.3e-3, step=8e-6, vint=0.0))
    s = c["s"]
    j = s["j"]
    v = sweep(6.3e-3, 5e-6)
    kw = keywords(c)
    common = {k: kw[k] for k in ("v_fmt", "ifdata_npts", "vmax", "ifdata_sigma") if k in kw}
    fmt = {"i_fmt": "mA", "voffset": s["off"], "ioffset": 0.0}
    tab = table(v + s["off"], current(j, v), s["vu"])
    scale = 10 ** s["loggain"]
    dcif = None
    vs = (1.6 * j["vgap"], 5.4e-3)
    if c["calib"] == "dcif":
        dcif = record(s, lambda u: (5.8e3 * u + 6.0) * scale, salt=5)[0]
    dc = quiet(DCData, tab, dcif, verbose=False, vshot=vs, **common, **fmt)
    if dcif is not None:
        t.close(dc.corr * scale, 1.0, 1e-3, "conversion factor")
        t.close(dc.if_noise, 6.0 + 5.8e3 * dc.vint * (dc.vint > 0), 0.05, "IF noise")
        t.check(dc.if_fit == dc.dcif.if_fit and np.array_equal(dc.shot_slope, dc.dcif.shot_slope) and dc.if_noise == dc.dcif.if_noise,
                "attributes of the dc object differ from the metadata")
        t.close(dc.if_data[:, 0], grid_of(s, dc.dc)[0], 1e-12, "voltages of the dc IF data")
    noise, g = receiver(c, dc.vgap)
    th, tc = loads(c)

    def mixed(f):
        def out(u):
            w = 0.5 * (1 + np.tanh((u - 1.45 * dc.vgap) / (0.03 * dc.vgap)))
            return (f(u) * (1 - w) + (5.8e3 * u + 6.0) * w) * scale
        return out
    hot, first, last = record(s, mixed(lambda u: g(u) * (th + noise(u))))
    cold, _, _ = record(s, mixed(cold_power(c, dc.vgap)), salt=3)
    ip = pumped(j, v, c["freq"] * 1e9, 0.8)
    kw.update(fmt, vshot=vs, analyze_iv=False)
    p = quiet(PumpedData, table(v + s["off"], ip, s["vu"]), dc, hot, cold, **kw)
    n = judge(c, t, p.if_hot[:, 0], p.if_hot[:, 1], p.if_cold[:, 1], p.tn, p.gain, dc.dc, first, 1.2 * dc.vgap, 3e-3)
    t.same(p.if_hot[:, 0], p.if_cold[:, 0], "hot and cold voltages")
    expect_best(c, t, p.if_hot[:, 0] * dc.vgap, p.tn, p.gain, p.idx_best)
    t.check(p.tn_best == p.tn[p.idx_best] and p.gain_best == p.gain[p.idx_best] and p.v_best == p.if_hot[p.idx_best, 0],
            "best values are not those of the best point")
    if p.gain_best > 0:
        t.close(p.g_db, 10 * np.log10(p.gain_best), 1e-12, "gain in dB")
    if dcif is not None:
        t.check(p.corr == dc.corr and p.if_noise == dc.if_noise and p.good_if_noise_fit == dc.if_fit, "calibration was not taken over")
    else:
        t.close(p.corr * scale, 1.0, 3e-3, "conversion factor from hot and cold data")
    # dynamic resistance at the best point: local slope of the pumped curve just above it
    k = np.abs(p.voltage - p.v_best).argmin()
    sl = np.diff(p.current[max(k - 2, 0):k + 13]) / np.diff(p.voltage[max(k - 2, 0):k + 13])
    if sl.min() > 1e-3:
        t.check(dc.rn / sl.max() * (1 - 1e-9) <= p.zj_if <= dc.rn / sl.min() * (1 + 1e-9), "dynamic resistance {} but local slopes give {} to {}",
                p.zj_if, dc.rn / sl.max(), dc.rn / sl.min())
    off = quiet(PumpedData, table(v + s["off"], ip, s["vu"]), dc, hot, cold, **dict(kw, analyze_if=False))
    t.check(off.tn is None and off.gain is None and off.tn_best is None and off.idx_best is None, "IF data analysed although switched off")
    t.label("calibration " + c["calib"])
    t.nontrivial(n > 20)


CHECKS = [
    Check("hot_cold", case(), hot_cold, quick=700, thorough=20000),
    Check("receiver_object", case(), receiver_object, quick=70, thorough=1500),
]
