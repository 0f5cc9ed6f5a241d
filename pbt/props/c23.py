"""C23: figures and exported text files show what the analysed data hold."""

import contextlib
import glob
import os
import shutil
import tempfile
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.figure import Figure

from qmix.exp.exp_data import DCData, PumpedData, initialize_dir, plot_if_spectrum, plot_overall_results
from qmix.exp.if_response import if_response
from qmix.exp.iv_data import dciv_curve, iv_curve
from qmix.mathfn.filters import gauss_conv
from qmix.respfn import RespFnExponential, RespFnFromIVData, RespFnPolynomial
from pbt.core import SCRATCH, Check, grid
from pbt.lab import current, junction, pumped, quiet, sweep, table
from pbt.props.c18 import iac_of, simulate
from pbt.props.c22 import snap, where

PROPERTY = "C23"
RULE = ("cases: analysed unpumped and pumped data (random junctions, drive levels, frequencies, IF data, recovered or forced impedance, fit "
        "ranges) drawn by every plotting method with or without given axes and file name, exported with all file layouts, and spectrum "
        "files; non-trivial: at least one figure or file whose numbers were compared")
ASSUMPTIONS = ["the rendering itself is matplotlib's; most figures are recorded at the moment they are saved instead of rendered",
               "overall results need IF data and impedance recovery for every data set"]
TMP = tempfile.gettempdir() if SCRATCH == "/tmp" else SCRATCH


@st.composite
def dc_case(draw):
    return {"j": draw(junction), "dcif": draw(st.booleans()), "vleak": draw(st.one_of(st.none(), grid(0.5e-3, 2.2e-3, 34))),
            "given": draw(st.booleans()), "vmax": draw(st.one_of(st.none(), grid(3, 5, 20))), "ax": draw(st.booleans()),
            "file": draw(st.booleans()), "render": draw(st.integers(0, 5)), "sub": draw(st.sampled_from([None, "", "unpumped"])),
            "nested": draw(st.booleans())}


@st.composite
def pump_case(draw):
    c = draw(dc_case())
    c.update(freq=draw(grid(200, 450, 2500)), alpha=draw(grid(0.4, 1.2, 16)), ifd=draw(st.booleans()),
             zemb=draw(st.sampled_from([None, None, [0.4, -0.2], [0.25, 0.3]])),
             analyse=draw(st.sampled_from([True, True, False])),
             fit=draw(st.sampled_from([None, None, [0.2, 0.7], "cut", [0.4, 0.9]])),
             emb=draw(st.sampled_from([None, [[0.05, 1.2], [-0.8, 0.8]]])), struc=draw(st.sampled_from(["default", "", "dict"])),
             far=draw(st.sampled_from([1.0, 0.2, 0.2])), best=draw(st.sampled_from([{}, {}, {"best_pt": "Min Tn"}, {"vbest": 1.9e-3}])),
             ifstart=draw(st.sampled_from([0, 0, 0.4e-3, 0.8e-3])), ifstop=draw(st.sampled_from([6.3e-3, 6.3e-3, 5.95e-3])))
    return c


def dc_of(c):
    j = c["j"]
    v = sweep(6.3e-3, 5e-6)
    kw = {"verbose": False, "voffset": 0.0, "ioffset": 0.0, "npts": 2001, "vshot": [5e-3, 5.9e-3]}
    if c["vleak"] is not None:
        kw["vleak"] = c["vleak"]
    dcif = None
    if c["dcif"]:
        w = np.arange(0, 6.3e-3, 8e-6)
        dcif = table(w, (5.8e3 * w + 4 + 15 * np.exp(-0.5 * ((w / j["vgap"] - 1) / 0.03) ** 2)) * 0.02, "mV", "A")
    return quiet(DCData, table(v, current(j, v)), dcif, **kw)


def pumped_of(c, dc, freq=None, alpha=None, comment="", ifd=None):
    j = c["j"]
    v = sweep(6.3e-3, 5e-6)
    freq = freq or c["freq"]
    kw = {"verbose": False, "voffset": 0.0, "ioffset": 0.0, "npts": 2001, "freq": freq, "analyze_iv": c["analyse"], "ifdata_npts": 900,
          "vshot": [5e-3, 5.9e-3], "comment": comment, **c["best"]}
    if c["zemb"]:
        kw["zemb"] = complex(*c["zemb"])
    if c["fit"] == "cut":
        kw.update(fit_range=None, cut_low=0.3, cut_high=0.15)
    elif c["fit"]:
        kw["fit_range"] = c["fit"]
    if c["emb"]:
        kw.update(remb_range=c["emb"][0], xemb_range=c["emb"][1])
    hot = cold = None
    if c["ifd"] if ifd is None else ifd:
        w = np.arange(c["ifstart"], c["ifstop"], 8e-6)
        x = w / j["vgap"]
        g = 0.03 + 0.3 * np.exp(-0.5 * ((x - 1 + 0.3) / 0.12) ** 2) + c["far"] * np.clip(x - 1.5, 0, None)
        hot, cold = (table(w, (g * (tt + 60) + 4) * 0.02, "mV", "A") for tt in (293.0, 78.0))
    return quiet(PumpedData, table(v, pumped(j, v, freq * 1e9, alpha or c["alpha"])), dc, hot, cold, **kw)


@contextlib.contextmanager
def recorded(render):
    """Figures are recorded when they are saved (and rendered coarsely if asked to)."""
    saved = {}
    real = Figure.savefig

    def save(self, fname, **kw):
        path = os.path.abspath(str(fname))
        saved.setdefault(path, []).append([[(np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in a.get_lines()]
                                           for a in self.axes])
        if render:
            kw["dpi"] = 15
            real(self, fname, **kw)
        else:
            with open(path, "wb") as f:
                f.write(b"figure")

    Figure.savefig = save
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield saved
    finally:
        Figure.savefig = real
        plt.close("all")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c23-", dir=TMP)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def lines_of(axs):
    out = []
    for a in (axs if isinstance(axs, (tuple, list)) else [axs]):
        out += [(np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in a.get_lines()]
    return out


def shown(t, lines, x, y, what):
    """Some line of the figure goes through exactly these points."""
    x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
    ok_x, ok_y = np.isfinite(x), np.isfinite(y)
    sx, sy = 1e-9 * (1 + np.max(np.abs(x[ok_x]), initial=0)), 1e-7 * (1 + np.max(np.abs(y[ok_y]), initial=0))
    for a, b in lines:
        a, b = np.atleast_1d(a), np.atleast_1d(b)
        # (where nothing was measured there is nothing to draw)
        if a.shape == x.shape and b.shape == y.shape and np.all(np.isfinite(a) == ok_x) and np.all(np.isfinite(b) == ok_y) and \
                np.all(np.abs(a - x)[ok_x] <= sx) and np.all(np.abs(b - y)[ok_y] <= sy):
            return
    raise_(t, "{} is not shown", what)


def raise_(t, msg, *a):
    t.check(False, msg, *a)


def axes_for(kind):
    if kind == "two":
        fig, a = plt.subplots(2, sharex=True)
        return (a[0], a[1])
    if kind == "twin":
        fig, a = plt.subplots()
        return (a, a.twinx())
    fig, a = plt.subplots()
    return a


def draw_it(t, c, obj, method, kind, folder, saved, **kw):
    """Call one plotting method in the way the case asks for; returns the lines drawn."""
    before = snap(obj)
    given = axes_for(kind) if c["ax"] else None
    figs = set(plt.get_fignums())
    name = os.path.join(folder, method + ".png") if c["file"] else None
    kw = dict(kw)
    if given is not None:
        kw["ax"] = given
    ret = quiet(getattr(obj, method), fig_name=name, **kw)
    t.check(snap(obj) == before, "{} changed the data: {}", method, where(before, snap(obj)))
    if name:
        t.check(ret is None, "{} with a file name returned axes", method)
        t.check(os.path.isfile(name) and os.path.getsize(name) > 0, "{} did not write {}", method, name)
        fig = (given[0] if isinstance(given, tuple) else given).get_figure() if given is not None else None
        left = set(plt.get_fignums()) - figs if fig is None else ({fig.number} & set(plt.get_fignums()))
        t.check(not left, "{} left its figure open after saving it", method)
        axes = saved[os.path.abspath(name)][-1]
        return [ln for a in axes for ln in a], None
    t.check(ret is not None, "{} returned no axes", method)
    if given is not None:
        a, b = (tuple(x) if isinstance(x, (tuple, list)) else (x,) for x in (ret, given))
        t.check(a == b, "{} did not draw on the axes given", method)
        fig = a[0].get_figure()
        t.check(len(set(fig.axes) - set(b)) == 0 or method == "plot_error_surface", "{} added axes to the figure given", method)
    return lines_of(ret), ret


def dc_figures(c, t):
    d = dc_of(c)
    mv, ua = d.vgap * 1e3, d.igap * 1e6
    x, y = d.voltage * mv, d.current * ua
    kw = {} if c["vmax"] is None else {"vmax_plot": c["vmax"]}
    with scratch() as folder, recorded(c["render"] == 0) as saved:
        ln, ax = draw_it(t, c, d, "plot_dciv", "one", folder, saved, **kw)
        shown(t, ln, x, y, "the unpumped curve in mV and uA")
        shown(t, ln, d.vgap * 1e3, np.interp(d.vgap * 1e3, x, y), "the gap")
        vl = d.vleak * 1e3
        t.check(abs(vl - (2.0 if c["vleak"] is None else c["vleak"] * 1e3)) < 1e-9, "voltage of the leakage current")
        shown(t, ln, vl, d.ileak * 1e6, "the leakage current")
        shown(t, ln, x, (d.voltage * d.vgap - d.vint) / d.rn * 1e6, "the normal resistance")
        if ax is not None:
            hi = ax.get_xlim()[1]
            t.check(abs(ax.get_xlim()[0]) < 1e-9 and abs(hi - (c["vmax"] or 4.0)) < 0.01, "voltage range {}", ax.get_xlim())
        ln, ax = draw_it(t, c, d, "plot_offset", "one", folder, saved)
        m = np.abs(x) < 0.2
        shown(t, ln, x[m], y[m], "the curve around the origin")
        if c["dcif"]:
            ln, ax = draw_it(t, c, d, "plot_if_noise", "two", folder, saved)
            shown(t, ln, x, y, "the unpumped curve")
            shown(t, ln, d.if_data[:, 0] * mv, d.if_data[:, 1], "the IF data")
            shown(t, ln, d.shot_slope[:, 0] * mv, d.shot_slope[:, 1], "the shot-noise slope")
        else:
            t.check(quiet(d.plot_if_noise) is None, "IF noise figure without IF data")
        plt.close("all")
        top = folder if not c["nested"] else os.path.join(folder, "a", "b")
        before = snap(d)
        arg = {} if c["sub"] is None else {"sub_folder": c["sub"]}
        quiet(d.plot_all, top, **arg, **kw)
        t.check(snap(d) == before, "plot_all changed the data")
        there = {os.path.relpath(p, top) for p in saved if os.path.dirname(p) != folder or not c["file"]}
        sub = {None: "dciv", "": "", "unpumped": "unpumped"}[c["sub"]]
        want = os.path.join(sub, "dciv.png")
        t.check(os.path.isfile(os.path.join(top, want)), "plot_all wrote {}, expected {}", there, want)
        t.check(os.path.isfile(os.path.join(top, sub, "dcif.png")) == c["dcif"], "IF figure of plot_all")
        r = RespFnFromIVData(d.voltage, d.current, check_error=False, verbose=False, v_smear=None)
        responses(c, t, [d.resp, r, RespFnPolynomial(30, verbose=False), RespFnExponential(verbose=False)][c["render"] % 4], folder, saved)
    t.nontrivial()
    t.label("file", c["file"])


def responses(c, t, r, folder, saved):
    for method in ("plot", "plot_interpolation", "show_current"):
        ln, _ = draw_it(t, c, r, method, "one", folder, saved)
        shown(t, ln, r.voltage, r.current, "%s: dc curve" % method)
        shown(t, ln, r.voltage_kk, r.current_kk, "%s: Kramers-Kronig transform" % method)
        if method != "plot":
            shown(t, ln, r.voltage, r.idc(r.voltage), "%s: interpolated dc curve" % method)
            shown(t, ln, r.voltage_kk, r.ikk(r.voltage_kk), "%s: interpolated Kramers-Kronig transform" % method)


def fit_interval(c):
    if c["fit"] == "cut":
        return 0.3, 0.85
    return tuple(c["fit"]) if c["fit"] else (0.25, 0.8)


def pumped_figures(c, t):
    d = dc_of(c)
    p = pumped_of(c, d)
    mv, ua = d.vgap * 1e3, d.igap * 1e6
    x, y = d.voltage * mv, d.current * ua
    m = p.current != 0
    xp, yp = p.voltage[m] * mv, p.current[m] * ua
    kw = {} if c["vmax"] is None else {"vmax_plot": c["vmax"]}
    top = c["vmax"] or 4.0
    with scratch() as folder, recorded(c["render"] == 0) as saved:
        ln, ax = draw_it(t, c, p, "plot_iv", "one", folder, saved, **kw)
        shown(t, ln, x, y, "plot_iv: the unpumped curve")
        shown(t, ln, xp, yp, "plot_iv: the pumped curve")
        if ax is not None:
            t.close(ax.get_xlim(), [0, top], 1e-9, "plot_iv: voltage range")
            edges = sorted({round(float(a[0]), 9) for a, b in lines_of(ax) if len(a) == 2 and a[0] == a[1]})
            t.close(edges, [round((1 - p.vph) * mv, 9), round(mv, 9)], 1e-6, "plot_iv: gap and photon step")
        if c["ifd"]:
            w = p.if_hot[:, 0] * mv
            hot, cold = p.if_hot[:, 1], p.if_cold[:, 1]
            ln, _ = draw_it(t, c, p, "plot_if", "one", folder, saved, **kw)
            shown(t, ln, w, hot, "plot_if: hot power")
            shown(t, ln, w, cold, "plot_if: cold power")
            if c["dcif"]:
                shown(t, ln, d.if_data[:, 0] * mv, d.if_data[:, 1], "plot_if: power without LO")
            ln, _ = draw_it(t, c, p, "plot_ivif", "twin", folder, saved, **kw)
            shown(t, ln, x, y, "plot_ivif: the unpumped curve")
            shown(t, ln, xp, yp, "plot_ivif: the pumped curve")
            shown(t, ln, w[hot != 0], hot[hot != 0], "plot_ivif: hot power")
            shown(t, ln, w[cold != 0], cold[cold != 0], "plot_ivif: cold power")
            k = p.idx_best
            h = hot != 0
            ln, _ = draw_it(t, c, p, "plot_noise_temp", "twin", folder, saved, **kw)
            shown(t, ln, w[h], gauss_conv(hot[h], 5), "plot_noise_temp: hot power")
            shown(t, ln, w[h], gauss_conv(cold[h], 5), "plot_noise_temp: cold power")
            shown(t, ln, w[h], p.tn[h], "plot_noise_temp: noise temperature")
            shown(t, ln, w[k], p.tn[k], "plot_noise_temp: best point")
            ln, _ = draw_it(t, c, p, "plot_yfac_noise_temp", "twin", folder, saved, **kw)
            shown(t, ln, w, gauss_conv(hot, 5) / gauss_conv(cold, 5), "plot_yfac_noise_temp: Y factor")
            shown(t, ln, w, p.tn, "plot_yfac_noise_temp: noise temperature")
            shown(t, ln, w[k], p.tn[k], "plot_yfac_noise_temp: best point")
            ln, _ = draw_it(t, c, p, "plot_gain_noise_temp", "twin", folder, saved, **kw)
            shown(t, ln, w, p.gain, "plot_gain_noise_temp: gain")
            shown(t, ln, w[k], p.gain[k], "plot_gain_noise_temp: gain of the best point")
            shown(t, ln, w, p.tn, "plot_gain_noise_temp: noise temperature")
            shown(t, ln, w[k], p.tn[k], "plot_gain_noise_temp: best point")
            ln, _ = draw_it(t, c, p, "plot_gain", "one", folder, saved, **kw)
            shown(t, ln, w, p.gain * 100, "plot_gain: gain")
        if c["analyse"]:
            surface(c, t, p, d, folder, saved)
            simulated(c, t, p, d, folder, saved, kw, mv, ua)
        plt.close("all")
        folders(c, t, p, folder, saved, kw)
    t.nontrivial()
    t.label("if", c["ifd"])
    t.label("impedance", c["analyse"])


def surface(c, t, p, d, folder, saved):
    ln, ax = draw_it(t, c, p, "plot_error_surface", "one", folder, saved)
    if ax is None:
        return
    mesh = [q for q in ax.collections if hasattr(q, "get_coordinates")]
    t.check(len(mesh) == 1, "plot_error_surface: no error surface")
    z = np.asarray(mesh[0].get_array()).reshape(201, 101)
    t.close(z, np.log10(p.err_surf).T, 1e-9, "plot_error_surface: values", scale=1 + np.abs(z))
    xy = mesh[0].get_coordinates()
    re, im = (xy[0, :, 0], xy[:, 0, 1])
    if len(re) == 102:              # cell edges
        re, im = (re[1:] + re[:-1]) / 2, (im[1:] + im[:-1]) / 2
    (a, b), (e, f) = c["emb"] or ((0, 1), (-1, 1))
    t.close(re, np.linspace(a, b, 101) * d.rn, 1e-9 * d.rn, "plot_error_surface: resistances")
    t.close(im, np.linspace(e, f, 201) * d.rn, 1e-9 * d.rn, "plot_error_surface: reactances")
    if not c["zemb"]:
        k, m = np.unravel_index(z.argmin(), z.shape)
        t.close(re[m] + 1j * im[k], p.zt * d.rn, 1e-9 * d.rn, "plot_error_surface: minimum")
    notes = [q.xy for q in ax.texts if hasattr(q, "xy")]
    t.check(any(abs(q[0] + 1j * q[1] - p.zt * d.rn) < 1e-9 * d.rn for q in notes), "plot_error_surface: recovered impedance is not marked")


def simulated(c, t, p, d, folder, saved, kw, mv, ua):
    ln, _ = draw_it(t, c, p, "plot_simulated", "one", folder, saved, **kw)
    m = p.current != 0
    shown(t, ln, d.voltage * mv, d.current * ua, "plot_simulated: the unpumped curve")
    shown(t, ln, p.voltage[m] * mv, p.current[m] * ua, "plot_simulated: the pumped curve")
    # an independent solution of the recovered circuit
    v = np.linspace(1 - 0.9 * p.vph, 1 - 0.1 * p.vph, 15)
    al, want = simulate(d.resp_smear, p.vph, p.zt, p.vt, v)
    # more than one state may solve the circuit; judge only where it is unique
    aa = np.linspace(0, 4, 81)
    uniq = [np.all(np.diff(np.abs(aa * p.vph + p.zt * iac_of(d.resp_smear, np.full(81, q), p.vph, aa))) > 0) for q in v]
    found = [(a, b) for a, b in ln if len(a) > 10 and np.all(np.diff(a) > 0) and a[0] < v[0] * mv and a[-1] > v[-1] * mv]
    if np.all(uniq):
        err = min(np.max(np.abs(np.interp(v * mv, a, b) - want * ua)) for a, b in found)
        t.check(err < 0.01 * ua, "plot_simulated: no curve is the one of the recovered circuit (off by {} uA)", err)
        t.label("simulated_curve_compared")
    lo, hi = fit_interval(c)
    ends = np.array([(1 - p.vph + p.vph * lo) * mv, (1 - p.vph + p.vph * hi) * mv])
    t.check(any(len(a) == 2 and np.all(np.abs(np.sort(a) - ends) < 1e-6 * mv) for a, b in ln),
            "plot_simulated: fit interval {} mV is not marked", ends)


def folders(c, t, p, folder, saved, kw):
    top = os.path.join(folder, "out", "deep") if c["nested"] else os.path.join(folder, "out")
    std = {"Pumped IV curve": "iv-curves/", "IV + IF": "iv-if/", "Impedance recovery": "impedance/",
           "Impedance recovery (sim)": "impedance-sim/", "Noise temperature": "noise-temp/"}
    arg = {}
    if c["struc"] == "":
        arg, std = {"file_struc": ""}, {k: "" for k in std}
    elif c["struc"] == "dict":
        std = {k: "x%d" % i for i, k in enumerate(sorted(std))}
        arg = {"file_struc": dict(std)}
    before = snap(p)
    mark = set(saved)
    quiet(p.plot_all, top, **arg, **kw)
    t.check(snap(p) == before, "plot_all changed the data: {}", where(before, snap(p)))
    got = {os.path.normpath(os.path.relpath(q, top)) for q in set(saved) - mark}
    f = str(p.freq)
    want = {os.path.join(std["Pumped IV curve"], f + "-iv.png")}
    if c["ifd"]:
        want |= {os.path.join(std["IV + IF"], f + "-iv-if.png"), os.path.join(std["Noise temperature"], f + "-tn.png")}
    if c["analyse"]:
        want |= {os.path.join(std["Impedance recovery"], f + "-err-surf.png"), os.path.join(std["Impedance recovery (sim)"], f + "-sim.png")}
    t.check(got == {os.path.normpath(w) for w in want}, "plot_all wrote {}, expected {}", sorted(got), sorted(want))
    t.check(not plt.get_fignums(), "plot_all left figures open")


@st.composite
def overall_case(draw):
    c = draw(pump_case())
    n = draw(st.sampled_from([1, 2, 3, 4, 5]))
    c.update(analyse=True, ifd=True, emb=None,
             freqs=draw(st.lists(grid(200, 450, 2500), min_size=n, max_size=n, unique=True)),
             alphas=draw(st.lists(grid(0.4, 1.2, 16), min_size=n, max_size=n)), tnmax=draw(st.sampled_from([None, 300])),
             slash=draw(st.booleans()), bad=draw(st.sampled_from([False, False, True])))
    return c


def overall(c, t):
    d = dc_of(c)
    items = []
    for k, (f, a) in enumerate(zip(c["freqs"], c["alphas"])):
        cc = dict(c, zemb=[0.9, 0.9]) if c["bad"] and k == 0 else c
        items.append(pumped_of(cc, d, f, a))
    before = [snap(d)] + [snap(p) for p in items]
    rnd = c["render"] == 0
    with scratch() as folder, recorded(rnd) as saved:
        out = os.path.join(folder, "results") + ("/" if c["slash"] else "")
        quiet(plot_overall_results, d, list(items), out, tn_max=c["tnmax"])
        t.check([snap(d)] + [snap(p) for p in items] == before, "exporting changed the data")
        t.check(not plt.get_fignums(), "exporting left figures open")
        csv = os.path.join(out, "csv")
        t.check(set(os.listdir(folder)) == {"results"}, "files outside of the folder given: {}", os.listdir(folder))
        a = np.loadtxt(os.path.join(csv, "dciv-data.txt"))
        t.close(a, np.c_[d.voltage, d.current], 1e-15, "exported unpumped curve", scale=1 + np.abs(np.c_[d.voltage, d.current]))
        info = open(os.path.join(csv, "dciv-info.txt")).read().splitlines()
        vals = [float(q.split("\t")[1].split("[")[0]) for q in info]
        t.close(vals, [d.vgap * 1e3, d.rn, d.fgap / 1e9], 0.0051, "exported junction parameters")
        rows = open(os.path.join(csv, "recovered-emb.txt")).read().splitlines()
        t.check(len(rows) == len(items), "number of exported impedances")
        for r, p in zip(rows, items):
            f, v, z, ok = r.split("\t")
            re, im = z.split("+ 1j *")
            t.check(float(f) == p.freq, "exported frequency")
            t.close(float(v), p.vt * d.vgap * 1e3, 0.0051, "exported embedding voltage")
            t.close(float(re) + 1j * float(im.strip(" ()")), p.zt * d.rn, 0.0073, "exported embedding impedance")
            t.check(ok == str(p.fit_good), "exported quality of the fit")
        rows = open(os.path.join(csv, "results.txt")).read().splitlines()
        head = rows[0].split(", ")
        t.check(len(rows) == len(items) + 1, "number of exported results")
        for r, p in zip(rows[1:], items):
            q = dict(zip(head, r.split(", ")))
            t.check(len(r.split(", ")) == len(head) == 12, "columns of the exported results")
            for name, val, tol in (("Frequency (GHz)", p.freq, 1e-12), ("Noise Temperature (K)", p.tn_best, 0.0051),
                                   ("Gain (dB)", 10 * np.log10(p.gain[p.idx_best]), 0.0051), ("Drive Level", p.alpha, 0.0051),
                                   ("Embedding Voltage (mV)", p.vt * d.vgap * 1e3, 0.000051), ("IF Noise (K)", p.if_noise, 1e-9)):
                t.close(float(q[name]), val, tol, "exported " + name, scale=1 + 1e-9 * abs(val))
            t.close(complex(q["Embedding Impedance (ohms)"]), p.zt * d.rn, 0.000073, "exported embedding impedance")
            t.check(q["Embedding Circuit Recovered"] == str(p.fit_good), "exported quality of the fit")
            t.check(q["IF Noise Recovered"] == str(p.good_if_noise_fit), "exported quality of the IF noise fit")
        # the figures
        f = np.array([p.freq for p in items])
        good = np.array([bool(p.fit_good) for p in items])
        pic = {os.path.basename(k): [ln for a in v[-1] for ln in a] for k, v in saved.items()}
        t.check(all(os.path.dirname(k) == os.path.join(folder, "results", "overall-results") for k in saved), "figures outside of their folder")
        z = np.array([p.zt * d.rn for p in items])
        zj = np.array([p.zw * d.rn for p in items])
        tn = [p.tn_best for p in items]
        for name, x, y in (("rdyn", f, [p.zj_if for p in items]), ("noise_temperature", f, tn), ("noise_temperature_logy", f, tn),
                           ("noise_temperature_spline_fit", f, tn), ("noise_temperature_and_gain", f, tn),
                           ("noise_temperature_and_gain", f, [p.g_db for p in items]), ("if_noise", f, [p.if_noise for p in items]),
                           ("embedding_impedance", f[good], z.real[good]), ("embedding_impedance", f[good], z.imag[good]),
                           ("embedding_impedance_all", f, z.real), ("embedding_impedance_all", f, z.imag),
                           ("embedding_voltage", f[good], np.array([p.vt * p.vgap * 1e3 for p in items])[good]),
                           ("drive_level", f, [p.alpha for p in items]), ("junction_impedance", f, zj.real), ("junction_impedance", f, zj.imag)):
            t.check(name + ".png" in pic, "no figure {}", name)
            if name == "if_noise":
                ok = np.array([bool(p.good_if_noise_fit) for p in items])
                x, y = f[ok], np.array(y, float)[ok]
            if len(x):
                shown(t, pic[name + ".png"], x, y, "%s against frequency" % name)
        t.check("iv_curves.png" in pic, "no figure of all curves")
        for p in items:
            shown(t, pic["iv_curves.png"], p.voltage * d.vgap * 1e3, p.current * d.igap * 1e6, "pumped curve")
    t.nontrivial(len(items) > 1)
    t.label("points_%d" % len(items))
    t.label("bad_fit", not good.all())
    t.label("unsorted", np.any(np.diff(f) < 0))


# -- spectra and folders ------------------------------------------------------

@st.composite
def spectra_case(draw):
    n = draw(st.integers(0, 4))
    return {"f": draw(st.lists(grid(180, 500, 3200), min_size=n, max_size=n, unique=True)), "npt": draw(st.integers(12, 60)),
            "seed": draw(st.integers(0, 999)), "save": draw(st.booleans()), "other": draw(st.booleans()), "render": draw(st.integers(0, 7)),
            "sep": draw(st.sampled_from([" \t ", "\t", "  "])), "made": draw(st.lists(st.integers(0, 9), max_size=3)),
            "slash": draw(st.booleans())}


def spectra(c, t):
    rng = np.random.default_rng(c["seed"])
    with scratch() as folder, recorded(c["render"] == 0) as saved:
        src, dst = os.path.join(folder, "data"), os.path.join(folder, "fig")
        os.mkdir(src)
        os.mkdir(dst)
        want = {}
        for f in c["f"]:
            n = c["npt"]
            d = np.c_[np.round(np.linspace(2, 16, n), 3), np.round(-20 + rng.normal(size=n), 3), np.zeros(n)]
            d[:, 2] = np.round(d[:, 1] - rng.uniform(0.2, 2.5, n), 3)
            name = "f%.1f_comb" % f
            with open(os.path.join(src, name + ".dat"), "w") as fh:
                fh.write("Frequency (GHz),    Hot IF Power (dB),  Cold IF Power (dB)\n")
                for r in d:
                    fh.write(c["sep"].join("%.6g" % q for q in r) + "\n")
            want[name] = if_response(d)
        if c["other"]:
            open(os.path.join(src, "notes.dat"), "w").write("nothing to see\n")
        quiet(plot_if_spectrum, src, dst if c["save"] else None)
        if c["save"]:
            pic = {os.path.basename(k): [ln for a in v[-1] for ln in a] for k, v in saved.items()}
            for k, v in want.items():
                for name in (k + ".png", "if_spectra.png", "if_spectra2.png", k + "2.png"):
                    t.check(name in pic and os.path.isfile(os.path.join(dst, name)), "no figure {}", name)
                    shown(t, pic[name], v[0], v[1], "noise temperature of %s in %s" % (k, name))
                for name in ("if_spectra_smooth.png", "if_spectra_smooth2.png"):
                    t.check(name in pic, "no figure {}", name)
                    shown(t, pic[name], v[0], gauss_conv(v[1], sigma=1), "smoothed noise temperature of %s" % k)
            t.check(sorted(os.listdir(folder)) == ["data", "fig"], "files outside of the figure folder")
        else:
            t.check(not saved and not glob.glob(dst + "/*"), "files although no folder was given")
    # folders for results
    with scratch() as folder:
        top = os.path.join(folder, "res")
        for k in c["made"]:
            os.makedirs(os.path.join(top, ["dciv", "csv", "iv-if"][k % 3]), exist_ok=True)
        keep = None
        if c["made"]:
            keep = os.path.join(top, "note.txt")
            open(keep, "w").write("keep")
        quiet(initialize_dir, top + ("/" if c["slash"] else ""))
        t.check(os.listdir(folder) == ["res"], "folders outside of the one given: {}", os.listdir(folder))
        have = {q for q in os.listdir(top) if os.path.isdir(os.path.join(top, q))}
        t.check(have == {"dciv", "iv-curves", "iv-if", "impedance", "impedance-sim", "if-noise", "noise-temp", "if-spectrum",
                         "overall-results", "csv"}, "folders for results: {}", have)
        t.check(keep is None or open(keep).read() == "keep", "existing file touched")
    t.nontrivial(len(c["f"]) > 1)


@st.composite
def step_case(draw):
    return {"j": draw(junction), "off": [draw(grid(-3e-4, 3e-4, 60)), draw(grid(-1e-5, 1e-5, 40))], "rs": draw(st.sampled_from([None, 0.6])),
            "filter": draw(st.booleans()), "vgap": draw(st.sampled_from([None, 2.7e-3])), "vu": draw(st.sampled_from(["mV", "V"])),
            "iu": draw(st.sampled_from(["uA", "mA"])), "pump": draw(st.booleans()), "given": draw(st.booleans()),
            "npts": draw(st.sampled_from([None, 3001])), "down": draw(st.booleans())}


def import_steps(c, t):
    """With debug on, every step of an import is drawn; the import is the same as without."""
    j = c["j"]
    v = sweep(6.3e-3, 5e-6)
    i = current(j, v)
    rs = c["rs"] or 0.0
    kw = {"v_fmt": c["vu"], "i_fmt": c["iu"], "filter_data": c["filter"]}
    for k, name in (("rs", "rseries"), ("vgap", "vgap"), ("npts", "npts")):
        if c[k] is not None:
            kw[name] = c[k]
    if c["given"]:
        kw.update(voffset=c["off"][0], ioffset=c["off"][1])
    vm, im = v + i * rs + c["off"][0], i + c["off"][1]
    d = table(vm, im, c["vu"], c["iu"])[::-1 if c["down"] else 1]
    calls = [("unpumped", d, lambda **k: quiet(dciv_curve, d, **kw, **k))]
    dc = calls[0][2]()[2]
    if c["pump"]:
        ip = pumped(j, v, 320e9, 0.8)
        vm, im = v + ip * rs + c["off"][0], ip + c["off"][1]
        d2 = table(vm, im, c["vu"], c["iu"])[::-1 if c["down"] else 1]
        calls = [("pumped", d2, lambda **k: quiet(iv_curve, d2, dc, **kw, **k))]
    for what, raw, fn in calls:
        plain = snap(fn())
        plt.close("all")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            same = snap(fn(debug=True))
        t.check(plain == same, "debug figures change the import: {}", "" if plain == same else where(plain, same))
        lines = [[(np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in plt.figure(k).axes[0].get_lines()]
                 for k in plt.get_fignums()]
        plt.close("all")
        t.check(len(lines) >= 3 + c["filter"], "{} figures for the steps of an import", len(lines))
        # scale of the figures: mV and uA, or V and A
        sv, si = (1e3, 1e6) if what == "unpumped" else (1.0, 1.0)
        shown(t, lines[0], vm * sv, im * si, "imported data")
        off = dc.offset
        shown(t, lines[1], (vm - off[0]) * sv, (im - off[1]) * si, "data without offset")
        if what == "unpumped":
            x, y = dc.vraw, dc.iraw
            if c["filter"]:
                shown(t, lines[2], x * sv, y * si, "filtered data")
            shown(t, lines[2 + c["filter"]], (x - rs * y) * sv, y * si, "data without series resistance")
            if c["vgap"] is None:
                t.check(len(lines) == 4 + c["filter"], "no figure of the gap search")
                stars = [(x[0] * 1e-3) for x, y in lines[-1] if len(x) == 1]
                t.check(any(abs(q - dc.vgap) < 1e-9 for q in stars), "gap voltage {} not marked: {}", dc.vgap, stars)
                shown(t, lines[-1], (x - rs * y) * sv, y * si, "data of the gap search")
    t.nontrivial(bool(any(c["off"])))


CHECKS = [
    Check("import_steps", step_case(), import_steps, quick=60, thorough=1000),
    Check("dc_figures", dc_case(), dc_figures, quick=80, thorough=2000),
    Check("pumped_figures", pump_case(), pumped_figures, quick=120, thorough=3000),
    Check("overall", overall_case(), overall, quick=60, thorough=1500),
    Check("spectra", spectra_case(), spectra, quick=120, thorough=3000),
]
