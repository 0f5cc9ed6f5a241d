"""C26: options left out mean their documented values, and older spellings of an option keep their meaning."""

import contextlib
import functools
import io
import os
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from qmix.circuit import EmbeddingCircuit, read_circuit
from qmix.exp import clean_data as cd
from qmix.exp.exp_data import DCData, PumpedData
from qmix.exp.if_data import dcif_data, if_data
from qmix.exp.if_response import if_response
from qmix.exp.iv_data import dciv_curve, iv_curve
from qmix.harmonic_balance import check_hb_error, harmonic_balance
from qmix.mathfn import ivcurve_models as ivm
from qmix.mathfn.filters import gauss_conv
from qmix.mathfn.kktrans import kk_trans
from qmix.mathfn.misc import slope_span_n
from qmix.misc import terminal
from qmix.misc.progbar import progress_bar
from qmix.qtcurrent import qtcurrent
from qmix.respfn import RespFn, RespFnExponential, RespFnFromIVData, RespFnPerfect, RespFnPolynomial
from pbt.core import Check, grid
from pbt.curves import logistic
from pbt.lab import current, pumped, quiet, sweep, table
from pbt.sim import AnalyticResp

PROPERTY = "C26"
RULE = ("cases: a public function, a generated problem, options drawn from a table of documented names and defaults: some set to another "
        "value, the others once left out and once written out (by name or in the documented order); or an option in its older and its "
        "present spelling; non-trivial: at least one option left out, or an older spelling used")
ASSUMPTIONS = ["the documented defaults are those of the docstrings and of qmix.exp.parameters, copied by hand into this file",
               "the deprecated option 'analyze' and undocumented options are left out"]


def numbers(o, depth=0):
    """Everything a result holds, as nested tuples of numbers and texts."""
    if o is None or isinstance(o, (bool, int, float, complex, str, np.generic)):
        return o
    if isinstance(o, np.ndarray):
        return o
    if isinstance(o, (tuple, list)):
        return [numbers(x, depth) for x in o]
    if isinstance(o, dict):
        return [[k, numbers(o[k], depth + 1)] for k in sorted(o)]
    return None


def differ(a, b, path="result"):
    """Where two results differ, or None."""
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
            return path + ": another shape"
        return next((d for k, (x, y) in enumerate(zip(a, b)) for d in [differ(x, y, "%s[%s]" % (path, k))] if d), None)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if type(a) is type(b) and a == b else "%s: %r and %r" % (path, a, b)
    x, y = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if x.shape != y.shape:
        return "%s: shapes %s and %s" % (path, x.shape, y.shape)
    ok = np.isfinite(y)
    if not np.array_equal(ok, np.isfinite(x)):
        return path + ": other special values"
    if ok.any():
        e = np.abs(x[ok] - y[ok])
        if e.max() > 1e-9 * max(np.abs(y[ok]).max(), 1e-300):
            k = e.argmax()
            return "%s: %r and %r" % (path, x[ok][k], y[ok][k])
    return None


# -- the table: options in documented order, documented default, other values

HB = [("num_b", 15, [9, 19]), ("max_it", 10, [3, 6, 25]), ("stop_rerror", 0.001, [1e-9, 0.05]), ("vj_initial", None, []),
      ("damp_coeff", 1.0, [0.6, 0.25]), ("mode", "o", ["x"]), ("verbose", True, [False]), ("zj_guess", 0.67, [0.3, 1.1])]
QT = [("num_b", 15, [6, 22]), ("verbose", True, [False]), ("resp_matrix", None, [])]
ERR = [("num_b", 15, [12, 20]), ("stop_rerror", 0.001, [1e-4, 1e-2])]
CCT = [("num_f", 1, [2, 3]), ("num_p", 1, [2, 3]), ("vb_min", 0, [0.5, -1]), ("vb_max", 2, [1.5, 3]), ("vb_npts", 201, [5, 101]),
       ("fgap", None, [7e11]), ("vgap", None, [2.7e-3]), ("rn", None, [14.0]), ("name", "", ["mixer"])]
RESP = [("max_npts_dc", 101, [31, 60]), ("max_npts_kk", 151, [41, 80]), ("max_interp_error", 0.001, [0.01, 1e-4]), ("check_error", False, []),
        ("verbose", True, [False]), ("v_smear", None, [0.03]), ("kk_n", 50, [3, 11]), ("spline_order", 3, [1, 2])]


def resp_table(**new):
    return [(n, new.get(n, d), o) for n, d, o in RESP]


IVOPT = [("v_fmt", "mV", ["uV", "V"]), ("i_fmt", "mA", ["uA", "A"]), ("vmax", 6e-3, [5e-3]), ("npts", 6001, [3001]), ("debug", False, []),
         ("ioffset", None, [2e-6]), ("voffset", None, [5e-5]), ("voffset_range", (-1e-3, 1e-3), [(-6e-4, 4e-4), 3e-4]),
         ("rseries", None, [0.1]), ("i_multiplier", 1.0, [0.9]), ("v_multiplier", 1.0, [1.02]), ("filter_data", True, [False]),
         ("filter_theta", 0.785, [0.7]), ("filter_nwind", 21, [31]), ("filter_npoly", 3, [2]), ("vrn", (3.5e-3, 5e3), [(4e-3, 5e-3)]),
         ("vrsg", 2e-3, [1.7e-3])]
DCOPT = IVOPT + [("vleak", 2e-3, [1.5e-3]), ("v_smear", 0.020, [0.04]), ("area", 1.5, [2.0]), ("comment", "", ["night run"]), ("verbose", True, [False]),
                 ("vmax_plot", 4.0, [5.0])]
IFOPT = [("ifdata_npts", 3000, [900]), ("ifdata_sigma", 1e-5, [5e-5, 3, None]), ("vshot", None, [(4.6e-3, 5.5e-3), ((4.2e-3, 4.8e-3), (5.2e-3, 5.8e-3))])]
HCOPT = [("t_cold", 78.0, [4.2]), ("t_hot", 293.0, [350.0]), ("vbest", None, [1.9e-3]), ("best_pt", "Max Gain", ["Min Tn"])]
EMB = [("fit_range", (0.25, 0.8), [(0.3, 0.7)]), ("remb_range", (0, 1), [(0.1, 0.8)]), ("xemb_range", (-1, 1), [(-0.5, 0.7)]),
       ("zemb", None, [0.4 - 0.2j]), ("alpha_max", 1.5, [1.0]), ("num_b", 20, [9])]
PUMP = [(n, d, o) for n, d, o in IVOPT if n not in ("vrn", "vrsg", "voffset_range", "filter_theta")] + EMB + [
    ("analyze_iv", True, [False]), ("comment", "", ["run 7"]), ("verbose", True, [False]), ("vmax_plot", 4.0, [5.0])]

RESPS = [{"g": 0.5, "dc": [[0.4, 1.5, 0.0, 0.0]], "kk": [[0.4, 1.0]], "k0": 0.0}, {"g": 1.0, "dc": [[0.2, 2.5, 0.3, 0.1]], "kk": [[-0.3, 1.4]], "k0": 0.1}]


def simulation(c, level):
    """A driven circuit and junction voltages of the given strength."""
    rng = np.random.default_rng(c["seed"])
    nf, np_ = (1, 1 + c["seed"] % 2) if c["seed"] % 3 else (2, 1)
    k = EmbeddingCircuit(nf, np_, vb_npts=3)
    k.freq[1:] = [0.3, 0.34][:nf]
    k.zt[1:, 1:] = rng.uniform(0.2, 1, (nf, np_)) + 1j * rng.uniform(-.5, .5, (nf, np_))
    k.vt[1:, 1:] = level * k.freq[1:, None] * rng.uniform(0.5, 1, (nf, np_)) / (1 + 3 * np.arange(np_))
    vj = k.initialize_vj()
    vj[1:, 1:] = (level * k.freq[1:, None] / (1 + np.arange(np_)) ** 2)[:, :, None] * np.exp(1j * rng.uniform(0, 6, (nf, np_, 1)))
    return k, AnalyticResp(**RESPS[c["seed"] % 2]), vj


@functools.lru_cache(maxsize=2)
def solved(seed):
    k, r, _ = simulation({"seed": seed}, 0.8)
    return quiet(harmonic_balance, k, r, num_b=15, max_it=20, stop_rerror=1e-9)


JUN = [dict(vgap=2.7e-3, rn=14.0, leak=20.0, agap=3e4, ileak=.04, w=5e-5), dict(vgap=2.8e-3, rn=7.0, leak=10.0, agap=4e4, ileak=.05, w=4e-5)]


@functools.lru_cache(maxsize=16)
def lab(seed):
    """Raw measurements in V, A and arbitrary power: unpumped and pumped curves, IF power without, and with hot and cold loads."""
    j = JUN[seed % 2]
    rng = np.random.default_rng(seed)
    v = sweep(6.3e-3, 6e-6)
    w = np.arange(0, 6.3e-3, 7e-6)
    x = w / j["vgap"]
    gain = (0.02 + 0.4 * np.exp(-0.5 * ((x - 0.8) / 0.1) ** 2)) * np.clip(1 + .02 * rng.standard_normal(len(w)), .9, 1.1)
    cold = gain * 120 + 5
    hot = gain * 340 + 5
    return {"v": v + 4e-5, "dc": current(j, v) + 1e-6, "iv": pumped(j, v, 330e9, 0.9) + 1e-6, "w": w + 4e-5, "dcif": 3 + 5.8e3 * w + .3 * rng.random(len(w)),
            "hot": hot, "cold": cold}


def raw(seed, name, kw):
    d = lab(seed)
    v = {"uV": 1e-6, "mV": 1e-3, "V": 1.0}[kw.get("v_fmt", "mV")]
    if name in ("dc", "iv"):
        return np.c_[d["v"] / v, d[name] / {"uA": 1e-6, "mA": 1e-3, "A": 1.0}[kw.get("i_fmt", "mA")]]
    return np.c_[d["w"] / v, d[name]]


META = ["vraw", "iraw", "vnorm", "inorm", "vgap", "igap", "fgap", "rn", "rsg", "offset", "vint", "rseries"]


def meta(m):
    return [getattr(m, a) for a in META]


@functools.lru_cache(maxsize=8)
def dc_of(seed):
    return quiet(DCData, raw(seed, "dc", {}), raw(seed, "dcif", {}), verbose=False)


def dc_numbers(d):
    x = np.linspace(-2, 2, 41)
    return numbers([d.voltage, d.current, d.vgap, d.igap, d.fgap, d.rn, d.rsg, d.vint, list(d.offset), d.q, d.rna, d.jc, d.ileak, d.comment, d.if_data,
                    d.if_noise, d.corr, d.resp.resp(x), d.resp_smear.resp(x)])


def resp_numbers(r):
    x = np.linspace(-2.2, 2.2, 89)
    return numbers([r.voltage, r.current, r.voltage_kk, r.current_kk, r.idc(x), r.ikk(x), r.didc(x), r.dikk(x)])


def on_junction(seed):
    v = np.linspace(0, 35, 7001)
    return v, logistic(60 * (v - 1)) * v + 0.02 * v * logistic(-60 * (v - 1)) + .03 * np.tanh(v / .3) * logistic(-60 * (v - 1))


def setting(c, method, *args):
    """Effect of one circuit method on a circuit with three tones and three harmonics, and what it returns."""
    def call(*pos, **kw):
        k = EmbeddingCircuit(3, 3, vgap=2.8e-3, rn=14.0, vb_npts=3)
        k.freq[1:] = [0.3, 0.4, 0.55]
        k.zt[1:, 1:] = 0.3 - 0.1j + 0.01 * np.arange(9).reshape(3, 3)
        k.vt[1:, 1:] = 0.2 + 0.01 * np.arange(9).reshape(3, 3)
        out = getattr(k, method)(*args, *pos, **kw)
        return numbers([out, k.freq, k.zt, k.vt, k.vb, [str(n) for n in np.ravel(np.array(k.comment, dtype=object))]])
    return call


def figure(draw):
    """Limits and lines of a figure."""
    def call(*pos, **kw):
        fig, ax = plt.subplots()
        try:
            draw(ax)(*pos, **kw)
            return numbers([list(a.get_xlim()) for a in fig.axes] + [list(a.get_ylim()) for a in fig.axes]
                           + [[np.array(li.get_xdata(), dtype=float), np.array(li.get_ydata(), dtype=float)] for a in fig.axes for li in a.lines])
        finally:
            plt.close("all")
    return call


def shown(fn):
    """What a function prints."""
    def call(*pos, **kw):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            fn(*pos, **kw)
        return out.getvalue()
    return call


UNITS = {"W": ["dBm", "mW", "fW"]}
FP = [("f", 1, [2, 3]), ("p", 1, [2, 3])]


def entry(name, c):
    """(options in documented order, whether they may be given in that order, function of the options)."""
    s = c["seed"]
    rng = np.random.default_rng(s)
    if name == "harmonic_balance":
        k, r, vj = simulation(c, [0.8, 1.5, 4.0][s % 3])
        return HB, True, lambda *a, **kw: numbers(quiet(harmonic_balance, k, r, *a, **kw))
    if name == "qtcurrent":
        k, r, vj = simulation(c, [3.0, 6.0, 9.0][s % 3])
        outs = [0.0, 0.3, 0.6]
        return QT, True, lambda *a, **kw: numbers(quiet(qtcurrent, vj, k, r, outs, *a, **kw))
    if name == "check_hb_error":
        k, r, _ = simulation({"seed": s % 30}, 0.8)
        vj = solved(s % 30) * (1 + 10 ** rng.uniform(-4.5, -1.5))

        def verdict(*a, **kw):
            try:
                quiet(check_hb_error, vj, k, r, *a, **kw)
                return "good"
            except AssertionError:
                return "bad"
        return ERR, True, verdict
    if name == "EmbeddingCircuit":
        def circuit(*a, **kw):
            kw = dict(kw)
            k = EmbeddingCircuit(*a, **kw)
            return numbers([k.num_f, k.num_p, k.vb, k.vb_npts, k.fgap, k.vgap, k.rn, k.igap, k.name, k.freq, k.zt, k.vt, k.num_n if hasattr(k, "num_n") else 0])
        return CCT, True, circuit
    if name == "available_power":
        return FP + [("units", "W", UNITS["W"])], True, setting(c, name)
    if name == "set_available_power":
        return FP + [("units", "W", UNITS["W"])], True, setting(c, name, 10.0 ** rng.integers(-12, -5))
    if name == "set_alpha":
        return FP + [("zj", 0.66, [0.3, 1.2 - .3j])], True, setting(c, name, float(rng.uniform(.2, 2)))
    if name == "set_freq":
        value, unit = [(3e11, "Hz"), (300.0, "GHz"), (0.4, "norm"), (1.1, "mV")][s % 4]
        return [FP[0], ("units", "Hz", [])] if unit == "Hz" else [FP[0]], True, (
            setting(c, name, value) if unit == "Hz" else lambda *a, **kw: setting(c, name, value)(*a, **dict(kw, units=unit)))
    if name == "set_name":
        return FP, True, setting(c, name, "LO")
    if name == "save_info":
        def saved(*a, **kw):
            k = EmbeddingCircuit(2, 1, vb_npts=5, vgap=2.8e-3, rn=10.0)
            k.freq[1:], k.zt[1:, 1:], k.vt[1:, 1:] = [.3, .4], .3, .2
            old = os.getcwd()
            with tempfile.TemporaryDirectory() as d:
                try:
                    os.chdir(d)
                    quiet(k.save_info, *a, **kw)
                    name = os.listdir(d)
                    with open(name[0]) as f:
                        return [name, f.read()]
                finally:
                    os.chdir(old)
        return [("filename", "embedding-circuit.txt", ["x.txt"])], True, saved
    if name in ("RespFn", "RespFnFromIVData"):
        v, i = on_junction(s)
        if name == "RespFnFromIVData":
            v, i = v[:c["cut"]], i[:c["cut"]]
            return resp_table(max_npts_dc=81, max_npts_kk=101) + [("vlimit", 1.8, [1.5])], False, lambda **kw: resp_numbers(quiet(RespFnFromIVData, v, i, **kw))
        return RESP, False, lambda **kw: resp_numbers(quiet(RespFn, v, i, **kw))
    if name == "RespFnPolynomial":
        return [("p_order", 50, [20])] + RESP, 1, lambda *a, **kw: resp_numbers(quiet(RespFnPolynomial, *a, **kw))
    if name == "RespFnExponential":
        return [("vgap", 2.8e-3, [2.5e-3]), ("rn", 14, [10.0]), ("rsg", 1000, [300.0]), ("agap", 4e4, [2e4])] + resp_table(max_npts_kk=251), 4, \
            lambda *a, **kw: resp_numbers(quiet(RespFnExponential, *a, **kw))
    if name == "RespFnPerfect":
        opts = [o for o in RESP if o[0] not in ("kk_n", "v_smear")]
        return opts, False, lambda **kw: resp_numbers(quiet(RespFnPerfect, **kw))
    x = np.linspace(-2, 2, 401) + .001 * c["seed"] % 1
    y = np.tanh(4 * x) + .01 * rng.standard_normal(len(x))
    if name == "kk_trans":
        return [("n", 50, [2, 10])], True, lambda *a, **kw: kk_trans(x, y - .3 * x, *a, **kw)
    if name == "slope_span_n":
        z = np.where(np.abs(x) < 1, 0.0, y) if s % 2 else y
        return [("n", 11, [3, 21]), ("nozeros", True, [False])], True, lambda *a, **kw: slope_span_n(x, z, *a, **kw)
    if name == "gauss_conv":
        return [("sigma", 10, [4, 2.5]), ("ext_x", 3, [2, 5])], True, lambda *a, **kw: gauss_conv(y, *a, **kw)
    if name == "perfect_kk":
        z = np.r_[x, 1, -1, 1 + 1e-12]
        return [("max_kk", 100.0, [5.0])], True, lambda *a, **kw: ivm.perfect_kk(z, *a, **kw)
    if name == "polynomial":
        return [("order", 50, [7, 30])], True, lambda *a, **kw: ivm.polynomial(x, *a, **kw)
    if name == "exponential":
        return [("vgap", 2.8e-3, [2.5e-3]), ("rn", 14.0, [9.0]), ("rsg", 300.0, [1000.0]), ("agap", 4e4, [2e4]), ("model", "fixed", ["original"])], True, \
            lambda *a, **kw: ivm.exponential(x, *a, **kw)
    if name == "expanded":
        return [("vgap", 2.8e-3, [2.5e-3]), ("rn", 14.0, [9.0]), ("rsg", 500.0, [1000.0]), ("agap", 4e4, [2e4]), ("a0", 1e4, [2e4]), ("ileak", 5e-6, [2e-6]),
                ("vnot", 2.85e-3, [2.6e-3]), ("inot", 1e-5, [3e-5]), ("anot", 2e4, [4e4]), ("ioff", 1e-5, [1.6e-5])], True, \
            lambda *a, **kw: ivm.expanded(x, *a, **kw)
    m = rng.integers(0, 9, (30, 2)).astype(float)
    if name == "sort_matrix":
        m = rng.permutation(60).reshape(30, 2).astype(float)
        return [("col", 0, [1])], True, lambda *a, **kw: cd.sort_matrix(m.copy(), *a, **kw)
    if name == "remove_doubles_matrix":
        q = np.c_[np.sort(m[:, 0]), np.sort(m[:, 1])]
        return [("col", 0, [1])], True, lambda *a, **kw: cd.remove_doubles_matrix(q.copy(), *a, **kw)
    if name == "progress_bar":
        return [("prefix", "Progress:", ["At"]), ("suffix", "Complete", ["done"]), ("decimals", 2, [0]), ("bar_length", 20, [33])], True, \
            lambda *a, **kw: shown(progress_bar)(c["cut"] % 90, 90, *a, **kw)
    if name in ("pvalf", "pvale"):
        return [("units", "", ["GHz"]), ("comment", "", ["measured"]), ("color", None, ["GREEN"])], True, \
            lambda *a, **kw: shown(getattr(terminal, name))("LO", float(x[0] * 1e3), *a, **kw)
    if name == "title":
        return [("color", None, ["BLUE"]), ("total_len", 60, [40])], True, lambda *a, **kw: shown(terminal.title)("results", *a, **kw)
    if name == "cprint":
        return [("color", "HEADER", ["GREEN"])], True, lambda *a, **kw: shown(terminal.cprint)("results", *a, **kw)
    if name == "dciv_curve":
        def fn(**kw):
            v, i, m = quiet(dciv_curve, raw(s % 4, "dc", kw), **kw)
            return numbers([v, i, meta(m)])
        return IVOPT, False, fn
    d = dc_of(s % 4) if name in ("iv_curve", "dcif_data", "if_data", "PumpedData", "figures") else None
    if name == "iv_curve":
        return [o for o in IVOPT if o[0] not in ("vrn", "vrsg", "voffset_range")], False, \
            lambda **kw: numbers(quiet(iv_curve, raw(s % 4, "iv", kw), d.dc, **kw))
    ifc = [o for o in IVOPT if o[0] in ("v_fmt", "vmax", "v_multiplier", "rseries")] + IFOPT
    if name == "dcif_data":
        def fn(**kw):
            f, m = quiet(dcif_data, raw(s % 4, "dcif", kw), d.dc, **kw)
            return numbers([f, m.if_noise, m.corr, m.shot_slope, bool(m.if_fit)])
        return ifc, False, fn
    if name == "if_data":
        own = s % 2             # (calibrated with its own data: they have to show shot noise)
        def fn(**kw):
            o = quiet(if_data, raw(s % 4, "hot", kw), raw(s % 4, "cold", kw), d.dc, freq=330.0, **(kw if own else dict(kw, dcif=d.dcif)))
            return numbers([o[0], o[1], o[2].if_noise, o[2].corr])
        return [o for o in ifc if not (own and o[0] == "vmax")] + HCOPT + [("verbose", True, [False])], False, fn
    if name == "if_response":
        spec = np.c_[np.arange(4, 24), rng.uniform(-45, -30, 20), rng.uniform(-45, -38, 20)]
        return [("t_hot", 293.0, [350.0]), ("t_cold", 78.0, [4.2]), ("ifresp_maxtn", 1e6, [500.0])], False, lambda **kw: if_response(spec.copy(), **kw)
    if name == "DCData":
        return DCOPT + IFOPT, False, lambda **kw: dc_numbers(quiet(DCData, raw(s % 4, "dc", kw), raw(s % 4, "dcif", kw), **kw))
    if name == "PumpedData":
        opts = PUMP + [("analyze_if", True, [False])] + [o for o in ifc if o[0] not in [p[0] for p in PUMP]] + HCOPT
        if s % 3:               # (impedance recovery takes a second)
            opts = [("analyze_iv", True, ["always False"])] + [o for o in opts if o[0] not in ("analyze_iv",) + tuple(e[0] for e in EMB)]

        def fn(**kw):
            if kw.get("analyze_iv") == "always False":
                kw = dict(kw, analyze_iv=False)
            args = [raw(s % 4, n, kw) for n in ("hot", "cold")]
            p = quiet(PumpedData, raw(s % 4, "iv", kw), d, *args, freq=330.0, **kw)
            names = ["voltage", "current", "rdyn", "comment"] + (["zt", "vt", "alpha", "zw", "fit_good"] if kw.get("analyze_iv", True) else []) + (
                ["tn", "gain", "idx_best", "tn_best", "if_noise"] if kw.get("analyze_if", True) else [])
            return numbers([getattr(p, n, None) for n in names])
        return opts, False, fn
    if name == "figures":
        p = quiet(PumpedData, raw(s % 4, "iv", {}), d, raw(s % 4, "hot", {}), raw(s % 4, "cold", {}), freq=330.0, verbose=False, analyze_iv=False)
        which = ["plot_dciv", "plot_iv", "plot_if", "plot_ivif", "plot_noise_temp", "plot_yfac_noise_temp", "plot_gain_noise_temp", "plot_gain"][s % 8]
        o = d if which == "plot_dciv" else p
        two = which in ("plot_ivif", "plot_noise_temp", "plot_yfac_noise_temp", "plot_gain_noise_temp")
        return [("vmax_plot", 4.0, [3.0, 5.5])], False, figure(lambda ax: functools.partial(getattr(o, which), ax=(ax, ax.twinx()) if two else ax))
    raise KeyError(name)


NAMES = ["harmonic_balance"] * 6 + ["qtcurrent"] * 3 + ["check_hb_error"] * 4 + ["EmbeddingCircuit"] * 4 + [
    "available_power", "set_available_power", "set_alpha", "set_freq"] * 2 + [
    "available_power", "set_available_power", "set_alpha", "set_freq", "set_name", "save_info", "kk_trans", "slope_span_n", "gauss_conv", "perfect_kk",
    "polynomial", "exponential", "expanded", "sort_matrix", "remove_doubles_matrix", "progress_bar", "pvalf", "pvale", "title", "cprint", "if_response"] + [
    "dciv_curve", "dciv_curve", "iv_curve", "dcif_data", "if_data", "if_data"]
SLOW = ["RespFn", "RespFnFromIVData", "RespFnFromIVData", "RespFnPolynomial", "RespFnExponential", "RespFnExponential", "RespFnPerfect", "DCData", "DCData",
        "PumpedData", "PumpedData", "figures"]


def case(names):
    @st.composite
    def make(draw):
        return {"fn": draw(st.sampled_from(names)), "seed": draw(st.integers(0, 9999)), "cut": draw(st.sampled_from([380, 420, 460, 500])),
                # what happens to each option: left out, or set to another value
                "other": draw(st.lists(st.integers(0, 9), min_size=40, max_size=40)), "rate": draw(st.sampled_from([0, 1, 3, 6])),
                "order": draw(st.booleans()), "all": draw(st.booleans())}
    return make()


def left_out(c, t):
    opts, order, fn = entry(c["fn"], c)
    set_, rest = {}, {}
    for (name, default, others), k in zip(opts, c["other"]):
        if others and (k < c["rate"] or others == ["always False"]):
            set_[name] = others[k % len(others)]
        else:
            rest[name] = default
    if c["fn"] == "EmbeddingCircuit" and "fgap" in set_ and "vgap" in set_:
        set_.pop("fgap")
        rest["fgap"] = None
    if c["fn"] == "harmonic_balance" and "max_it" in rest and c["seed"] % 2:
        # not converged when the iterations run out
        set_.update(stop_rerror=1e-14, damp_coeff=0.3)
        rest.pop("stop_rerror", 0), rest.pop("damp_coeff", 0)
    if not rest:
        t.skip("every option is given")
    want = fn(**set_)
    # written out, all of them or one at a time
    names = list(rest)
    for name in [None] if c["all"] else [names[c["seed"] % len(names)], names[(c["seed"] // 7) % len(names)]]:
        some = dict(rest) if name is None else {name: rest[name]}
        if "resp_matrix" in some or "vj_initial" in some:
            pass
        got = fn(**set_, **some)
        d = differ(numbers(got), numbers(want))
        t.check(d is None, "%s: {} when the documented default%s written out" % (c["fn"], "s are" if name is None else " of %s is" % name), d)
    if order:
        n = len(opts) if order is True else order
        full = dict(rest, **set_)
        k = 1 + c["seed"] % n
        pos = [full[o[0]] for o in opts[:k]]
        got = fn(*pos, **{o[0]: full[o[0]] for o in opts[k:] if o[0] in set_})
        d = differ(numbers(got), numbers(want))
        t.check(d is None, "%s: {} when options are given in the documented order" % c["fn"], d)
    t.label(c["fn"])
    t.nontrivial()


# -- older spellings --------------------------------------------------------

@st.composite
def old_case(draw):
    return {"op": draw(st.sampled_from(["vrn", "vrn", "range", "vshot", "sigma", "sigma", "cut", "vph", "object", "figure"])), "seed": draw(st.integers(0, 9999)),
            "lo": draw(grid(3.4e-3, 4.4e-3, 20)), "hi": draw(grid(4.7e-3, 5.9e-3, 24)), "x": draw(grid(1e-4, 9e-4, 32)), "n": draw(st.integers(1, 12)),
            "half": draw(st.sampled_from([0.0, 0.0, 0.5])), "cut": [draw(grid(0.05, 0.45, 20)), draw(grid(0.05, 0.45, 20))],
            "form": draw(st.sampled_from(["tuple", "list"])), "both": draw(st.sampled_from([None, None, "none", "default"]))}


def older(c, t):
    s = c["seed"] % 4
    form = {"tuple": tuple, "list": list}[c["form"]]

    def same(a, b, what):
        d = differ(numbers(a), numbers(b))
        t.check(d is None, what + ": {}", d)
    dc, iv = raw(s, "dc", {}), raw(s, "iv", {})

    def curve(**kw):
        v, i, m = quiet(dciv_curve, dc, **kw)
        return [v, i] + meta(m)
    if c["op"] in ("vrn", "object"):
        run = curve if c["op"] == "vrn" else lambda **kw: dc_numbers(quiet(DCData, dc, raw(s, "dcif", {}), verbose=False, **kw))
        want = run(vrn=form([c["lo"], c["hi"]]))
        same(run(rn_vmin=c["lo"], rn_vmax=c["hi"]), want, "range of the normal resistance given by its two ends")
        if c["op"] == "vrn":
            same(run(rn_vmin=c["lo"]), run(vrn=(c["lo"], 5e3)), "range of the normal resistance given by its lower end")
            same(run(rn_vmax=c["hi"]), run(vrn=(3.5e-3, c["hi"])), "range of the normal resistance given by its upper end")
    elif c["op"] == "range":
        x = c["x"]
        a, b = curve(voffset_range=x), curve(voffset_range=form([-x, x]))
        same(a, b, "single number as the range of offsets")
        same(curve(voffset_range=np.float64(x)), b, "single number as the range of offsets")
    elif c["op"] == "vshot":
        d = dc_of(s)
        r = form([c["lo"], c["hi"]])

        def noise(vshot):
            f, m = quiet(dcif_data, raw(s, "dcif", {}), d.dc, vshot=vshot)
            o = quiet(if_data, raw(s, "hot", {}), raw(s, "cold", {}), d.dc, vshot=vshot, freq=330.0, verbose=False)
            return [f, m.if_noise, m.corr, m.shot_slope, bool(m.if_fit), o[0], o[1], o[2].corr]
        for many in ((tuple(r),), [list(r)], (list(r),), [tuple(r)]):
            same(noise(r), noise(many), "single range of voltages for the shot noise")
        mid = (c["lo"] + c["hi"]) / 2
        two = [[c["lo"], mid - 2e-4], [mid + 2e-4, c["hi"]]]
        same(noise(two), noise(tuple(map(tuple, two))), "two ranges of voltages as lists")
        same(noise([tuple(x) for x in two]), noise(tuple(map(list, two))), "two ranges of voltages as lists")
    elif c["op"] == "sigma":
        # above a half, the width of the filter is counted in steps of the data
        d = dc_of(s)
        n, npts, top = c["n"] + c["half"], [3000, 1500][c["seed"] % 2], [6e-3, 5e-3][c["seed"] // 2 % 2]
        kw = dict(ifdata_npts=npts, vmax=top, freq=330.0, verbose=False)
        volts = n * top / (npts - 1)
        for a in (n, np.float64(n)):
            x = quiet(dcif_data, raw(s, "dcif", {}), d.dc, ifdata_sigma=a, **kw)
            y = quiet(dcif_data, raw(s, "dcif", {}), d.dc, ifdata_sigma=volts, **kw)
            same([x[0], x[1].if_noise, x[1].corr], [y[0], y[1].if_noise, y[1].corr], "filter width in steps")
        same([quiet(if_data, raw(s, "hot", {}), raw(s, "cold", {}), d.dc, dcif=d.dcif, ifdata_sigma=a, **kw)[0] for a in [n]],
             [quiet(if_data, raw(s, "hot", {}), raw(s, "cold", {}), d.dc, dcif=d.dcif, ifdata_sigma=a, **kw)[0] for a in [volts]], "filter width in steps")
    elif c["op"] == "cut":
        d = dc_of(s)
        lo, hi = c["cut"]

        def zt(**kw):
            p = quiet(PumpedData, iv, d, freq=330.0, verbose=False, **kw)
            return [p.zt, p.vt, p.alpha, p.zw, bool(p.fit_good)], p
        more = {None: {}, "none": {"fit_range": None}, "default": {"fit_range": (0.25, 0.8)}}[c["both"]]
        if more.get("fit_range"):
            more = {}
        a, p = zt(cut_low=lo, cut_high=hi, **more)
        b, q = zt(fit_range=form([lo, 1 - hi]))
        same(a, b, "part of the photon step given by what is cut off")
        lines = figure(lambda ax: functools.partial(p.plot_simulated, ax=ax))(), figure(lambda ax: functools.partial(q.plot_simulated, ax=ax))()
        same(lines[0], lines[1], "figure of a recovery with what is cut off")
    elif c["op"] == "vph":
        k, r, vj = simulation(c, 1.0)
        f = np.round(np.linspace(0.2, 0.5, k.num_f) + c["x"], 4)
        k.freq[1:] = f
        same(np.asarray(k.vph)[1:], f, "photon voltage of a circuit whose frequency is set")
        a = quiet(qtcurrent, vj, k, r, [0.0] + list(f))
        k2 = simulation(c, 1.0)[0]
        k2.vph[1:] = f
        same(np.asarray(k2.freq)[1:], f, "frequency of a circuit whose photon voltage is set")
        same(quiet(qtcurrent, vj, k2, r, [0.0] + list(f)), a, "current of a circuit whose photon voltage is set")
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "c.txt")
            quiet(k2.save_info, path)
            back = read_circuit(path)
            t.close(np.asarray(back.freq)[1:], f, 1e-6, "frequency saved and read")
    else:
        r = RespFnPolynomial(20, verbose=False)

        def lines(fn):
            try:
                ax = fn()
                return [[np.array(li.get_xdata(), float), np.array(li.get_ydata(), float)] for li in plt.gcf().axes[0].lines] if ax is None else [
                    [np.array(li.get_xdata(), float), np.array(li.get_ydata(), float)] for li in ax.lines]
            finally:
                plt.close("all")
        fig, ax = plt.subplots()
        a = lines(lambda: r.show_current(ax=ax))
        fig, ax = plt.subplots()
        b = lines(lambda: r.plot_interpolation(ax=ax))
        same(a, b, "figure of the interpolated current")
    t.label(c["op"])
    t.nontrivial()


assert table
CHECKS = [
    Check("functions", case(NAMES), left_out, quick=1600, thorough=20000),
    Check("objects", case(SLOW), left_out, quick=90, thorough=2500),
    Check("older", old_case(), older, quick=110, thorough=3000),
]
