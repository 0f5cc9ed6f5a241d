"""C25: results depend on the numbers handed in, not on how they are stored."""

import numpy as np
from hypothesis import strategies as st

from qmix.circuit import EmbeddingCircuit
from qmix.exp import clean_data as cd
from qmix.exp.exp_data import DCData, PumpedData
from qmix.exp.if_data import dcif_data, if_data
from qmix.exp.if_response import if_response
from qmix.exp.iv_data import dciv_curve, iv_curve
from qmix.harmonic_balance import check_hb_error, harmonic_balance
from qmix.mathfn.filters import gauss_conv
from qmix.mathfn.ivcurve_models import expanded, exponential, perfect, perfect_kk, polynomial
from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz
from qmix.mathfn.misc import slope, slope_span_n
from qmix.qtcurrent import interpolate_respfn, qtcurrent
from qmix.respfn import RespFn, RespFnFromIVData
from pbt.core import Check, grid
from pbt.curves import curve, curve_fn
from pbt.hb import hb_case, hb_circuit, num_b_of
from pbt.lab import current, junction, pumped, quiet, sweep, table
from pbt.sim import build_vj, make_resp, pool_resp

PROPERTY = "C25"
RULE = ("cases: a public function, generated numbers, and for each array, range and scalar a way of storing the same numbers (number "
        "type including unsigned, single precision and foreign byte order, stride, memory order, direction, subclass, write protection; "
        "tuple, list or array; built-in or numpy scalar); compared with the same call on plain double-precision arrays; "
        "non-trivial: at least one argument is stored in another way")
ASSUMPTIONS = ["arrays where arrays are documented (no lists of numbers), numbers exactly representable in the type they are stored in",
               "results on single-precision numbers may be single-precision"]


class Sub(np.ndarray):
    """An array by another name."""


LAYOUT = ["strided", "fortran", "readonly", "reversed", "subclass", "bigendian", "memmap-like"]
TYPES = ["int64", "int32", "int16", "uint16", "uint8", "float32"]


def store(a, kind):
    """The same numbers stored in another way."""
    a = np.asarray(a)
    if kind == "plain":
        return a.copy()
    if kind == "strided":
        big = np.full(tuple(2 * s + 1 for s in a.shape), 77, a.dtype)
        at = tuple(slice(1, None, 2) for _ in a.shape)
        big[at] = a
        return big[at]
    if kind == "fortran":
        return np.asfortranarray(a.copy())
    if kind == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    if kind == "reversed":
        at = tuple(slice(None, None, -1) for _ in a.shape)
        return a[at].copy()[at]
    if kind == "subclass":
        return a.copy().view(Sub)
    if kind == "bigendian":
        return a.astype(a.dtype.newbyteorder(">"))
    if kind == "memmap-like":           # a window onto a buffer somebody else owns
        return np.frombuffer(a.tobytes(), dtype=a.dtype).reshape(a.shape)
    t = np.dtype(kind)
    b = a.astype(t)
    return b if np.array_equal(b.astype(a.dtype), a, equal_nan=True) else a.copy()      # (only if the numbers fit)


how_int = st.sampled_from(LAYOUT + TYPES + TYPES)
how = st.sampled_from(LAYOUT + ["float32"])


def parts(o):
    """Numbers in a result, in order."""
    if o is None:
        return np.zeros(0)
    if isinstance(o, (tuple, list)):
        return np.concatenate([parts(x) for x in o]) if len(o) else np.zeros(0)
    if isinstance(o, str):
        return np.array([float(sum(map(ord, o)))])
    if hasattr(o, "__dict__") and not isinstance(o, np.ndarray):
        return parts([v for k, v in sorted(vars(o).items()) if isinstance(v, (int, float, np.ndarray, np.generic, tuple))])
    return np.ravel(np.asarray(o)).astype(complex)


def agree(t, got, want, what, single=False):
    """Same numbers, each part on its own scale."""
    if isinstance(want, (tuple, list)):
        t.check(isinstance(got, (tuple, list)) and len(got) == len(want), "{}: another kind of result", what)
        for a, b in zip(got, want):
            agree(t, a, b, what, single)
        return
    if want is None:
        t.check(got is None, "{}: result where there was none", what)
        return
    t.check(got is not None, "{}: no result", what)
    t.check(np.shape(got) == np.shape(want), "{}: another shape, {} instead of {}", what, np.shape(got), np.shape(want))
    a, b = parts(got), parts(want)
    ok = np.isfinite(b)
    t.check(np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(a[~ok & ~np.isnan(b)], b[~ok & ~np.isnan(b)]), "{}: other special values", what)
    if ok.any():
        t.close(a[ok], b[ok], (3e-5 if single else 1e-9), "%s: another result" % what, scale=1e-300 + np.max(np.abs(b[ok])))


# -- numerical helpers and models -------------------------------------------

@st.composite
def math_case(draw):
    n = draw(st.integers(24, 90))
    top = draw(st.sampled_from([4, 60, 250, 30000]))
    return {"fn": draw(st.sampled_from(["gauss", "slope", "span", "kk", "trapz", "perfect", "perfect_kk", "polynomial", "exponential",
                                        "expanded", "clean", "cleanm", "sort", "doubles", "idc", "ikk", "resp", "conj", "swap", "didc", "dikk"])),
            "n": n, "top": top, "neg": draw(st.booleans()), "seed": draw(st.integers(0, 9999)), "hx": draw(how_int), "hy": draw(how_int),
            "step": draw(st.integers(1, 3)), "resp": draw(st.one_of(pool_resp, st.just("perfect"))),
            "p": draw(st.sampled_from([1, 2, 5, 20])), "span": draw(st.sampled_from([3, 5, 11]))}


def math(c, t):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    y = rng.integers(-c["top"] if c["neg"] else 0, c["top"] + 1, n).astype(float)
    x = np.arange(n) * float(c["step"])
    if c["neg"]:
        x = x - n // 2
    small = np.arange(n) % 7 - (3.0 if c["neg"] else 0.0)           # voltages for the models
    r = make_resp(c["resp"])
    fns = {"gauss": lambda a, b: gauss_conv(b, min(c["p"], n / 12)), "slope": slope, "span": lambda a, b: slope_span_n(a, b, c["span"]),
           "kk": lambda a, b: kk_trans(a, b, 4), "trapz": kk_trans_trapz,
           "clean": lambda a, b: cd.clean_xy(a, b), "sort": lambda a, b: cd.sort_xy(a, b),
           "cleanm": lambda a, b: cd.clean_matrix(np.array([a, b]).T if c["hx"] != "fortran" else np.asfortranarray(np.array([a, b]).T)),
           "doubles": lambda a, b: cd.remove_doubles_xy(a, b)}
    models = {"perfect": perfect, "perfect_kk": perfect_kk, "polynomial": lambda a: polynomial(a, c["p"]), "exponential": exponential,
              "expanded": expanded, "idc": r.idc, "ikk": r.ikk, "resp": r.resp, "conj": r.resp_conj, "swap": r.resp_swap,
              "didc": r.didc, "dikk": r.dikk}
    single = "float32" in (c["hx"], c["hy"])
    if c["fn"] in models:
        a = small.reshape(-1, 2) if n % 2 == 0 else small
        agree(t, models[c["fn"]](store(a, c["hx"])), models[c["fn"]](a), "%s of %s voltages" % (c["fn"], c["hx"]), single)
        # and of a single voltage
        v = float(small[c["seed"] % n])
        want = np.ravel(models[c["fn"]](np.array([v])))[0]
        for s in (v, int(v), np.float64(v), np.int64(v), np.int16(v), np.float32(v), np.array(v)):
            got = models[c["fn"]](s)
            t.check(got is not None, "%s of a %s: no result" % (c["fn"], type(s).__name__))
            t.check(np.size(got) == 1, "%s of a %s: %d results", c["fn"], type(s).__name__, np.size(got))
            t.close(np.ravel(got)[0], want, 3e-5 if isinstance(s, np.float32) else 1e-9, "%s of a %s" % (c["fn"], type(s).__name__), scale=1 + abs(want))
    else:
        if c["fn"] in ("clean", "cleanm", "sort"):
            x = rng.permutation(x)
        agree(t, fns[c["fn"]](store(x, c["hx"]), store(y, c["hy"])), fns[c["fn"]](x, y), "%s of %s and %s data" % (c["fn"], c["hx"], c["hy"]), single)
    t.label(c["fn"])
    t.nontrivial()


# -- simulations ------------------------------------------------------------

@st.composite
def sim_case(draw):
    c = draw(hb_case(tones=(1, 1, 2, 2, 3)))
    c.update(op=draw(st.sampled_from(["current", "current", "real", "outputs", "matrix", "initial", "initial_real", "error", "circuit", "bias", "limit"])),
             how=draw(how), how2=draw(how), ramp=draw(st.sampled_from([0.0, 0.3])), max_it=draw(st.sampled_from([2, 5])))
    return c


def simulated(c, t):
    cct = hb_circuit(c, t)
    resp = make_resp(c["resp"])
    nb = num_b_of(c)
    vj = build_vj(c, cct)
    outs = [0.0] + [f * (p + 1) for f in c["freq"] for p in range(cct.num_p)]
    single = c["how"] == "float32"
    kind = "complex64" if single else c["how"]
    kw = dict(num_b=nb, verbose=False)
    if c["op"] == "current":
        if single:
            vj = vj.astype(np.complex64).astype(complex)
        agree(t, qtcurrent(store(vj, kind), cct, resp, outs, **kw), qtcurrent(vj, cct, resp, outs, **kw), "current of %s voltages" % kind, single)
    elif c["op"] == "real":
        vj = np.abs(vj).real.astype(np.float32).astype(float)
        agree(t, qtcurrent(store(vj, c["how"]), cct, resp, outs, **kw), qtcurrent(vj.astype(complex), cct, resp, outs, **kw),
              "current of real %s voltages" % c["how"], single)
    elif c["op"] == "outputs":
        want = qtcurrent(vj, cct, resp, outs, **kw)
        for form in (tuple, np.array, lambda o: [np.float64(x) for x in o], lambda o: np.array(o)[::-1][::-1], lambda o: [0] + list(o[1:])):
            agree(t, qtcurrent(vj, cct, resp, form(outs), **kw), want, "current at frequencies in another container")
        for k, f in enumerate(outs):
            for form in (float, np.float64, np.array):
                got = qtcurrent(vj, cct, resp, form(f), **kw)
                agree(t, got, want[k].real if f == 0 else want[k], "current at a single frequency (%s)" % form.__name__)
        agree(t, qtcurrent(vj, cct, resp, 0, **kw), want[0].real, "dc current")
    elif c["op"] == "matrix":
        m = interpolate_respfn(cct, resp, nb)
        if kind not in ("strided", "fortran", "reversed"):          # others are refused with a message
            kind = "plain"
        agree(t, qtcurrent(vj, cct, resp, outs, resp_matrix=store(m, kind), **kw), qtcurrent(vj, cct, resp, outs, **kw), "current with a %s matrix" % kind)
    elif c["op"] in ("initial", "initial_real"):
        if single:
            kind = "plain"
        if c["op"] == "initial_real":
            vj = np.abs(vj).astype(np.float32).astype(float)
            kind = c["how"]
        opt = dict(kw, mode="x", max_it=c["max_it"], stop_rerror=c["stop"])
        agree(t, list(harmonic_balance(cct, resp, vj_initial=store(vj, kind), **opt)),
              list(harmonic_balance(cct, resp, vj_initial=vj.astype(complex), **opt)), "harmonic balance from a %s guess" % kind)
    elif c["op"] == "error":
        if single:
            kind = "plain"
        vj = harmonic_balance(cct, resp, max_it=6, stop_rerror=c["stop"], **kw)

        def verdict(v):
            try:
                quiet(check_hb_error, v, cct, resp, num_b=nb, stop_rerror=c["stop"])
                return 1
            except AssertionError:
                return 0
        t.check(verdict(store(vj, kind)) == verdict(vj), "error check of %s voltages", kind)
    elif c["op"] == "circuit":
        want = harmonic_balance(cct, resp, max_it=c["max_it"], **kw)
        other = hb_circuit(c, t)
        if single:
            kind = "plain"
        k2 = "plain" if c["how2"] == "float32" else c["how2"]
        other.vt, other.zt, other.vb, other.freq = store(cct.vt, kind), store(cct.zt, k2), store(cct.vb, k2), store(cct.freq, kind)
        agree(t, harmonic_balance(other, resp, max_it=c["max_it"], **kw), want, "harmonic balance of a circuit with %s and %s arrays" % (kind, k2))
    elif c["op"] == "bias":
        vb = np.round(cct.vb * 4)
        cct.vb = vb
        want = qtcurrent(vj, cct, resp, outs, **kw)
        for k in TYPES:
            cct.vb = store(vb, k)
            agree(t, qtcurrent(vj, cct, resp, outs, **kw), want, "current at %s bias voltages" % k, k == "float32")
    elif c["op"] == "limit":
        n = nb if isinstance(nb, int) else min(nb)
        want = qtcurrent(vj, cct, resp, outs, num_b=n, verbose=False)
        agree(t, qtcurrent(vj, cct, resp, outs, num_b=(n,) * cct.num_f, verbose=False), want, "current with a summation limit for each tone")
        opt = dict(verbose=False, max_it=c["max_it"])
        agree(t, harmonic_balance(cct, resp, num_b=(n,) * cct.num_f, damp_coeff=1, stop_rerror=np.float64(1e-3), **opt),
              harmonic_balance(cct, resp, num_b=n, damp_coeff=1.0, stop_rerror=1e-3, **opt), "harmonic balance with a summation limit for each tone")
    t.label(c["op"])
    t.nontrivial()


@st.composite
def setter_case(draw):
    return {"fgap": draw(st.booleans()), "gap": draw(st.integers(1, 4)), "rn": draw(st.integers(1, 60)), "f": draw(st.integers(1, 900)),
            "unit": draw(st.sampled_from(["GHz", "THz", "MHz", "Hz", "norm", "mV", "V"])), "p": draw(st.integers(1, 200)), "n": draw(st.integers(1, 3)),
            "zt": [draw(st.integers(1, 9)), draw(st.integers(-9, 9))], "alpha": draw(st.integers(1, 3)), "vmax": draw(st.integers(1, 4)),
            "pu": draw(st.sampled_from(["W", "mW", "uW", "nW", "pW", "fW", "dBm"])), "type": draw(st.sampled_from(["int", "float64", "int64", "float32", "uint16"]))}


def setters(c, t):
    """Circuit settings given as any type of number."""
    form = {"int": int, "float64": np.float64, "int64": np.int64, "float32": np.float32, "uint16": np.uint16, "float": float}

    def build(kind):
        q = form[kind]
        k = EmbeddingCircuit(1, c["n"], vb_min=q(0), vb_max=q(c["vmax"]), vb_npts=5, rn=q(c["rn"]),
                             **({"fgap": q(c["gap"] * 100)} if c["fgap"] else {"vgap": q(c["gap"])}))
        f = c["unit"]
        try:
            k.set_freq(q(c["f"]), 1, f)
        except ValueError:
            k.set_freq(q(c["f"]), 1, "Hz")
        k.zt[1, 1:] = q(c["zt"][0]) + 1j * c["zt"][1]
        out = [k.vb, k.vgap, k.fgap, k.igap, k.rn, k.freq]
        for p in range(1, c["n"] + 1):
            try:
                k.set_available_power(q(c["p"]), 1, p, c["pu"])
            except ValueError:
                k.set_available_power(q(c["p"]), 1, p, "W")
            out += [k.vt.copy(), k.available_power(1, p), k.available_power(1, p, "dBm") + 1e3]
            k.set_alpha(q(c["alpha"]), 1, p, zj=q(1))
            out += [k.vt.copy()]
        return out
    agree(t, build(c["type"]), build("float"), "settings of type " + c["type"], c["type"] == "float32")
    t.label(c["type"])
    t.nontrivial()


# -- response functions from data -------------------------------------------

@st.composite
def resp_case(draw):
    return {"curve": draw(curve), "kind": draw(st.sampled_from(["RespFn", "RespFnFromIVData"])), "hv": draw(how), "hi": draw(how),
            "smear": draw(st.sampled_from([None, 0.03]))}


def from_data(c, t):
    v = np.linspace(0, 35, 7001) if c["kind"] == "RespFn" else np.linspace(-0.01, 3, 901)
    i = curve_fn(c["curve"])(v)
    # RespFn wants even spacing to the last digit of double precision
    hv = "plain" if c["hv"] == "float32" else c["hv"]
    if c["hi"] == "float32":
        i = i.astype(np.float32).astype(float)
    cls = {"RespFn": RespFn, "RespFnFromIVData": RespFnFromIVData}[c["kind"]]
    kw = dict(verbose=False, v_smear=c["smear"])
    x = np.linspace(-2.1, 2, 60)
    r0, r1 = cls(v, i, **kw), cls(store(v, hv), store(i, c["hi"]), **kw)
    for f in ("idc", "ikk", "didc", "dikk", "resp"):
        agree(t, getattr(r1, f)(x), getattr(r0, f)(x), "%s from %s and %s data" % (f, hv, c["hi"]), c["hi"] == "float32" and f[0] != "d")
    t.label(c["kind"])
    t.nontrivial()


# -- measurements -----------------------------------------------------------

@st.composite
def lab_case(draw):
    return {"j": draw(junction), "op": draw(st.sampled_from(["dc", "dc", "iv", "dcif", "dcif", "if", "if", "response", "objects", "objects"])), "h": [draw(how_int.filter(lambda k: k != "float32")) for _ in range(4)],
            "step": draw(st.sampled_from([3e-6, 5e-6])), "off": [draw(st.integers(-200, 200)) * 1e-6, 0.0], "alpha": draw(grid(0.4, 1.3, 18)),
            "opt": draw(st.sampled_from(["tuple", "list", "array"])), "num": draw(st.sampled_from(["float", "int", "float64", "int64", "0-d"])),
            "order": draw(st.sampled_from(["up", "down"])), "nan": draw(st.booleans()), "rs": draw(st.sampled_from([0, 1])), "seed": draw(st.integers(0, 999)),
            "shot": draw(st.sampled_from([[4.6e-3, 5.5e-3], [[4.2e-3, 4.7e-3], [5.3e-3, 5.9e-3]]])), "remb": draw(st.sampled_from([[0, 1], [0.1, 1.4]])),
            "xemb": draw(st.sampled_from([[-1, 1], [-1.6, 0.4]])), "fit": draw(st.sampled_from([[0.3, 0.7], [0.25, 0.8]]))}


def measurement(c, t):
    """Raw data as counted by instruments: whole numbers of microvolts, nanoamperes and detector counts."""
    j = c["j"]
    form = {"float": float, "int": int, "float64": np.float64, "int64": np.int64, "0-d": np.array}
    seq = {"tuple": tuple, "list": list, "array": np.array}[c["opt"]]
    num = form[c["num"]]
    v = sweep(6.3e-3, c["step"], c["order"])
    vm = v + c["off"][0]

    def counts(x, y):
        d = np.round(np.vstack((x, y)).T)
        if c["nan"] and not any(k in TYPES[:-1] for k in c["h"]):
            d = np.insert(d, [5, 9, 9], [[np.nan, 1.0], [2.0, np.nan], [np.nan, np.nan]], axis=0)
        return d
    raw = {n: counts((vm + c["rs"] * i) * 1e6, i * 1e8) for n, i in [("dc", current(j, v)), ("iv", pumped(j, v, 320e9, c["alpha"]))]}
    w = np.arange(0, 6.3e-3, 7e-6)
    x = w / j["vgap"]
    gain = 0.02 + 0.4 * np.exp(-0.5 * ((x - 0.8) / 0.1) ** 2)
    raw["hot"], raw["cold"] = counts(w * 1e6, (gain * 340 + 5) * 90), counts(w * 1e6, (gain * 120 + 5) * 90)
    raw["dcif"] = counts(w * 1e6, (3 + 5.8e3 * w) * 150)

    def nested(r, s):
        s = list if s is np.array else s
        return s([nested(x, s) if isinstance(x, list) else x for x in r])

    def opts(q, s, one):
        return dict(v_fmt="uV", i_fmt="uA", i_multiplier=0.01, verbose=False, voffset=c["off"][0], ioffset=one(0), npts=2001, vrn=s([3.7e-3, 5.6e-3]),
                    voffset_range=s([-5e-4, 5e-4]), rseries=q(c["rs"]), t_hot=q(300), t_cold=q(77), freq=q(320), ifdata_npts=900,
                    vshot=nested(c["shot"], s), fit_range=s(c["fit"]), remb_range=s(c["remb"]), xemb_range=s(c["xemb"]), alpha_max=q(1),
                    area=q(2), v_multiplier=q(1), vmax_plot=q(5))
    kw0, kw1 = opts(float, tuple, float), opts(num, seq, num)
    names = {"dc": ["dc"], "iv": ["dc", "iv"], "dcif": ["dcif"], "if": ["hot", "cold"], "objects": ["dc", "dcif", "iv", "hot"], "response": []}[c["op"]]
    new = {n: store(raw[n], h) for n, h in zip(names, c["h"])}
    keep = {n: np.array(a, copy=True) for n, a in new.items()}
    dc = quiet(dciv_curve, raw["dc"], **kw0)[2]
    what = "%s of %s data" % (c["op"], ", ".join(c["h"][:len(names)]))
    if c["op"] == "dc":
        agree(t, list(quiet(dciv_curve, new["dc"], **kw1)[:2]), list(quiet(dciv_curve, raw["dc"], **kw0)[:2]), what)
        a = quiet(dciv_curve, new["dc"], **kw1)[2]
        for f in ("vgap", "igap", "fgap", "rn", "rsg", "vint", "offset", "rseries"):
            agree(t, getattr(a, f), getattr(dc, f), what + ", " + f)
    elif c["op"] == "iv":
        agree(t, list(quiet(iv_curve, new["iv"], dc, **kw1)), list(quiet(iv_curve, raw["iv"], dc, **kw0)), what)
    elif c["op"] == "dcif":
        (a, m), (b, k) = quiet(dcif_data, new["dcif"], dc, **kw1), quiet(dcif_data, raw["dcif"], dc, **kw0)
        agree(t, [a, m.if_noise, m.corr, m.shot_slope, float(m.if_fit)], [b, k.if_noise, k.corr, k.shot_slope, float(k.if_fit)], what)
    elif c["op"] == "if":
        a, b = quiet(if_data, new["hot"], new["cold"], dc, **kw1), quiet(if_data, raw["hot"], raw["cold"], dc, **kw0)
        agree(t, [a[0], a[1], a[2].corr], [b[0], b[1], b[2].corr], what)
    elif c["op"] == "response":
        rng = np.random.default_rng(c["seed"])
        s = np.array([np.arange(4, 24), rng.integers(-40, -30, 20), rng.integers(-50, -40, 20)], dtype=float)
        s = s.T if c["nan"] else s
        agree(t, if_response(store(s, c["h"][0]), t_hot=num(300), t_cold=num(77), ifresp_maxtn=num(5000)),
              if_response(s, t_hot=300.0, t_cold=77.0, ifresp_maxtn=5000.0), "spectra in %s form" % c["h"][0])
    else:
        def objects(d, kw):
            a = quiet(DCData, d["dc"], d["dcif"], **kw)
            b = quiet(PumpedData, d["iv"], a, d["hot"], raw["cold"], **kw)
            return [a.voltage, a.current, a.vgap, a.q, a.rna, a.jc, a.ileak, a.if_noise, a.corr, a.if_data, b.current, b.rdyn, b.zt, b.vt, b.alpha, b.zw,
                    b.tn, b.gain, b.idx_best, b.tn_best, b.zj_if]
        agree(t, objects(new, kw1), objects(raw, kw0), what)
    for n, a in keep.items():
        t.same(np.asarray(new[n]), np.asarray(a), "raw data modified")
    t.label(c["op"])
    t.nontrivial()


assert table
CHECKS = [
    Check("math", math_case(), math, quick=1600, thorough=40000),
    Check("simulated", sim_case(), simulated, quick=900, thorough=15000),
    Check("setters", setter_case(), setters, quick=300, thorough=5000),
    Check("from_data", resp_case(), from_data, quick=24, thorough=400),
    Check("measurement", lab_case(), measurement, quick=200, thorough=5000),
]
