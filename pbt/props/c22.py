"""C22: analysing data leaves raw data, options and earlier results alone and is repeatable."""

import copy
import io
import types
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from qmix.exp.exp_data import DCData, PumpedData
from qmix.exp.if_data import dcif_data, if_data
from qmix.exp.if_response import if_response
from qmix.exp.iv_data import dciv_curve, iv_curve
from qmix.exp.parameters import params
from pbt.core import Check, grid
from pbt.lab import I_UNIT, V_UNIT, current, junction, pumped, quiet, sweep

PROPERTY = "C22"
RULE = ("cases: histories of up to 10 imports, analyses, refused imports, prints, plots and response-function evaluations over 1-2 shared "
        "sets of raw data (units, sweep order, dirt, memory layout, write protection), shared option dictionaries and earlier results; "
        "non-trivial: at least three operations, two of them imports, one of them a repeat of an earlier import after something else")
ASSUMPTIONS = ["single-threaded use"]

OPS = ["dc", "dc", "dc_if", "pumped", "pumped", "recover", "pumped_if", "fn_dc", "fn_iv", "fn_dcif", "fn_if", "fn_if2", "fn_resp",
       "refuse", "print", "resp", "plot"]
FREQ = 320.0


@st.composite
def history(draw):
    lab = []
    for _ in range(draw(st.integers(1, 2))):
        lab.append({"j": draw(junction), "off": [draw(grid(-5e-5, 5e-5, 40)), draw(grid(-5e-6, 5e-6, 40))],
                    "vu": draw(st.sampled_from(["mV", "V", "uV"])), "iu": draw(st.sampled_from(["mA", "A", "uA"])),
                    "order": draw(st.sampled_from(["up", "down", "updown"])), "dirt": draw(st.sampled_from([0, 20])),
                    "mem": draw(st.sampled_from(["C", "F", "view"])), "ro": draw(st.booleans()), "alpha": draw(grid(0.4, 1.3, 18)),
                    "opt": draw(st.fixed_dictionaries({
                        "rseries": st.sampled_from([None, 0.5]), "npts": st.sampled_from([1501, 2501]), "filter_data": st.booleans(),
                        "v_smear": st.sampled_from([None, 0.02]), "voffset_range": st.sampled_from([[-5e-4, 5e-4], 6e-4, [-7e-4, 4e-4], [-3e-4, 6e-4]]),
                        "given": st.booleans(), "vshot": st.sampled_from(["list", "lists", "none"]), "i_multiplier": st.sampled_from([1.0, 2.0]),
                        "fit_range": st.sampled_from([[0.25, 0.8], None]), "ifdata_npts": st.sampled_from([800, 2000]),
                        "best_pt": st.sampled_from(["Max Gain", "Min Tn"])}))})
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        if len(ops) > 1 and draw(st.booleans()):
            ops.append(ops[draw(st.integers(0, len(ops) - 1))])
        else:
            ops.append([draw(st.sampled_from(OPS)), draw(st.integers(0, len(lab) - 1)), draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5]))])
    return {"lab": lab, "ops": [list(o) for o in ops], "seed": draw(st.integers(0, 999))}


def layout(d, how, ro):
    if how == "F":
        d = np.asfortranarray(d)
    elif how == "view":                 # every second row of something larger
        big = np.zeros((2 * len(d), 2))
        big[::2] = d
        d = big[::2]
    else:
        d = np.ascontiguousarray(d)
    if ro:
        d.flags.writeable = False
    return d


def build(s, seed):
    """Raw data and options of one laboratory."""
    rng = np.random.default_rng(seed)
    j = s["j"]
    v = sweep(6.3e-3, 5e-6, s["order"])
    rs = s["opt"]["rseries"] or 0.0

    def measured(i, vv):
        d = np.vstack(((vv + i * rs + s["off"][0]) / V_UNIT[s["vu"]], (i + s["off"][1]) / s["opt"]["i_multiplier"] / I_UNIT[s["iu"]])).T
        if s["dirt"]:
            d = np.insert(d, rng.integers(0, len(d), s["dirt"]), np.nan, axis=0)
        return layout(d, s["mem"], s["ro"])

    w = np.arange(-0.3e-3, 6.3e-3, 6e-6)
    x = w / j["vgap"]
    gain = 0.02 + 0.4 * np.exp(-0.5 * ((x - 0.8) / 0.1) ** 2)
    shot = 3.0 + 5.8e3 * np.clip(w, 0, None) + 20 * np.exp(-0.5 * ((x - 1) / 0.03) ** 2)

    def power(p):
        return layout(np.vstack(((w + current(j, w) * rs + s["off"][0]) / V_UNIT[s["vu"]], p)).T, s["mem"], s["ro"])

    raw = {"dc": measured(current(j, v), v), "iv": measured(pumped(j, v, FREQ * 1e9, s["alpha"]), v), "dcif": power(shot * 0.01),
           "hot": power((gain * 340 + 5) * 0.01), "cold": power((gain * 120 + 5) * 0.01),
           "spec": layout(np.vstack((np.linspace(4, 8, 20), -40 + rng.normal(size=20), -42 + rng.normal(size=20))).T[:, :2], "C", False)}
    raw["spec"] = np.vstack((np.linspace(4, 8, 20), -40 + 0.1 * rng.normal(size=20), -42 + 0.1 * rng.normal(size=20)))
    raw["spec"].flags.writeable = not s["ro"]
    o = s["opt"]
    opt = {k: o[k] for k in ("npts", "filter_data", "v_smear", "i_multiplier", "ifdata_npts", "fit_range", "rseries", "best_pt")}
    opt.update(v_fmt=s["vu"], i_fmt=s["iu"], verbose=False, freq=FREQ, voffset_range=o["voffset_range"], area=1.5)
    opt["vshot"] = {"list": [5.0e-3, 5.8e-3], "lists": [[4.9e-3, 5.2e-3], [5.4e-3, 5.9e-3]], "none": None}[o["vshot"]]
    if o["given"]:
        opt.update(voffset=s["off"][0], ioffset=s["off"][1])
    return raw, opt


# what a call may ask for differently from the one before
VARIANTS = [{}, {"vmax": 5.5e-3}, {"t_hot": 310.0, "t_cold": 70.0, "comment": "warm"}, {"freq": 280.0, "vbest": 2.1e-3},
            {"area": 0.9, "vgap": 2.71e-3, "best_pt": "Min Tn"}, {"npts": 1801, "ifdata_sigma": 12, "vrn": [4e-3, 5.5e-3], "vleak": 1.3e-3,
             "xemb_range": [-0.5, 1.0], "vshot": [[5.3e-3, 5.8e-3], [4.7e-3, 5.1e-3]]}]


def snap(o, depth=0):
    """A comparable copy of a value, following containers and result objects."""
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (str, bytes, bool, int, type(None))):
        return o
    if isinstance(o, (float, complex, np.generic)):
        return ("number", repr(o))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), snap(x, depth + 1)) for k, x in sorted(o.items(), key=lambda kv: repr(kv[0]))))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x, depth + 1) for x in o))
    if hasattr(o, "idc") and hasattr(o, "ikk"):
        p = np.linspace(-1.9, 2.1, 23)
        return ("response", snap(np.asarray(o(p))))
    if isinstance(o, (types.FunctionType, types.MethodType, type)) or depth > 6:
        return "skipped"
    if hasattr(o, "__dict__"):
        return (type(o).__name__, tuple((k, snap(x, depth + 1)) for k, x in sorted(vars(o).items())))
    return "skipped"


def where(a, b, path=""):
    """First difference of two snapshots."""
    if type(a) is tuple and type(b) is tuple and len(a) == len(b) and a and a[0] != "array":
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                name = path
                if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], tuple) is False:
                    name = path + "/" + a[0]
                elif len(a) == 2 and isinstance(a[0], str):
                    name = path + "/" + str(a[0])
                return where(x, y, name)
    return "%s: %.80r became %.80r" % (path, a if not (isinstance(a, tuple) and a and a[0] == "array") else a[:3],
                                       b if not (isinstance(b, tuple) and b and b[0] == "array") else b[:3])


def plots(o, k):
    if isinstance(o, DCData):
        f = [o.plot_dciv, o.plot_offset, o.plot_if_noise][k % 3]
    else:
        f = [o.plot_iv]
        if o.if_hot is not None:
            f += [o.plot_if, o.plot_ivif, o.plot_noise_temp, o.plot_yfac_noise_temp, o.plot_gain_noise_temp, o.plot_gain]
        if o.zt is not None:
            f += [o.plot_simulated]
        f = f[k % len(f)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        quiet(f)
    plt.close("all")


PRISTINE = copy.deepcopy(params)


def run(c, t):
    # every history starts with the defaults of a new process
    params.clear()
    params.update(copy.deepcopy(PRISTINE))
    world = [build(s, c["seed"] + i) for i, s in enumerate(c["lab"])]
    base = [{k: snap(a) for k, a in raw.items()} for raw, _ in world]
    base_opt = [snap(opt) for _, opt in world]
    base_par = snap(params)
    objs = {}                 # results by operation: (object, snapshot)
    order = []
    repeats = imports = 0
    last = None

    asked = {}

    def options(i, k):
        """The options of this call: the same dictionary each time they are used."""
        if k == 0:
            return world[i][1]
        if (i, k) not in asked:
            o = dict(world[i][1], **copy.deepcopy(VARIANTS[k]))
            asked[i, k] = (o, snap(o))
        return asked[i, k][0]

    def get(i, name):
        """An earlier result of this kind, or a new one."""
        key = (name, i, 0)
        if key not in objs:
            do(name, i, 0)
        return objs[key][0]

    def keep(key, res):
        nonlocal repeats
        now = snap(res)
        if key in objs:
            t.check(now == objs[key][1], "{}: importing the same data again gave another result: {}", key, where(objs[key][1], now))
            repeats += key != last
            if len(order) > 2:
                objs[key] = (res, now)
        else:
            objs[key] = (res, now)
            order.append(key)

    def do(op, i, k):
        nonlocal imports
        raw, opt = world[i][0], options(i, k)
        imports += op in ("dc", "dc_if", "pumped", "recover", "pumped_if") or op.startswith("fn_")
        if op == "dc":
            keep((op, i, k), quiet(DCData, raw["dc"], **opt))
        elif op == "dc_if":
            keep((op, i, k), quiet(DCData, raw["dc"], raw["dcif"], **opt))
        elif op == "pumped":
            keep((op, i, k), quiet(PumpedData, raw["iv"], get(i, "dc"), analyze_iv=False, **opt))
        elif op == "recover":
            keep((op, i, k), quiet(PumpedData, raw["iv"], get(i, "dc"), remb_range=(0.05, 1), **opt))
        elif op == "pumped_if":
            keep((op, i, k), quiet(PumpedData, raw["iv"], get(i, "dc_if"), raw["hot"], raw["cold"], analyze_iv=False, **opt))
        elif op == "fn_dc":
            keep((op, i, k), quiet(dciv_curve, raw["dc"], **opt))
        elif op == "fn_iv":
            keep((op, i, k), quiet(iv_curve, raw["iv"], get(i, "dc").dc, **opt))
        elif op == "fn_dcif":
            keep((op, i, k), quiet(dcif_data, raw["dcif"], get(i, "dc").dc, **opt))
        elif op == "fn_if":
            keep((op, i, k), quiet(if_data, raw["hot"], raw["cold"], get(i, "dc").dc, dcif=get(i, "dc_if").dcif, **opt))
        elif op == "fn_if2":                # the same powers for both loads, in one array
            keep((op, i, k), quiet(if_data, raw["hot"], raw["hot"], get(i, "dc").dc, dcif=get(i, "dc_if").dcif, **opt))
        elif op == "fn_resp":
            keep((op, i, k), if_response(raw["spec"], **opt))
        elif op == "refuse":
            bad = [("dc", dict(opt, v_fmt="kV")), ("iv", dict(opt, i_fmt="pA")), ("nofreq", dict(opt, freq=None)), ("units", dict(opt, v_fmt=None)),
                   ("list", opt), ("best", dict(opt, best_pt="worst"))][k % 6]
            fn = {"dc": lambda: DCData(raw["dc"], **bad[1]), "iv": lambda: PumpedData(raw["iv"], get(i, "dc"), **bad[1]),
                  "nofreq": lambda: PumpedData(raw["iv"], get(i, "dc"), **bad[1]), "units": lambda: dciv_curve(raw["dc"], **bad[1]),
                  "list": lambda: DCData(raw["dc"].tolist(), **bad[1]),
                  "best": lambda: if_data(raw["hot"], raw["cold"], get(i, "dc").dc, dcif=get(i, "dc_if").dcif, **bad[1])}[bad[0]]
            get(i, "dc")
            if bad[0] == "best":
                get(i, "dc_if")
            t.raises(lambda: quiet(fn), "invalid import (%s) accepted" % bad[0])
        elif order:
            o = [objs[q][0] for q in order if isinstance(objs[q][0], (DCData, PumpedData))]
            if not o:
                return
            o = o[k % len(o)]
            if op == "print":
                t.check(bool(repr(o)), "empty representation")
                quiet(print, o, file=io.StringIO())
                if hasattr(o, "print_info"):
                    quiet(o.print_info)
            elif op == "resp":
                if isinstance(o, DCData):
                    x = np.linspace(-1.5, 1.5, 50 + k)
                    x0 = x.copy()
                    for r in (o.resp, o.resp_smear):
                        r(x), r.idc(x), r.ikk(x), r.resp_conj(x)
                    t.same(x, x0, "voltages passed to a response function")
            elif op == "plot":
                plots(o, k)

    for n, (op, i, k) in enumerate(c["ops"]):
        what = "step %d (%s): " % (n, op)
        do(op, i, k)
        for b, (raw, _) in zip(base, world):
            for name in b:
                t.check(snap(raw[name]) == b[name], what + "the raw data ({}) was modified", name)
        for b, (_, opt) in zip(base_opt, world):
            t.check(snap(opt) == b, what + "the options passed in were modified: {}", where(b, snap(opt)))
        for o, b in asked.values():
            t.check(snap(o) == b, what + "the options passed in were modified: {}", where(b, snap(o)))
        t.check(snap(params) == base_par, what + "the default parameters were modified: {}", where(base_par, snap(params)))
        for key in order:
            o, s = objs[key]
            now = snap(o)
            t.check(now == s, what + "an earlier result {} was modified: {}", key, where(s, now))
        last = (op, i, k)
    # results do not follow later changes of the raw data
    for raw, _ in world:
        for a in raw.values():
            a.flags.writeable = True
            a[:] = 1.0
    for key in order:
        o, s = objs[key]
        t.check(snap(o) == s, "result {} changes when the raw data is overwritten: {}", key, where(s, snap(o)))
    t.label("repeat", repeats)
    t.label("shared_result", any(k[0] in ("pumped", "recover", "pumped_if") for k in order))
    t.nontrivial(len(c["ops"]) >= 3 and imports >= 2 and repeats > 0)


def defaults(c, t):
    """Without options the defaults apply, the same ones however the object is made and whatever was done before."""
    s = c["lab"][0]
    s = dict(s, vu="mV", iu="mA", opt=dict(s["opt"], i_multiplier=1.0))
    raw, _ = build(s, c["seed"])
    before = copy.deepcopy(params)
    kw = {"freq": FREQ, "verbose": False}
    a = quiet(DCData, raw["dc"], verbose=False)
    v, i, meta = quiet(dciv_curve, raw["dc"])
    t.same(a.voltage, v, "voltage of the object and of the function")
    t.same(a.current, i, "current of the object and of the function")
    t.check(snap(meta) == snap(a.dc), "metadata of the object and of the function: {}", where(snap(a.dc), snap(meta)))
    b = quiet(DCData, raw["dc"], **dict(before, verbose=False))
    t.check(snap(a) == snap(b), "defaults given explicitly change the result: {}", where(snap(a), snap(b)))
    p = quiet(PumpedData, raw["iv"], a, analyze_iv=False, **kw)
    v, i = quiet(iv_curve, raw["iv"], a.dc)
    t.same(p.voltage, v, "pumped voltage of the object and of the function")
    t.same(p.current, i, "pumped current of the object and of the function")
    q = quiet(PumpedData, raw["iv"], a, **dict(before, analyze_iv=False, **kw))
    t.check(snap(p) == snap(q), "defaults given explicitly change the pumped result: {}", where(snap(p), snap(q)))
    d = quiet(DCData, raw["dc"], raw["dcif"], verbose=False)
    f, m = quiet(dcif_data, raw["dcif"], d.dc)
    t.same(d.if_data, f, "IF data of the object and of the function")
    t.check(snap(m) == snap(d.dcif), "IF metadata of the object and of the function")
    r = quiet(PumpedData, raw["iv"], d, raw["hot"], raw["cold"], analyze_iv=False, **kw)
    res, best, m = quiet(if_data, raw["hot"], raw["cold"], d.dc, dcif=d.dcif, **kw)
    t.same(np.c_[r.if_hot, r.if_cold[:, 1], r.tn, r.gain], res, "hot/cold results of the object and of the function")
    t.check(r.idx_best == best, "best point of the object and of the function")
    t.check(params == before, "default parameters modified")
    t.nontrivial()


CHECKS = [
    Check("histories", history(), run, quick=320, thorough=8000),
    Check("defaults", history(), defaults, quick=48, thorough=600),
]
