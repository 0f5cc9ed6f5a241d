"""C24: printed reports state the results, in the units they name."""

import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

import qmix.respfn as respfn
from qmix.circuit import EmbeddingCircuit
from qmix.exp.exp_data import DCData, PumpedData
from qmix.exp.if_data import dcif_data
from qmix.exp.iv_data import dciv_curve
from qmix.harmonic_balance import check_hb_error, harmonic_balance
from qmix.misc.progbar import progress_bar
from qmix.misc.terminal import cprint, printc, pvale, pvalf, title
from qmix.qtcurrent import qtcurrent
from pbt.core import Check, grid
from pbt.hb import hb_case, hb_circuit, initial, num_b_of, residual, resolved, slack
from pbt.lab import current, junction_exc, pumped, sweep, table
from pbt.props.c22 import snap, where
from pbt.sim import make_resp

PROPERTY = "C24"
RULE = ("cases: verbose imports of random junctions, pumped curves and IF data, circuits of 1-4 tones and 1-3 harmonics with real and "
        "complex sources, verbose solver runs with few iterations, response functions, number-printing helpers; the printed numbers are "
        "compared with the results; non-trivial: at least one printed number was compared")
ASSUMPTIONS = ["a printed number is right if it agrees with the result to the digits printed", "layout and colours are free"]

NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"
CPX = r"[-+]?\d+\.\d+(?:[-+]\d+\.\d+j)?"


def said(fn, *a, **k):
    """What a call prints (without colours), and what it returns."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = fn(*a, **k)
    return re.sub(r"\x1b\[[0-9;]*m", "", buf.getvalue()), out


def number(t, text, label, unit="", cpx=False, n=0):
    """The n-th number of the report after a label and before its unit."""
    found = re.findall(label + r"\s*:?\s*(" + (CPX if cpx else NUM) + r")\s*" + re.escape(unit), text)
    t.check(len(found) > n, "'{}' (in '{}') is not in the report", label, unit)
    return complex(found[n]) if cpx else float(found[n])


def states(t, text, label, unit, value, digits=2, cpx=False, n=0):
    got = number(t, text, label, unit, cpx, n)
    half = 0.501 * 10 ** -digits * (1.5 if cpx else 1)
    if np.isfinite(value):
        t.close(got, value, 1, "printed %s" % label, scale=half + 1e-12 * abs(value))
    else:
        t.check(not np.isfinite(got), "printed {}: {} instead of {}", label, got, value)


# -- analysed measurements ----------------------------------------------------

@st.composite
def data_case(draw):
    return {"j": draw(junction_exc), "off": [draw(grid(-3e-4, 3e-4, 60)), draw(grid(-2e-5, 2e-5, 40))], "given": draw(st.booleans()),
            "rs": draw(st.sampled_from([None, 0.5])), "dcif": draw(st.booleans()), "area": draw(st.one_of(st.none(), grid(0.5, 3, 50))),
            "vleak": draw(st.one_of(st.none(), grid(0.5e-3, 2.2e-3, 34))), "comment": draw(st.sampled_from([None, "", "run 7", "x=1"])),
            "freq": draw(grid(180, 480, 3000)), "alpha": draw(grid(0.4, 1.2, 16)), "ifd": draw(st.booleans()),
            "zemb": draw(st.sampled_from([None, None, [0.4, -0.2], [0.25, 0.3], [0.5, 0.0]])), "analyse": draw(st.sampled_from([True, True, False])),
            "tif": draw(grid(0.5, 40, 79)), "gain": draw(grid(0.02, 1.4, 69)), "best": draw(st.sampled_from([{}, {"best_pt": "Min Tn"}]))}


def dc_import(c, verbose):
    j, v = c["j"], sweep(6.3e-3, 5e-6)
    rs = c["rs"] or 0.0
    i = current(j, v)
    kw = {"verbose": verbose, "npts": 2001, "vshot": [4.6e-3, 5.7e-3]}
    if c["given"]:
        kw.update(voffset=c["off"][0], ioffset=c["off"][1])
    for k, name in (("rs", "rseries"), ("area", "area"), ("vleak", "vleak"), ("comment", "comment")):
        if c[k] is not None:
            kw[name] = c[k]
    dcif = None
    if c["dcif"]:
        w = np.arange(0, 6.3e-3, 8e-6)
        p = (5.8e3 * w + c["tif"] + 15 * np.exp(-0.5 * ((w / j["vgap"] - 1) / 0.03) ** 2)) * 0.02
        dcif = np.vstack(((w + current(j, w) * rs + c["off"][0]) * 1e3, p)).T
    return said(DCData, table(v + i * rs + c["off"][0], i + c["off"][1]), dcif, **kw)


def rest(data):
    """Results, without the options that are kept with them."""
    return [q for q in snap(data)[1] if q[0] not in ("kwargs", "verbose")]


def dc_report(c, t):
    text, d = dc_import(c, True)
    silent, d2 = dc_import(c, False)
    t.check("Vgap" not in silent, "a silent import prints a report")
    t.check(rest(d) == rest(d2), "the result depends on whether it is printed: {}", where(snap(d2), snap(d)))
    for what in (text, re.sub(r"\x1b\[[0-9;]*m", "", str(d)), said(print, d)[0], said(d.print_info)[0]):
        states(t, what, "Vgap", "mV", d.vgap * 1e3)
        states(t, what, "fgap", "GHz", d.fgap / 1e9)
        states(t, what, "Rn", "ohms", d.rn)
        states(t, what, "Rsg", "ohms", d.rsg)
        states(t, what, r"\bQ", "", d.rsg / d.rn)
        # 1 kA/cm^2 = 1e7 A/m^2
        area = (1.5 if c["area"] is None else c["area"]) * 1e-12
        states(t, what, "Jc", "kA/cm^2", d.vgap / (d.rn * area) / 1e7)
        states(t, what, "Ileak", "uA", d.ileak * 1e6)
        t.check(re.search(r"Offset:\s*" + NUM + r"\s*mV\s*" + NUM + r"\s*uA", what), "no offset in the report")
        got = re.search(r"Offset:\s*(" + NUM + r")\s*mV\s*(" + NUM + r")\s*uA", what)
        t.close(float(got.group(1)), d.offset[0] * 1e3, 0.00501, "printed voltage offset", scale=1)
        t.close(float(got.group(2)), d.offset[1] * 1e6, 0.00501, "printed current offset", scale=1)
        states(t, what, "Vint", "mV", d.vint * 1e3)
        t.check(("IF noise" in what) == c["dcif"], "IF noise reported {} IF data", "without" if not c["dcif"] else "not reported with")
        if c["dcif"]:
            states(t, what, "IF noise", "K", d.if_noise)
        if c["comment"]:
            t.check(c["comment"] in what, "comment missing")
    states(t, repr(d), r"Vgap =", "mV", d.vgap * 1e3)
    states(t, repr(d), r"Rn =", "ohms", d.rn)
    t.label("with IF data", c["dcif"])
    t.nontrivial()


def pumped_report(c, t):
    _, d = dc_import(c, False)
    j, v = c["j"], sweep(6.3e-3, 5e-6)
    rs = c["rs"] or 0.0
    i = pumped(j, v, c["freq"] * 1e9, c["alpha"])
    kw = {"freq": c["freq"], "analyze_iv": c["analyse"], "voffset": c["off"][0], "ioffset": c["off"][1], "npts": 2001,
          "vshot": [4.6e-3, 5.7e-3], "comment": c["comment"] or "", **c["best"]}
    if c["rs"] is not None:
        kw["rseries"] = c["rs"]
    if c["zemb"]:
        kw["zemb"] = complex(*c["zemb"]) if c["zemb"][1] else c["zemb"][0]
    hot = cold = None
    if c["ifd"]:
        w = np.arange(0, 6.3e-3, 8e-6)
        x = w / j["vgap"]
        g = 0.01 + c["gain"] * np.exp(-0.5 * ((x - 0.75) / 0.12) ** 2)
        hot, cold = (np.vstack(((w + current(j, w) * rs + c["off"][0]) * 1e3,
                                (g * (tt + 60) * (x < 1.4) + 5.8e3 * w * (x >= 1.4) + c["tif"]) * 0.02)).T for tt in (293.0, 78.0))
    tab = table(v + i * rs + c["off"][0], i + c["off"][1])
    text, p = said(PumpedData, tab, d, hot, cold, verbose=True, **kw)
    _, p2 = said(PumpedData, tab, d, hot, cold, verbose=False, **kw)
    t.check(rest(p) == rest(p2), "the result depends on whether it is printed")
    states(t, text, "Frequency", "GHz", c["freq"], 1)
    if c["comment"]:
        t.check(c["comment"] in text, "comment missing")
    if c["analyse"]:
        t.check(("good fit" in text) == bool(p.fit_good) and ("bad fit" in text) == (not p.fit_good), "printed quality of the fit")
        states(t, text, "voltage", "* Vgap", p.vt)
        states(t, text, "impedance", "* Rn", p.zt, cpx=True)
        nw = np.abs(p.vt * d.vgap) ** 2 / (8 * np.real(p.zt) * d.rn) * 1e9 if np.real(p.zt) else np.inf
        states(t, text, "avail. power", "nW", nw)
        states(t, text, "drive level", "", p.alpha)
        states(t, text, "impedance", "* Rn", p.zw, cpx=True, n=1)
        nw = np.abs(p.alpha * p.vph * d.vgap) ** 2 / (2 * np.real(p.zw) * d.rn) * 1e9
        states(t, text, "deliv. power", "nW", nw)
    else:
        t.check("drive level" not in text, "impedance recovery reported although switched off")
    if c["ifd"]:
        k = p.idx_best
        states(t, text, "noise temp", "K", p.tn[k], 1)
        with np.errstate(all="ignore"):
            states(t, text, "gain", "dB", 10 * np.log10(p.gain[k]))
        states(t, text, "IF noise", "K", p.if_noise)
    else:
        t.check("noise temp" not in text, "noise temperature reported without IF data")
    t.label("impedance", c["analyse"])
    t.label("IF", c["ifd"])
    t.nontrivial()


@st.composite
def warning_case(draw):
    return {"j": draw(junction_exc), "rn": draw(st.one_of(grid(0.05, 3, 118), grid(40, 120, 160), grid(3, 40, 30))),
            "lo": draw(grid(4.6e-3, 5.2e-3, 60)), "width": draw(st.sampled_from([1e-6, 2e-6, 3e-4, 6e-4]))}


def warnings(c, t):
    """Doubtful units and failed fits are announced; nothing else is."""
    j, v = dict(c["j"], rn=c["rn"]), sweep(6.3e-3, 5e-6)
    text, (_, _, meta) = said(dciv_curve, table(v, current(j, v)), voffset=0.0, ioffset=0.0, npts=2001)
    if min(abs(meta.rn - 1), abs(meta.rn - 50)) > 1e-6:
        t.check(("very low" in text) == (meta.rn < 1), "a normal resistance of {} ohms: {}", meta.rn, text.strip())
        t.check(("very high" in text) == (meta.rn > 50), "a normal resistance of {} ohms: {}", meta.rn, text.strip())
    t.check(bool(text.strip()) == ("very low" in text or "very high" in text), "other output: {}", text.strip())
    # a shot-noise range without data
    w = np.arange(0, 6.3e-3, 4e-6)
    text, (got, info) = said(dcif_data, np.vstack((w * 1e3, (5.8e3 * w + 6) * 0.02)).T, meta, npts=2001, vmax=6.2e-3,
                             vshot=(c["lo"], c["lo"] + c["width"]), sigma=2)
    n = np.sum((got[:, 0] * meta.vgap > c["lo"]) & (got[:, 0] * meta.vgap < c["lo"] + c["width"]))
    t.check(("fit failed" in text) == (n < 5), "{} points in the shot-noise range: {}", n, text.strip())
    t.label("resistance " + ("low" if meta.rn < 1 else "high" if meta.rn > 50 else "usual"))
    t.label("no points for the fit", n < 5)
    t.nontrivial()


# -- circuits and solvers -----------------------------------------------------

@st.composite
def circuit_case(draw):
    nf, np_ = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    n = nf * np_
    pick = lambda s: draw(st.lists(s, min_size=n, max_size=n))         # noqa: E731
    return {"nf": nf, "np": np_, "freq": draw(st.lists(grid(0.01, 0.9, 890), min_size=nf, max_size=nf)),
            "vt": pick(st.one_of(grid(0, 2, 200).map(lambda x: [x, 0.0]), st.tuples(grid(-1, 1, 80), grid(-1, 1, 80)).map(list))),
            "zt": pick(st.tuples(grid(0, 3, 60), grid(-2, 2, 40)).map(list)),
            "names": pick(st.sampled_from(["", "", "LO", "image", "RF 2"])), "gap": draw(st.sampled_from(["both", "vgap", "fgap", "none", "norn"])),
            "vgap": draw(grid(1e-3, 4e-3, 300)), "rn": draw(grid(2, 60, 116)), "name": draw(st.sampled_from(["", "my mixer"]))}


def circuit_report(c, t):
    h, e = 6.62607015e-34, 1.602176634e-19
    kw = {"rn": c["rn"]} if c["gap"] != "norn" else {}
    fgap = c["vgap"] * e / h
    if c["gap"] in ("both", "vgap", "norn"):
        kw["vgap"] = c["vgap"]
    if c["gap"] in ("both", "fgap"):
        kw["fgap"] = fgap
    cct = EmbeddingCircuit(c["nf"], c["np"], name=c["name"], **kw)
    cct.freq[1:] = c["freq"]
    sig = [(f, p) for f in range(1, c["nf"] + 1) for p in range(1, c["np"] + 1)]
    for (f, p), v, z, name in zip(sig, c["vt"], c["zt"], c["names"]):
        cct.vt[f, p], cct.zt[f, p] = complex(*v), complex(*z)
        if name:
            cct.set_name(name, f, p)
    physical = c["gap"] in ("both", "vgap", "fgap")
    text, _ = said(cct.print_info)
    for s in (text, str(cct), repr(cct)):
        t.check(re.search(r"Tones:\s*%d\b" % c["nf"], s) and re.search(r"Harmonics:\s*%d\b" % c["np"], s) and c["name"] in s,
                "dimensions or name of the circuit are not printed: {}", s[:80])
    parts = re.split(r"f=(\d+), p=(\d+)", text)
    t.check([(int(a), int(b)) for a, b in zip(parts[1::3], parts[2::3])] == sig, "signals listed: {}", parts[1::3])
    for (f, p), body, v, z, name in zip(sig, parts[3::3], c["vt"], c["zt"], c["names"]):
        v, z = complex(*v), complex(*z)
        head = body.splitlines()[0]
        t.check(name in head, "name of signal {},{} is not printed", f, p)
        t.check(re.search(r"x %d\b" % p, head), "harmonic number of signal {},{} is not printed", f, p)
        if physical:
            t.close(float(re.search(r"(%s) GHz" % NUM, head).group(1)), c["freq"][f - 1] * fgap / 1e9, 0.0501, "printed frequency", scale=1)
        else:
            t.close(float(re.search(r"freq = (%s)" % NUM, head).group(1)), c["freq"][f - 1], 0.0000501, "printed frequency", scale=1)
        states(t, body, "voltage", "* Vgap", v, 4, cpx=True)
        states(t, body, "impedance", "* Rn", z, 2, cpx=True)
        if physical:
            a = v / (c["freq"][f - 1] * p)
            got = re.search(r"(%s)\s*\* Vph" % CPX, body)
            t.check(got is not None, "source voltage in photon voltages is not printed")
            t.close(complex(got.group(1)), a, 0.000076, "printed source voltage in photon voltages", scale=1)
            w = abs(v * c["vgap"]) ** 2 / (8 * z.real * c["rn"]) if z.real else 0.0
            t.close(float(re.search(r"(%s) W" % NUM, body).group(1)), w, 1, "printed available power in W", scale=0.00501 * w + 1e-30)
            dbm = float(re.search(r"(%s) dBm" % NUM, body).group(1))
            if w > 0:
                t.close(dbm, 10 * np.log10(w) + 30, 0.000501, "printed available power in dBm", scale=1)
            else:
                t.check(dbm == -np.inf, "printed available power of nothing: {} dBm", dbm)
        else:
            t.check("dBm" not in body, "power printed without the properties of the junction")
    t.label("complex sources", any(v[1] for v in c["vt"]))
    t.nontrivial()


@st.composite
def solver_case(draw):
    c = draw(hb_case(tones=(1, 1, 2, 3)))
    c["max_it"] = draw(st.sampled_from([0, 1, 2, 3, 8]))
    return c


def solver_report(c, t):
    cct = hb_circuit(c, t)
    resp = make_resp(c["resp"])
    kw = dict(num_b=num_b_of(c), max_it=c["max_it"], stop_rerror=c["stop"], damp_coeff=c["damp"], zj_guess=c["guess"],
              vj_initial=initial(c, cct), mode="x")
    text, (vj, its, conv) = said(harmonic_balance, cct, resp, verbose=True, **kw)
    silent, (vj2, its2, conv2) = said(harmonic_balance, cct, resp, verbose=False, **kw)
    t.check(its == its2 and conv == conv2 and np.array_equal(vj, vj2, equal_nan=True), "the result depends on whether it is printed")
    if not (cct.zt[1:, 1:] != 0).any() or not np.all(np.isfinite(vj)):
        t.skip("nothing to solve, or diverged")
    t.check("%d tone(s)" % cct.num_f in text and "%d harmonic(s)" % cct.num_p in text, "size of the problem is not printed")
    states(t, text, "max. iterations", "", c["max_it"], 0)
    blocks = re.split(r"Error after (\d+) iteration\(s\):", text)
    t.check([int(b) for b in blocks[1::2]] == list(range(its + 1)), "{} iterations, but errors are printed after {}", its, blocks[1::2])
    fail = "DID NOT ACHIEVE"
    t.check((fail in text) == (not conv) and ("was achieved" in text) == conv, "printed outcome differs from the one returned ({})", conv)
    t.check((fail in silent) == (not conv), "failure {} when silent", "not printed" if not conv else "printed")
    if its:
        t.check(re.search(r"\b%d iterations required" % its, text), "number of iterations is not printed")
    rows = re.findall(r"f:\s*(\d+),\s*p:\s*(\d+),\s*med\. rel\. error:\s*(%s),\s*max\. rel\. error:\s*(%s),\s*(%s) %%" % (NUM, NUM, NUM), blocks[-1])
    sig = [(f, p) for f in range(1, cct.num_f + 1) for p in range(1, cct.num_p + 1)]
    t.check([(int(r[0]), int(r[1])) for r in rows] == sig, "signals in the printed errors: {}", [r[:2] for r in rows])
    if not resolved(c, cct, vj):
        t.skip("voltages beyond the summation limit")
    err, _ = residual(c, cct, resp, vj)
    mag = np.maximum(np.abs(vj[1:, 1:]), 1e-300)
    lo, hi = np.maximum(err - slack(cct), 0) / mag, (err + slack(cct)) / mag
    for (f, p), r in zip(sig, rows):
        a, b = lo[f - 1, p - 1] * (1 - 1e-6), hi[f - 1, p - 1] * (1 + 1e-6)
        for name, got, fn in (("median", float(r[2]), np.median), ("maximum", float(r[3]), np.max)):
            t.check(min(fn(a), 99999.99) - 0.000501 <= got <= fn(b) + 0.000501, "printed {} relative error {} of signal {},{} instead of {}",
                    name, got, f, p, float(fn(b)))
        n = cct.vb_npts
        t.check(100 * np.sum(b < c["stop"]) / n - 0.051 <= float(r[4]) <= 100 * np.sum(a < c["stop"]) / n + 0.051,
                "printed completion {} % of signal {},{}", r[4], f, p)
    # the stand-alone check lists the errors up to the first one that is too large
    verdict = True
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            check_hb_error(vj, cct, resp, num_b=num_b_of(c), stop_rerror=c["stop"])
        except AssertionError:
            verdict = False
    rows = re.findall(r"f:(\d+),\s*p:(\d+),\s*max rel\. error: (%s),\s*Pass\? (\w+)" % NUM, buf.getvalue())
    t.check([(int(r[0]), int(r[1])) for r in rows] == sig[:len(rows)] and (len(rows) == len(sig) or not verdict), "signals checked: {}", rows)
    t.check([r[3] for r in rows] == ["Yes"] * (len(rows) - (not verdict)) + ["No"] * (not verdict), "printed verdicts {} but {}", rows, verdict)
    for r in rows:
        a, b = lo[int(r[0]) - 1, int(r[1]) - 1].max(), hi[int(r[0]) - 1, int(r[1]) - 1].max()
        t.check(a * 0.9949 <= float(r[2]) <= b * 1.0051, "printed error {} instead of {}", r[2], float(b))
    # current calculation
    text, cur = said(qtcurrent, vj, cct, resp, [0.0], num_b=num_b_of(c), verbose=True)
    t.same(qtcurrent(vj, cct, resp, [0.0], num_b=num_b_of(c), verbose=False), cur, "the current depends on whether it is printed")
    t.check("%d tone(s)" % cct.num_f in text and "%d harmonic(s)" % cct.num_p in text, "size of the current calculation is not printed")
    t.label("converged", conv)
    t.nontrivial(its > 0)


@st.composite
def resp_case(draw):
    return {"kind": draw(st.sampled_from(["poly", "exp", "perfect", "iv"])), "order": draw(st.sampled_from([10, 30, 50])),
            "smear": draw(st.sampled_from([None, 0.01, 0.03])), "ndc": draw(st.sampled_from([None, 60, 201])), "nkk": draw(st.sampled_from([None, 80, 301]))}


def resp_report(c, t):
    kw = {"check_error": False, "v_smear": c["smear"]}
    if c["ndc"]:
        kw["max_npts_dc"] = c["ndc"]
    if c["nkk"]:
        kw["max_npts_kk"] = c["nkk"]
    v = np.linspace(0, 2.5, 1001)
    mk = {"poly": lambda **k: respfn.RespFnPolynomial(c["order"], **k), "exp": lambda **k: respfn.RespFnExponential(**k),
          "perfect": lambda **k: respfn.RespFnPerfect(**k),
          "iv": lambda **k: respfn.RespFnFromIVData(v, v ** c["order"] * (1 / (1 + v ** (c["order"] - 1))), **k)}[c["kind"]]
    text, r = said(mk, verbose=True, **kw)
    silent, r2 = said(mk, verbose=False, **kw)
    x = np.linspace(-1.9, 1.9, 39)
    t.same(r(x), r2(x), "the response function depends on whether it is printed")
    t.check(silent.strip() == "", "a silent response function prints {}", silent[:60])
    if c["kind"] != "perfect" or "interp" in text.lower():
        parts = text.split("KK curve")
        if len(parts) == 2:
            for body, vv, ii, f, name in ((parts[0], r.voltage, r.current, r.idc, "dc"), (parts[1], r.voltage_kk, r.current_kk, r.ikk, "KK")):
                m = np.abs(vv) < 34
                err = np.abs(ii - f(vv))[m]
                got = re.search(r"max\. error: (%s) at v=(%s)" % (NUM, NUM), body)
                t.check(got is not None, "interpolation error of the %s curve is not printed" % name)
                t.close(float(got.group(1)), err.max(), 0.0000501, "printed interpolation error of the %s curve" % name, scale=1)
                near = err[np.abs(vv[m] - float(got.group(2))) < 0.0051]
                t.check(len(near) and near.max() >= err.max() * (1 - 1e-6) or
                        err[np.abs(np.abs(vv[m]) - abs(float(got.group(2)))) < 0.0051].max() >= err.max() * (1 - 1e-6),
                        "largest error of the {} curve is not at v={}", name, got.group(2))
                avg = float(re.search(r"avg\. error: (%s)" % NUM, body).group(1))
                t.close(avg, err.mean(), 1e-3, "printed average error of the %s curve" % name, scale=err.mean() + 1e-12)
            t.nontrivial()
    want = {"poly": "RespFnPolynomial", "exp": "RespFnExponential", "perfect": "RespFnPerfect", "iv": "RespFnFromIVData"}[c["kind"]]
    t.check(want in str(r) and want in repr(r), "name of the response function: {}", str(r))


# -- helpers ------------------------------------------------------------------

@st.composite
def helper_case(draw):
    x = st.one_of(grid(-50, 50, 4000), grid(-1, 1, 2000), st.just(0.0))
    return {"re": draw(x), "im": draw(x), "exp": draw(st.integers(-20, 20)), "unit": draw(st.sampled_from(["", "ohms"])),
            "comment": draw(st.sampled_from(["", "ok"])), "color": draw(st.sampled_from([None, "red", "GREEN"])),
            "title": draw(st.text("abc XYZ", min_size=1, max_size=30)), "len": draw(st.integers(40, 80)),
            "total": draw(st.integers(1, 300)), "part": draw(grid(0, 1, 50)), "bar": draw(st.integers(5, 60)), "dec": draw(st.integers(0, 3))}


def helpers(c, t):
    z = complex(c["re"], c["im"])
    s = printc(z)
    m = re.fullmatch(r"\s*([-+]?\s*\d+\.\d+)\s*([-+])\s*j\s*(\d+\.\d+)\s*", s)
    t.check(m is not None, "'{}' is not a complex number", s)
    got = complex(float(m.group(1).replace(" ", "")), float(m.group(2) + m.group(3)))
    t.close(got, z, 0.0076, "complex number %s" % s, scale=1)
    kw = {"units": c["unit"], "comment": c["comment"], "color": c["color"]}
    out, _ = said(pvalf, "value", c["re"], **kw)
    t.close(float(re.search(r"value\s*=\s*(%s)" % NUM, out).group(1)), c["re"], 0.000501, "printed float", scale=1)
    t.check(c["unit"] in out and c["comment"] in out, "unit or comment missing: {}", out)
    out, _ = said(pvalf, "value", z, **kw)
    m = re.search(r"value\s*=\s*(%s)\s*([-+])\s*j\s*(\d+\.\d+)" % NUM, out)
    t.check(m is not None, "'{}' is not a complex number", out)
    t.close(complex(float(m.group(1)), float(m.group(2) + m.group(3))), z, 0.00076, "printed complex number", scale=1)
    t.check(c["unit"] in out and c["comment"] in out, "unit or comment missing: {}", out)
    x = c["re"] * 10.0 ** c["exp"]
    out, _ = said(pvale, "value", x, **kw)
    t.close(float(re.search(r"value\s*=\s*(%s)" % NUM, out).group(1)), x, 0.0501 * 1.0001, "printed number", scale=abs(x) + 1e-300)
    t.check(c["unit"] in out and c["comment"] in out, "unit or comment missing: {}", out)
    out, _ = said(title, c["title"], c["color"], c["len"])
    line = out.strip("\n")
    t.check(len(line) == c["len"] and line.startswith("*") and line.endswith("*") and " " + c["title"] + " " in line
            and line.strip("*") == " " + c["title"] + " " and abs(line.index(" ") - (len(line) - 1 - line.rindex(" "))) <= 1,
            "title of length {}: {}", len(line), line)
    out, _ = said(cprint, c["title"], c["color"])
    t.check(out == c["title"] + "\n", "text printed as {}", out)
    it = int(round(c["part"] * c["total"]))
    out, _ = said(progress_bar, it, c["total"], decimals=c["dec"], bar_length=c["bar"])
    m = re.search(r"\|(-*)( *)\| (%s)%%" % NUM, out)
    t.check(m is not None and len(m.group(1)) + len(m.group(2)) == c["bar"], "progress bar {}", out)
    t.close(len(m.group(1)), c["bar"] * it / c["total"], 0.501, "filled part of the bar", scale=1)
    t.close(float(m.group(3)), 100.0 * it / c["total"], 0.501 * 10.0 ** -c["dec"], "printed percentage", scale=1)
    t.check(out.endswith("\n") == (it == c["total"]), "line end of the progress bar")
    t.nontrivial()


CHECKS = [
    Check("dc_report", data_case(), dc_report, quick=80, thorough=2000),
    Check("pumped_report", data_case(), pumped_report, quick=80, thorough=2000),
    Check("warnings", warning_case(), warnings, quick=120, thorough=3000),
    Check("circuit_report", circuit_case(), circuit_report, quick=600, thorough=15000),
    Check("solver_report", solver_case(), solver_report, quick=240, thorough=6000),
    Check("resp_report", resp_case(), resp_report, quick=32, thorough=400),
    Check("helpers", helper_case(), helpers, quick=800, thorough=10000),
]
