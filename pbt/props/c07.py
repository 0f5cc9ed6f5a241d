"""C07: the embedding circuit converts between physical and normalised units consistently."""

import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from qmix.circuit import EmbeddingCircuit
from pbt.core import Check, grid

PROPERTY = "C07"
RULE = ("cases: histories of up to 12 setter and query calls on a circuit (1-4 tones, 1-3 harmonics, gap given as "
        "voltage, frequency, both or not at all, with or without normal resistance), mirrored by an independent "
        "model of the normalised state; non-trivial: at least two calls changed the state")
ASSUMPTIONS = ["CODATA 2019 values of h and e", "resistive part of the source impedance is not negative"]

H, E = 6.62607015e-34, 1.602176634e-19
PUNITS = {"W": 1.0, "mW": 1e-3, "uW": 1e-6, "nW": 1e-9, "pW": 1e-12, "fW": 1e-15, "dBm": None, "dBW": None}
FUNITS = {"Hz": 1.0, "MHz": 1e6, "GHz": 1e9, "THz": 1e12, "V": None, "mV": None, "norm": None}


def to_watt(x, unit):
    if unit == "dBm":
        return 10 ** (x / 10 - 3)
    if unit == "dBW":
        return 10 ** (x / 10)
    return x * PUNITS[unit]


def from_watt(w, unit):
    if unit == "dBm":
        return 10 * np.log10(w) + 30
    if unit == "dBW":
        return 10 * np.log10(w)
    return w / PUNITS[unit]


def whole(x, wanted):
    """The same number as an integer, if it is one and integers are wanted."""
    return int(round(x)) if wanted and abs(x - round(x)) <= 1e-11 * abs(x) and round(x) else x


@st.composite
def history(draw):
    nf, np_ = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    sig = st.tuples(st.integers(1, nf), st.integers(1, np_)).map(list)
    # (a nearly reactive source is still a source)
    zs = st.tuples(st.one_of(grid(0, 3, 60), grid(0, 3, 60), grid(1e-5, 1e-3, 20)), grid(-2, 2, 40)).map(list)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("zt"), sig, zs),
        st.tuples(st.just("vt"), sig, st.tuples(grid(-1, 1, 40), grid(-1, 1, 40)).map(list)),
        st.tuples(st.just("power"), sig, grid(-140, -20, 240), st.sampled_from(sorted(PUNITS)), st.booleans()),
        st.tuples(st.just("freq"), sig, grid(10, 1500, 298), st.sampled_from(sorted(FUNITS)), st.booleans()),
        st.tuples(st.just("alpha"), sig, grid(0, 3, 60), st.one_of(st.none(), grid(0.1, 2, 38))),
        st.tuples(st.just("name"), sig, st.sampled_from(["LO", "RF", "image", ""])),
        st.tuples(st.just("query"), sig, st.sampled_from(sorted(PUNITS))),
        st.tuples(st.just("silence"), sig, st.sampled_from(["W", "nW", "fW"])),
        st.tuples(st.just("unknown"), sig, st.sampled_from(["kW", "", "watt", "dB", "kHz", "nV", "rad/s"])),
    ).map(list), min_size=1, max_size=12))
    # most histories start with complete circuits
    if draw(st.integers(0, 2)):
        first = [["zt", [f, p], draw(st.one_of(st.tuples(grid(0.05, 3, 59), grid(-2, 2, 40)).map(list), zs))]
                 for f in range(1, nf + 1) for p in range(1, np_ + 1)]
        first += [["freq", [f, 1], draw(grid(10, 1500, 298)), "GHz", draw(st.booleans())] for f in range(1, nf + 1)]
        ops = first + ops
    gap = draw(st.sampled_from(["vgap", "fgap", "both", "vgap", "fgap", "none"]))
    a = draw(grid(-1, 1, 20))
    return {"nf": nf, "np": np_, "gap": gap, "vgap": draw(grid(1e-3, 4e-3, 300)),
            "fgap": draw(grid(300e9, 900e9, 600)), "rn": draw(st.one_of(st.none(), grid(2, 60, 116), grid(2, 60, 116))),
            "vb": [a, a + draw(grid(0, 3, 30)), draw(st.integers(1, 9))], "ops": ops, "lower": draw(st.booleans())}


def run_history(c, t):
    kw = {}
    vgap = fgap = None
    if c["gap"] in ("vgap", "both"):
        kw["vgap"] = vgap = c["vgap"]
    if c["gap"] in ("fgap", "both"):
        kw["fgap"] = fgap = c["fgap"]
    if c["gap"] == "vgap":
        fgap = vgap * E / H
    if c["gap"] == "fgap":
        vgap = fgap * H / E
    if c["rn"] is not None:
        kw["rn"] = c["rn"]
    rn = c["rn"]
    cct = EmbeddingCircuit(c["nf"], c["np"], vb_min=c["vb"][0], vb_max=c["vb"][1], vb_npts=c["vb"][2], **kw)
    n = (c["nf"] + 1, c["np"] + 1)
    freq, vt, zt = np.zeros(n[0]), np.zeros(n, dtype=complex), np.zeros(n, dtype=complex)
    names = [["" for _ in range(n[1])] for _ in range(n[0])]

    def rel(got, want, what):
        if want is None:
            t.check(got is None, "{} should not be set, got {}", what, got)
        else:
            t.check(got is not None, "{} is not set", what)
            t.close(np.asarray(got, dtype=float), np.asarray(want, dtype=float), 1e-9, what, scale=abs(want))

    rel(cct.vgap, vgap, "gap voltage")
    rel(cct.fgap, fgap, "gap frequency")
    rel(cct.rn, rn, "normal resistance")
    rel(cct.igap, None if vgap is None or rn is None else vgap / rn, "gap current")
    vb = np.linspace(*c["vb"])
    t.check(cct.num_n == c["nf"] * c["np"] and cct.num_f == c["nf"] and cct.num_p == c["np"]
            and cct.vb_npts == c["vb"][2], "wrong circuit dimensions")
    changed = 0

    def nothing(cct, f, p):     # no power is minus infinity on a logarithmic scale
        with np.errstate(all="ignore"):
            for u in ("dBm", "dBW"):
                got = cct.available_power(f, p, units=spelled(u))
                t.check(got == -np.inf, "no power reported as {} {}", got, u)

    def spelled(unit):          # units may be written in small letters
        return unit.lower() if c["lower"] else unit
    for op in c["ops"]:
        f, p = op[1]
        if op[0] == "zt":
            cct.zt[f, p] = zt[f, p] = complex(*op[2])
            changed += 1
        elif op[0] == "vt":
            cct.vt[f, p] = vt[f, p] = complex(*op[2])
            changed += 1
        elif op[0] == "name":
            cct.set_name(op[2], f, p)
            names[f][p] = op[2]
        elif op[0] == "power":
            unit = op[3]
            w = to_watt(op[2], "dBm")              # generated in dBm, given in `unit`
            val = whole(from_watt(w, unit), op[4])
            if vgap is None or rn is None or zt[f, p] == 0:
                t.raises(lambda: cct.set_available_power(val, f, p, units=unit),
                         "power accepted without gap voltage, resistance or impedance", AssertionError)
            else:
                cct.set_available_power(val, f, p, units=spelled(unit))
                vt[f, p] = np.sqrt(8 * w * zt[f, p].real * rn) / vgap
                changed += 1
                if zt[f, p].real > 0:
                    for u in PUNITS:
                        got = cct.available_power(f, p, units=spelled(u))
                        want = from_watt(w, u)
                        t.close(got, want, 1e-9, "available power set in %s and read in %s" % (unit, u),
                                scale=abs(want) + (1 if u in ("dBm", "dBW") else 0))
        elif op[0] == "freq":
            unit = op[3]
            hz = op[2] * 1e9
            if fgap is None:
                if unit == "norm":
                    cct.set_freq(op[2] / 1500, f, units="norm")
                    freq[f] = op[2] / 1500
                    changed += 1
                else:
                    t.raises(lambda: cct.set_freq(1.0, f, units=unit),
                             "frequency accepted without gap frequency", AssertionError)
            else:
                volts = hz / fgap * vgap
                val = {"V": volts, "mV": volts * 1e3, "norm": hz / fgap}.get(unit)
                if val is None:
                    val = hz / FUNITS[unit]
                val = whole(val, op[4])
                cct.set_freq(val, f, units=spelled(unit))
                freq[f] = hz / fgap
                changed += 1
        elif op[0] == "alpha":
            zj = op[3]
            kw = {} if zj is None else {"zj": zj}
            if zt[f, p] == 0 or freq[f] == 0:
                t.raises(lambda: cct.set_alpha(op[2], f, p, **kw),
                         "drive level accepted without impedance or frequency", AssertionError)
            else:
                cct.set_alpha(op[2], f, p, **kw)
                z = 0.66 if zj is None else zj
                vt[f, p] = op[2] * p * freq[f] * (zt[f, p] + z) / z
                changed += 1
                # the voltage left across zj is the requested level
                across = cct.vt[f, p] * z / (z + cct.zt[f, p])
                t.close(across, op[2] * p * freq[f], 1e-9, "drive level across the assumed junction impedance",
                        scale=1 + op[2] * p * freq[f])
        elif op[0] == "silence":
            if vgap is not None and rn is not None and zt[f, p] != 0:
                cct.set_available_power(0, f, p, units=op[2])
                vt[f, p] = 0
                changed += 1
                t.close(cct.available_power(f, p, units=op[2]), 0.0, 1e-300, "power of a silent source")
                nothing(cct, f, p)
        elif op[0] == "unknown":
            for call in (lambda: cct.set_freq(0.3, f, units=op[2]), lambda: cct.set_available_power(1, f, p, units=op[2]),
                         lambda: cct.available_power(f, p, units=op[2])):
                t.raises(call, "unit '%s' accepted" % op[2], (ValueError, AssertionError))
        elif op[0] == "query":
            if vgap is None or rn is None:
                t.raises(lambda: cct.available_power(f, p, units=op[2]), "power without gap voltage or resistance",
                         AssertionError)
            else:
                r = zt[f, p].real * rn
                w = np.abs(vt[f, p] * vgap) ** 2 / (8 * r) if r else 0.0
                if w > 0 or op[2] not in ("dBm", "dBW"):
                    want = from_watt(w, op[2])
                    t.close(cct.available_power(f, p, units=op[2]), want, 1e-9, "available power in " + op[2],
                            scale=abs(want) + (1 if op[2] in ("dBm", "dBW") else 1e-300))
                else:
                    nothing(cct, f, p)
        t.close(cct.freq, freq, 1e-9, "frequencies after " + op[0], scale=np.abs(freq) + 1e-30)
        t.close(cct.vph, freq, 1e-9, "photon voltages after " + op[0], scale=np.abs(freq) + 1e-30)
        t.close(cct.vt, vt, 1e-9, "source voltages after " + op[0], scale=np.abs(vt) + 1e-30)
        t.same(cct.zt, zt, "source impedances after " + op[0])
        t.close(cct.vb, vb, 1e-12, "bias sweep after " + op[0])
        t.check(cct.comment == names, "signal names after {}: {}", op[0], cct.comment)
        rel(cct.vgap, vgap, "gap voltage after " + op[0])
        rel(cct.fgap, fgap, "gap frequency after " + op[0])
    t.label("gap given as " + c["gap"])
    t.nontrivial(changed >= 2)
    report(c, t, cct, freq, vt, zt, fgap, vgap, rn)


def report(c, t, cct, freq, vt, zt, fgap, vgap, rn):
    """The printed summary shows the same physical values."""
    if fgap is None or vgap is None or rn is None or np.any(freq[1:] == 0):
        return
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        cct.print_info()
    text = re.sub(r"\x1b\[[0-9;]*m", "", buf.getvalue())
    ghz = [float(x) for x in re.findall(r"([-+0-9.]+) GHz x", text)]
    watt = [float(x) for x in re.findall(r"Avail\. power:\s+(\S+) W", text)]
    want_g, want_w = [], []
    for f in range(1, c["nf"] + 1):
        for p in range(1, c["np"] + 1):
            want_g.append(freq[f] * fgap / 1e9)
            r = zt[f, p].real * rn
            want_w.append(np.abs(vt[f, p] * vgap) ** 2 / (8 * r) if r else 0.0)
    t.close(ghz, want_g, 1, "frequencies in the printed summary", scale=0.0501)
    t.close(watt, want_w, 1, "powers in the printed summary", scale=np.abs(want_w) * 0.00501 + 1e-30)


@st.composite
def bad_case(draw):
    return {"nf": draw(st.sampled_from([0, 5, -1, 1, 2, 4, 7])), "np": draw(st.sampled_from([0, -1, 1, 2, 3, 1.5])),
            "npts": draw(st.sampled_from([0, -3, 1, 2, 50, 10.5])), "vb": [draw(grid(-1, 2, 30)), draw(grid(-1, 2, 30))]}


def refused(c, t):
    """Circuits exist for 1-4 tones, 1 or more harmonics and bias points, and an upward bias range only."""
    ok = c["nf"] in (1, 2, 3, 4) and c["np"] in (1, 2, 3) and c["npts"] in (1, 2, 50) and c["vb"][1] >= c["vb"][0]
    mk = lambda: EmbeddingCircuit(c["nf"], c["np"], vb_min=c["vb"][0], vb_max=c["vb"][1], vb_npts=c["npts"])    # noqa: E731
    if not ok:
        t.raises(mk, "impossible circuit accepted")
    else:
        cct = mk()
        t.check(cct.freq.shape == (c["nf"] + 1,) and cct.vt.shape == cct.zt.shape == (c["nf"] + 1, c["np"] + 1)
                and cct.initialize_vj().shape == (c["nf"] + 1, c["np"] + 1, c["npts"]), "sizes of the arrays")
        t.check(not np.any(cct.freq) and not np.any(cct.vt) and not np.any(cct.zt) and not np.any(cct.initialize_vj()), "a new circuit is not empty")
        t.close(cct.vb, np.linspace(c["vb"][0], c["vb"][1], c["npts"]), 1e-14, "bias sweep")
    t.nontrivial()


CHECKS = [Check("construction", bad_case(), refused, quick=400, thorough=4000),
          Check("conversions", history(), run_history, quick=3750, thorough=60000)]
