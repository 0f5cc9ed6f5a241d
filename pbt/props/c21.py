"""C21: hot/cold spectra give the noise temperature of the receiver at every IF frequency."""

import numpy as np
from hypothesis import strategies as st

from qmix.exp.if_response import if_response
from pbt.core import Check, grid

PROPERTY = "C21"
RULE = ("cases: hot and cold spectra in dBm of a receiver with known noise temperature and gain (over 12 decades) at 0-60 IF frequencies, "
        "some points without response, hot below cold, or a Y-factor no receiver can have; row or column layout, load temperatures "
        "and cap given or default; non-trivial: at least 3 frequencies with different noise temperatures below the cap")
ASSUMPTIONS = ["hot load warmer than cold load", "three points in row layout are read as columns (the layout is then ambiguous)",
               "cap of at most 1e6 K"]

point = st.fixed_dictionaries({"f": grid(0, 20, 2000), "tn": st.one_of(grid(1, 2000, 4000), st.sampled_from([0.0, 1e4, 3e5])),
                               "g": grid(-120, 20, 1400), "kind": st.sampled_from(["ok", "ok", "ok", "ok", "equal", "inverted", "impossible"]),
                               "x": grid(0.01, 3, 300)})


@st.composite
def case(draw):
    return {"p": draw(st.one_of(st.lists(point, max_size=5), st.lists(point, min_size=4, max_size=60))),
            "th": draw(st.one_of(st.none(), grid(120, 400, 280))), "tc": draw(st.one_of(st.none(), grid(3, 100, 97))),
            "cap": draw(st.one_of(st.none(), st.sampled_from([100.0, 1000.0, 5e3]))), "rows": draw(st.booleans()),
            "ro": draw(st.booleans()), "order": draw(st.sampled_from(["C", "F"])), "shift": draw(grid(-60, 60, 120))}


def spectrum(c):
    """Data in columns, true noise temperatures, and which of them are to be expected."""
    th, tc = c["th"] or 293.0, c["tc"] or 78.0
    cap = c["cap"] or 1e6
    f, hot, cold, want = [], [], [], []
    for p in c["p"]:
        f.append(p["f"])
        a = 10 * np.log10(p["tn"] + th) + p["g"]
        b = 10 * np.log10(p["tn"] + tc) + p["g"]
        w = min(p["tn"], cap)
        if p["kind"] == "equal":
            a, w = b, cap
        elif p["kind"] == "inverted":
            a, w = b - p["x"], cap
        elif p["kind"] == "impossible":         # a larger Y-factor than a noiseless receiver has
            a, w = b + 10 * np.log10(th / tc) + p["x"], cap
        hot.append(a)
        cold.append(b)
        want.append(w)
    return np.array([f, hot, cold]).T.reshape(-1, 3), np.array(want), th, tc, cap


def call(c, data):
    kw = {}
    for k, name in (("th", "t_hot"), ("tc", "t_cold"), ("cap", "ifresp_maxtn")):
        if c[k] is not None:
            kw[name] = c[k]
    keep = data.copy()
    out = if_response(data, **kw)
    return out, np.array_equal(data, keep)


def receiver(c, t):
    d, want, th, tc, cap = spectrum(c)
    n = len(want)
    rows = c["rows"] and n != 3
    data = np.array(d.T if rows else d, order=c["order"])
    data.flags.writeable = not c["ro"]
    out, kept = call(c, data)
    t.check(kept, "the data was modified")
    t.check(isinstance(out, np.ndarray) and out.shape == (4, n), "shape of the result")
    f, tn, hot, cold = out
    t.same(f, d[:, 0], "frequency")
    t.same(hot, d[:, 1], "hot power")
    t.same(cold, d[:, 2], "cold power")
    y = 10 ** ((hot - cold) / 10)
    # rounding of the powers limits what can be known
    tol = np.where(want >= cap, 0.0, 1e-11 * (th - tc) / np.maximum(y - 1, 1e-9) ** 2 + 1e-9 * (th + want))
    for k in range(n):
        p = c["p"][k]
        if p["kind"] == "ok" and (abs(p["tn"] - cap) < 1e-3 * cap or p["tn"] < 1e-6):
            # at the cap, or a noiseless receiver: rounding decides
            t.check(min(abs(tn[k] - want[k]), abs(tn[k] - cap)) <= 2e-3 * cap or abs(tn[k]) < 1e-6, "noise temperature at a limit: {}", tn[k])
            continue
        t.check(abs(tn[k] - want[k]) <= tol[k] + 1e-12 * cap, "noise temperature {} at {} GHz, expected {} ({})", tn[k], f[k], want[k], p["kind"])
    t.check(np.all((tn >= 0) & (tn <= cap)), "noise temperature outside 0..cap")
    # gain cancels, and neighbouring points do not matter
    if n and n != 1:
        s = d.copy()
        s[:, 1:] += c["shift"]
        tn2 = call(c, s)[0][1]
        ok = np.array([p["kind"] == "ok" and 0.1 <= p["tn"] < 0.9 * cap for p in c["p"]])
        t.close(tn2[ok], tn[ok], 1, "noise temperature after a change of gain", scale=2 * tol[ok] + 1e-9)
        if n > 4:
            part = d[::2]
            if len(part) != 3:
                t.close(call(c, part)[0][1][ok[::2]], tn[::2][ok[::2]], 1, "noise temperature of part of the spectrum", scale=tol[::2][ok[::2]])
            t.close(call(c, d[::-1])[0][1][::-1][ok], tn[ok], 1, "noise temperature of the reversed spectrum", scale=tol[ok])
    t.nontrivial(len({p["tn"] for p in c["p"] if p["kind"] == "ok" and p["tn"] < cap}) >= 3)
    t.label("rows", rows)
    t.label("no_response", any(p["kind"] != "ok" for p in c["p"]))


def refused(c, t):
    n = max(len(c["p"]), 4)
    d = np.resize(spectrum(c)[0], (n, 3)) if c["p"] else np.zeros((n, 3))
    err = (ValueError, AssertionError, TypeError)
    for what, bad in (("a list", d.tolist()), ("a path", "spectrum.dat"), ("None", None), ("one dimension", d[:, 0]),
                      ("three dimensions", d[:, :, None]), ("two columns", d[:, :2]), ("four columns", np.c_[d, d[:, 0]])):
        if what == "four columns" and n == 4:
            continue
        if isinstance(bad, np.ndarray) and bad.ndim == 2 and 3 in bad.shape:
            continue
        t.raises(lambda: if_response(bad), what + " accepted", err)
    t.nontrivial(len(c["p"]) > 3)


CHECKS = [
    Check("receiver", case(), receiver, quick=3000, thorough=150000),
    Check("refused", case(), refused, quick=300, thorough=3000),
]
