"""C06: simulations leave their inputs alone and are reproducible in any order."""

import copy
import os

import numpy as np
from hypothesis import strategies as st

import qmix.respfn as respfn
from qmix.circuit import read_circuit
from qmix.harmonic_balance import check_hb_error, harmonic_balance
from qmix.mathfn.filters import gauss_conv
from qmix.mathfn.ivcurve_models import expanded, exponential, perfect, perfect_kk, polynomial
from qmix.mathfn.kktrans import kk_trans
from qmix.mathfn.misc import slope, slope_span_n
from qmix.qtcurrent import interpolate_respfn, qtcurrent
from pbt.core import SCRATCH, Check, grid
from pbt.hb import hb_case, hb_circuit, num_b_of, nb_list, residual, resolved, slack
from pbt.sim import analytic_resp, build_vj, make_resp, matches, pool_resp, quiet, ref_at

PROPERTY = "C06"
RULE = ("cases: histories of up to 14 interleaved calls (current calculation with and without a prepared response "
        "matrix, harmonic balance in every mode with and without initial guess, error checks, printing, saving, "
        "interpolation, numerical helpers) on 1-3 shared circuits, some of them locked; non-trivial: at least three "
        "calls, one of them a repeat of an earlier call after a different one")
ASSUMPTIONS = ["single-threaded use"]

OPS = ["current", "current_matrix", "balance_o", "balance_x", "balance_m", "balance_init", "error_check",
       "print", "save", "interp", "circuit_queries"]


@st.composite
def history(draw):
    n = draw(st.integers(1, 3))
    ccts = [draw(hb_case(tones=(1, 1, 2))) for _ in range(n)]
    for c in ccts:
        c["max_it"] = draw(st.sampled_from([2, 4, 8]))
        c["locked"] = draw(st.booleans())
        c["idle"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:
            c["zt"] = [[[0.0, 0.0] for _ in r] for r in c["zt"]]
    if n > 1 and draw(st.integers(0, 2)):
        # twins: same circuit and drive, but another response function or sweep
        ccts[1] = dict(copy.deepcopy(ccts[0]), **{k: ccts[1][k] for k in draw(st.sampled_from(
            [["resp"], ["vb"], ["zt"], ["locked"], [], []])) if k != "zt" or len(ccts[0]["zt"]) == len(ccts[1]["zt"])
            and len(ccts[0]["zt"][0]) == len(ccts[1]["zt"][0])})
        # ... or sweeps that agree in everything but the points between the limits
        if draw(st.booleans()):
            a = draw(st.sampled_from([0.4, 0.9, 1.2]))
            for cc, how in zip(ccts, draw(st.sampled_from([[None, "dense_low"], ["dense_high", None], ["dense_low", "dense_high"]]))):
                cc["vb"] = [a, a + 0.5, 4] + ([how] if how else [])
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        if len(ops) > 1 and draw(st.booleans()):
            ops.append(ops[draw(st.integers(0, len(ops) - 1))])      # an earlier call again
        else:
            ops.append([draw(st.sampled_from(OPS)), draw(st.integers(0, n - 1)), draw(st.integers(0, 1))])
    return {"ccts": ccts, "ops": [list(o) for o in ops]}


def arrays(obj):
    return {k: (v.copy() if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in vars(obj).items()}


def unchanged(t, before, obj, what):
    now = vars(obj)
    t.check(set(before) == set(now), "{} gained or lost attributes", what)
    for k, v in before.items():
        if isinstance(v, np.ndarray):
            t.same(now[k], v, "%s: %s was modified" % (what, k))
        else:
            t.check(now[k] == v, "{}: {} was modified", what, k)


def run_history(c, t):
    world, resps = [], {}
    for cc in c["ccts"]:
        cct = hb_circuit(cc, t)
        if cc["idle"]:
            cct.vt[1, cct.num_p] = 0.0
        cct.vgap, cct.fgap, cct.rn, cct.igap = 2.8e-3, 677e9, 14.0, 2e-4
        vj = [build_vj(dict(cc, ramp=0.3), cct), build_vj(dict(cc, alpha=[[a * 0.5 for a in r] for r in cc["alpha"]],
                                                               ramp=0.0), cct)]
        if cc["locked"]:
            cct.lock()
        # the same description is the same response function object
        key = repr(cc["resp"])
        if key not in resps:
            resps[key] = make_resp(cc["resp"])
        world.append((cc, cct, resps[key], vj))
    before = [(arrays(w[1]), [v.copy() for v in w[3]]) for w in world]
    for _, _, r, _ in world:
        if hasattr(r, "voltage"):
            r.voltage, r.current
    resp_before = [r.resp(np.linspace(-2, 2, 9)).copy() for _, _, r, _ in world]
    seen, repeats, last = {}, 0, None
    for step, (op, i, k) in enumerate(c["ops"]):
        cc, cct, resp, vjs = world[i]
        out = one(t, op, cc, cct, resp, vjs, k)
        key = (op, i, k)
        if key in seen:
            repeats += key != last
            for a, b in zip(seen[key], out):
                t.same(b, a, "step %d (%s): repeating the call gave another result" % (step, op))
        else:
            seen[key] = [np.array(o, copy=True) for o in out]
        last = key
        for (b, vb), (w, cj, rj, vv), r0 in zip(before, world, resp_before):
            unchanged(t, b, cj, "step %d (%s), circuit" % (step, op))
            for a0, a1 in zip(vb, vv):
                t.same(a1, a0, "step %d (%s): the junction voltage passed in was modified" % (step, op))
            t.same(rj.resp(np.linspace(-2, 2, 9)), r0, "step %d (%s): the response function changed" % (step, op))
    t.label("repeat", repeats)
    t.label("locked", any(w[0]["locked"] for w in world))
    t.nontrivial(len(c["ops"]) >= 3 and repeats > 0)


def one(t, op, cc, cct, resp, vjs, k):
    nb = num_b_of(cc)
    vj = vjs[k]
    outs = [0.0] + [f * (p + 1) for f in cc["freq"] for p in range(cct.num_p)]
    hb = dict(num_b=nb, max_it=cc["max_it"], stop_rerror=cc["stop"])
    with quiet():
        if op in ("current", "current_matrix"):
            req = list(outs)
            if op == "current":
                cur = qtcurrent(vj, cct, resp, req, num_b=nb, verbose=bool(k))
            else:
                m = interpolate_respfn(cct, resp, nb)
                m0 = m.copy()
                cur = qtcurrent(vj, cct, resp, req, num_b=nb, verbose=False, resp_matrix=m)
                t.same(m, m0, "the response matrix passed in was modified")
            t.check(req == outs, "the list of output frequencies was modified")
            if matches(cc["freq"], cct.num_p, 0.0) is not None:
                for f, got in zip(outs, cur):
                    want = ref_at(cc["freq"], vj, cct.vb, resp, nb_list(cc), cct.num_p, f)
                    if want is None:
                        continue
                    t.close(got, want, 1e-5, "current within a history of calls",
                            scale=1 + np.max(np.abs(cct.vb)) + float(np.dot(nb_list(cc), cc["freq"])))
            return [cur]
        if op == "balance_o":
            return [harmonic_balance(cct, resp, mode="o", verbose=bool(k), **hb)]
        if op == "balance_x":
            v, n, ok = harmonic_balance(cct, resp, mode="x", verbose=False, **hb)
            return [v, n, ok]
        if op == "balance_m":
            v, m = harmonic_balance(cct, resp, mode="m", verbose=False, **hb)
            if (cct.zt[1:, 1:] != 0).any() and np.all(m) and resolved(cc, cct, v):
                # (the circuit may have an idle source: judge with the reference)
                err, _ = residual(cc, cct, resp, v)
                lim = cc["stop"] * np.abs(v[1:, 1:]) * (1 + 1e-6) + 10 * slack(cct)
                t.check(np.all(err <= lim), "converged solution misses a circuit equation within a history of calls")
            return [v, m]
        if op == "balance_init":
            return [harmonic_balance(cct, resp, mode="o", verbose=False, vj_initial=vj, **hb)]
        if op == "error_check":
            try:
                check_hb_error(vj, cct, resp, num_b=nb)
                return [1]
            except AssertionError:
                return [0]
        if op == "print":
            cct.print_info()
            return [0]
        if op == "save":
            path = os.path.join(SCRATCH, "c06-%d.txt" % os.getpid())
            cct.save_info(path)
            d = read_circuit(path)
            os.remove(path)
            return [d.freq, d.vt, d.zt]
        if op == "interp":
            v = np.linspace(-1.7, 1.9, 13 + k)
            v0 = v.copy()
            out = [resp(v), resp.idc(v), resp.ikk(v), resp.resp_conj(v), resp.resp_swap(v)]
            t.same(v, v0, "the voltages passed in were modified")
            return out
        if op == "circuit_queries":
            j = cct.initialize_vj()
            t.check(np.all(j == 0) and j.shape == vj.shape, "initial junction voltage must be an empty array")
            j += 1.0
            return [str(cct), [[cct.available_power(f, p) for p in range(1, cct.num_p + 1)]
                               for f in range(1, cct.num_f + 1)]]
    raise AssertionError(op)


# -- numerical helpers -------------------------------------------------------

@st.composite
def helper_case(draw):
    return {"n": draw(st.integers(40, 200)), "seed": draw(st.integers(0, 10 ** 6)),
            "sigma": draw(grid(0.5, 4, 14)), "order": draw(st.sampled_from([1, 5, 30])),
            "fns": draw(st.lists(st.integers(0, 9), min_size=3, max_size=10))}


def helpers(c, t):
    rng = np.random.default_rng(c["seed"])
    v = np.linspace(-2, 2, c["n"])
    y = rng.normal(size=c["n"])
    fns = [lambda: gauss_conv(y, c["sigma"]), lambda: slope(v, y), lambda: slope_span_n(v, y, 5),
           lambda: slope_span_n(v, np.zeros_like(y), 7), lambda: perfect(v), lambda: perfect_kk(v),
           lambda: polynomial(v, c["order"]), lambda: exponential(v), lambda: expanded(v), lambda: kk_trans(v, y, 4)]
    v0, y0 = v.copy(), y.copy()
    seen = {}
    for k in c["fns"]:
        out = fns[k]()
        t.same(v, v0, "the x data passed in were modified")
        t.same(y, y0, "the y data passed in were modified")
        t.check(not np.shares_memory(out, v) and not np.shares_memory(out, y), "the result aliases its input")
        if k in seen:
            t.same(out, seen[k], "repeating the call gave another result")
        else:
            seen[k] = np.array(out, copy=True)
            out[:] = 7.0          # spoiling a result must not affect later calls
    t.nontrivial(len(set(c["fns"])) >= 2)


@st.composite
def build_case(draw):
    return {"kind": draw(st.sampled_from(["RespFn", "RespFnFromIVData"])), "smear": draw(st.sampled_from([None, 0.03])),
            "order": draw(st.sampled_from([8, 20, 40])), "twice": draw(st.booleans())}


def building(c, t):
    v = np.linspace(0, 35, 7001)
    i = polynomial(v, c["order"]) + 0.01 * v
    if c["kind"] == "RespFnFromIVData":
        v, i = np.linspace(-0.01, 3, 901), np.interp(np.linspace(-0.01, 3, 901), v, i)
    v0, i0 = v.copy(), i.copy()
    kw = {"verbose": False, "v_smear": c["smear"]}
    kw0 = dict(kw)
    cls = getattr(respfn, c["kind"])
    x = np.linspace(-1.5, 1.5, 31)
    a = cls(v, i, **kw)
    ra = a(x).copy()
    t.same(v, v0, "the voltage data were modified")
    t.same(i, i0, "the current data were modified")
    t.check(kw == kw0, "the keyword arguments were modified")
    respfn.RespFnPolynomial(30, verbose=False)
    respfn.RespFnExponential(verbose=False, max_npts_dc=50)
    b = cls(v, i, **kw)
    t.same(b(x), ra, "building the same response function again gave another one")
    t.same(a(x), ra, "a response function changed when others were built")
    i[:] = 0.0
    t.same(a(x), ra, "a response function follows later changes of the data it was built from")
    t.nontrivial()


@st.composite
def short_lived_case(draw):
    c = draw(hb_case(tones=(1, 1, 2)))
    c["max_it"] = draw(st.sampled_from([2, 4]))
    c["resps"] = draw(st.lists(st.one_of(analytic_resp, pool_resp), min_size=2, max_size=4))
    c["scales"] = draw(st.lists(st.sampled_from([1.0, 0.5, 1.25]), min_size=2, max_size=4))
    c["order"] = draw(st.lists(st.integers(0, 11), min_size=3, max_size=10))
    c["op"] = draw(st.sampled_from(["current", "current", "matrix", "balance", "interp", "helpers"]))
    return c


def short_lived(c, t):
    """Objects made for one call and dropped again: nothing may be remembered for the next one at the same address."""
    hb_circuit(c, t)

    def make(k):
        desc, scale = c["resps"][k % len(c["resps"])], c["scales"][k % len(c["scales"])]
        cct = hb_circuit(c, t)
        cct.vt = cct.vt * scale
        return copy.copy(make_resp(desc)), cct, build_vj(dict(c, alpha=[[a * scale for a in r] for r in c["alpha"]], ramp=0.2), cct)

    def run(resp, cct, vj):
        nb = num_b_of(c)
        with quiet():
            if c["op"] == "current":
                return qtcurrent(vj, cct, resp, [0.0] + list(c["freq"]), num_b=nb, verbose=False)
            if c["op"] == "matrix":
                return interpolate_respfn(cct, resp, nb).copy()
            if c["op"] == "balance":
                return harmonic_balance(cct, resp, num_b=nb, max_it=c["max_it"], stop_rerror=c["stop"], verbose=False)
            v = cct.vb.real + np.linspace(0, 1, len(cct.vb))
            if c["op"] == "interp":
                return np.array([resp(v), resp.idc(v), resp.ikk(v), resp.resp_swap(v)])
            x = np.linspace(0, 2, 64) * (1 + np.abs(vj[1, 1, 0]))
            y = resp.idc(x)
            return np.array([gauss_conv(y, 2.0), slope(x, y), slope_span_n(x, y, 5), perfect(x), perfect_kk(x),
                             polynomial(x, 20), exponential(x), expanded(x), kk_trans(x, y, 4)])

    n = len(c["resps"]) * len(c["scales"])
    kept = [make(k) for k in range(n)]
    want = [np.array(run(*w), copy=True) for w in kept]
    for step, k in enumerate(c["order"]):
        k %= n
        t.same(run(*make(k)), want[k], "call %d with short-lived objects differs from the same call with kept ones" % step)
    t.label(c["op"])
    t.nontrivial(len({k % n for k in c["order"]}) > 1)


CHECKS = [
    Check("short_lived", short_lived_case(), short_lived, quick=240, thorough=6000),
    Check("histories", history(), run_history, quick=480, thorough=8000),
    Check("helpers", helper_case(), helpers, quick=600, thorough=6000),
    Check("building", build_case(), building, quick=12, thorough=12, shards=4),
]
