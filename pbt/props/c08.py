"""C08: circuits survive being saved and read back, and locking."""

import os

import numpy as np
from hypothesis import strategies as st

from qmix.circuit import EmbeddingCircuit, read_circuit
from qmix.harmonic_balance import harmonic_balance
from qmix.qtcurrent import qtcurrent
from pbt.core import SCRATCH, Check, grid
from pbt.sim import make_resp, quiet

PROPERTY = "C08"
RULE = ("cases: random circuits (1-4 tones, 1-12 harmonics, complex voltages and impedances of any sign up to 1e4, "
        "also exact zeros), saved and read back, twice; and lock/unlock histories; non-trivial: two or more signals "
        "and at least one non-zero value per array")
ASSUMPTIONS = ["the file format keeps 4 decimals of frequencies and voltages and 2 decimals of impedances"]

num = st.one_of(grid(-2, 2, 4000), st.floats(-2, 2), st.floats(-1e4, 1e4), st.just(0.0), st.floats(-1e-3, 1e-3))
cnum = st.tuples(num, num).map(list)


@st.composite
def circuit(draw):
    nf = draw(st.integers(1, 4))
    np_ = draw(st.sampled_from([1, 1, 2, 3, 4, 11, 12]))
    if np_ > 4:
        nf = min(nf, 2)
    return {"nf": nf, "np": np_,
            "freq": draw(st.lists(st.one_of(grid(0, 3, 30000), st.floats(0, 3)), min_size=nf, max_size=nf)),
            "vt": draw(st.lists(cnum, min_size=nf * np_, max_size=nf * np_)),
            "zt": draw(st.lists(cnum, min_size=nf * np_, max_size=nf * np_)),
            "name": draw(st.sampled_from(["", "LO", "f=3, p=2", "a b"])),
            "junction": draw(st.booleans()), "file": draw(st.sampled_from(["given", "given", "default"]))}


def build(c):
    kw = {"vgap": 2.8e-3, "rn": 14.0} if c["junction"] else {}
    cct = EmbeddingCircuit(c["nf"], c["np"], name=c["name"], **kw)
    cct.freq[1:] = c["freq"]
    cct.vt[1:, 1:] = np.array([complex(*x) for x in c["vt"]]).reshape(c["nf"], c["np"])
    cct.zt[1:, 1:] = np.array([complex(*x) for x in c["zt"]]).reshape(c["nf"], c["np"])
    cct.set_name(c["name"], c["nf"], c["np"])
    return cct


def round_trip(c, t):
    cct = build(c)
    path = os.path.join(SCRATCH, "c08-%d.txt" % os.getpid())
    if c["file"] == "given":
        cct.save_info(path)
    else:                       # the documented name in the working directory
        here, there = os.getcwd(), path + ".d"
        os.makedirs(there, exist_ok=True)
        os.chdir(there)
        try:
            cct.save_info()
        finally:
            os.chdir(here)
        t.check(os.listdir(there) == ["embedding-circuit.txt"], "files written: {}", os.listdir(there))
        os.replace(os.path.join(there, "embedding-circuit.txt"), path)
    text = open(path).read()
    got = read_circuit(path)
    t.check(got.num_f == c["nf"] and got.num_p == c["np"] and got.num_n == c["nf"] * c["np"],
            "the circuit read back has {} tones and {} harmonics", got.num_f, got.num_p)

    def near(a, b, half, what):
        t.check(a.shape == b.shape, "{}: wrong shape", what)
        for part in (np.real, np.imag):
            t.close(part(a), part(b), 1, what, scale=half + 1e-9 * np.abs(part(b)))

    near(got.freq, cct.freq, 0.5e-4, "frequencies read back")
    near(got.vt, cct.vt, 0.5e-4, "source voltages read back")
    near(got.zt, cct.zt, 0.5e-2, "source impedances read back")
    path2 = path + "2"
    got.save_info(path2)
    text2 = open(path2).read()
    again = read_circuit(path2)
    for a in ("freq", "vt", "zt"):
        t.same(getattr(again, a), getattr(got, a), "saving and reading a second time changed " + a)
    t.check(text.replace("-0.0", "0.0").replace("+0.0", "0.0") == text2.replace("-0.0", "0.0").replace("+0.0", "0.0"),
            "saving the circuit read back gives another file")
    # a file written over a longer one must not keep old signals
    small = EmbeddingCircuit(1, 1)
    small.freq[1] = 0.25
    small.save_info(path)
    s = read_circuit(path)
    t.check((s.num_f, s.num_p) == (1, 1) and s.freq[1] == 0.25 and s.vt[1, 1] == 0, "overwritten file mixed up")
    os.remove(path)
    os.remove(path2)
    for a, b in zip((cct.freq, cct.vt, cct.zt), (build(c).freq, build(c).vt, build(c).zt)):
        t.same(a, b, "saving modified the circuit")
    t.nontrivial(c["nf"] * c["np"] >= 2 and np.any(cct.freq) and np.any(cct.vt) and np.any(cct.zt))


@st.composite
def lock_case(draw):
    c = draw(circuit())
    c["ops"] = draw(st.lists(st.sampled_from(["lock", "lock", "unlock", "freq", "vt", "zt", "vb", "print", "save", "set_freq", "set_power", "set_alpha", "solve"]),
                             min_size=2, max_size=12))
    return c


def locking(c, t):
    cct = build(c)
    locked = False
    blocked = 0
    for op in c["ops"]:
        if op == "lock":
            cct.lock()
            locked = True
        elif op == "unlock":
            cct.unlock()
            locked = False
        elif op == "print":
            if c["junction"] and np.all(cct.freq[1:] > 0):
                with quiet():
                    cct.print_info()
        elif op == "save":
            path = os.path.join(SCRATCH, "c08l-%d.txt" % os.getpid())
            cct.save_info(path)
            os.remove(path)
        elif op.startswith("set_"):
            f, p = c["nf"], c["np"]
            arr = cct.freq if op == "set_freq" else cct.vt
            if op == "set_power" and (not c["junction"] or not cct.zt[f, p].real > 0) or op == "set_alpha" and not (cct.zt[f, p] and cct.freq[f]):
                continue
            call = {"set_freq": lambda: cct.set_freq(0.4321, f, units="norm"), "set_power": lambda: cct.set_available_power(1e-9, f, p),
                    "set_alpha": lambda: cct.set_alpha(0.9, f, p)}[op]
            old = arr.copy()
            if locked:
                t.raises(call, "%s changes a locked circuit" % op, ValueError)
                t.same(arr, old, "%s changed a locked circuit" % op)
                blocked += 1
            else:
                try:
                    call()
                except ValueError:
                    t.check(False, "{} fails on an unlocked circuit", op)
        elif op == "solve":             # simulations neither change locks nor need an unlocked circuit
            if not np.all(np.abs(cct.vt) < 1) or c["nf"] > 2 or c["np"] > 1 or np.min(cct.freq[1:]) < 0.1:
                continue
            with quiet():
                harmonic_balance(cct, make_resp("poly10"), num_b=4, max_it=0, verbose=False)
                qtcurrent(cct.initialize_vj(), cct, make_resp("poly10"), cct.freq[1:], num_b=4, verbose=False)
        else:
            arr = getattr(cct, op)
            old = arr.copy()
            idx = (1,) * arr.ndim if op != "vb" else (0,)
            if locked:
                t.raises(lambda: arr.__setitem__(idx, 0.5), "%s of a locked circuit can be changed" % op, ValueError)
                t.same(arr, old, "%s of a locked circuit changed" % op)
                blocked += 1
            else:
                try:
                    arr[idx] = 0.5
                except ValueError:
                    t.check(False, "{} of an unlocked circuit cannot be changed", op)
    t.nontrivial(blocked > 0)


CHECKS = [
    Check("round_trip", circuit(), round_trip, quick=2000, thorough=40000),
    Check("locking", lock_case(), locking, quick=800, thorough=12000),
]
