"""Development tool (no check uses it): small generated changes to one source file, run against the tests and the checks.

usage: mutate.py FILE CHECKS N SEED OUT [--scale X]     e.g. mutate.py qmix/exp/iv_data.py C15,C16 40 1 /tmp/m.txt
Changes that pass the tests and every check named are written to OUT: each is either harmless or a blind spot.
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import fresh, in_copy  # noqa: E402

CMP = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*")}


def offsets(src):
    out, n = [0], 0
    for line in src.splitlines(True):
        n += len(line.encode())
        out.append(n)
    return out


def mutants(src):
    tree = ast.parse(src)
    raw = src.encode()
    off = offsets(src)

    def a(n):
        return off[n.lineno - 1] + n.col_offset

    def b(n):
        return off[n.end_lineno - 1] + n.end_col_offset
    res = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SYM:
            lo, hi = b(n.left), a(n.comparators[0])
            sym = SYM[type(n.ops[0])]
            gap = raw[lo:hi].decode()
            for r in CMP[sym]:
                res.append((lo, hi, gap.replace(sym, r, 1), n.lineno))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            left, right = (n.left, n.right) if isinstance(n, ast.BinOp) else (n.target, n.value)
            lo, hi = b(left), a(right)
            gap = raw[lo:hi].decode()
            s, r = BIN[type(n.op)]
            if gap.count(s) == 1 or s == "**":
                res.append((lo, hi, gap.replace(s, r, 1), n.lineno))
        elif isinstance(n, ast.BoolOp):
            lo, hi = b(n.values[0]), a(n.values[1])
            gap = raw[lo:hi].decode()
            w, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            res.append((lo, hi, gap.replace(w, r, 1), n.lineno))
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                res.append((a(n), b(n), str(not n.value), n.lineno))
            elif isinstance(n.value, int):
                res.append((a(n), b(n), str(n.value + 1), n.lineno))
                if n.value > 0:
                    res.append((a(n), b(n), str(n.value - 1), n.lineno))
            elif isinstance(n.value, float):
                res.append((a(n), b(n), repr(n.value * 1.1 if n.value else 0.1), n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            res.append((a(n), b(n), raw[a(n.operand):b(n.operand)].decode(), n.lineno))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == "copy":
                res.append((a(n), b(n), raw[a(n.func.value):b(n.func.value)].decode(), n.lineno))
            for x, y in (("argmin", "argmax"), ("argmax", "argmin"), ("min", "max"), ("max", "min"), ("real", "imag"), ("sin", "cos")):
                if n.func.attr == x:
                    lo = b(n.func) - len(x)
                    res.append((lo, lo + len(x), y, n.lineno))
        elif isinstance(n, ast.Attribute) and n.attr in ("real", "imag"):
            lo = b(n) - 4
            res.append((lo, lo + 4, "imag" if n.attr == "real" else "real", n.lineno))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and n.value in docs):
            res.append((a(n), b(n), "pass", n.lineno))
        elif isinstance(n, ast.If):
            res.append((a(n.test), b(n.test), "True", n.lineno))
            res.append((a(n.test), b(n.test), "False", n.lineno))
    out = []
    for lo, hi, new, line in res:
        m = raw[:lo] + new.encode() + raw[hi:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        if m != raw:
            out.append((line, raw[lo:hi].decode(), new, m.decode()))
    return out


def one(job):
    rel, checks, scale, (line, old, new, text) = job
    tmp = tempfile.mkdtemp(prefix="mut.")
    try:
        copy = fresh(tmp)
        open(os.path.join(copy, rel), "w").write(text)
        src = text.splitlines()[line - 1].strip()
        name = "%s:%d  %r -> %r   | %s" % (rel, line, old, new, src[:110])
        r = in_copy(copy, "HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=%s/mpl timeout 200 /opt/venv/bin/python -m "
                          "pytest -x -q -p no:cacheprovider --timeout=120 tests" % tmp, tmp)
        if r.returncode:
            return "tests", name
        for c in checks:
            r = in_copy(copy, "cd /verif && VERIF_SEED=1 timeout 900 bash check.sh %s quick --scale %s" % (c, scale), tmp)
            if r.returncode:
                return "%s%s" % (c, "" if r.returncode == 1 else " rc=%d %s" % (r.returncode, r.stdout[-300:])), name
        return "SURVIVED", name
    finally:
        shutil.rmtree(tmp)


def main():
    rel, checks, n, seed, out = sys.argv[1:6]
    scale = sys.argv[7] if len(sys.argv) > 7 else "0.5"
    ms = mutants(open(os.path.join("/repo", rel)).read())
    rng = random.Random(int(seed))
    rng.shuffle(ms)
    seen, pick = {}, []
    for m in ms:                                    # at most two per line
        if seen.get(m[0], 0) < 2:
            seen[m[0]] = seen.get(m[0], 0) + 1
            pick.append(m)
    pick = pick[:int(n)]
    jobs = [(rel, checks.split(","), scale, m) for m in pick]
    with ThreadPoolExecutor(4) as ex, open(out, "a") as f:
        for what, name in ex.map(one, jobs):
            f.write("%-10s %s\n" % (what, name))
            f.flush()


if __name__ == "__main__":
    main()
