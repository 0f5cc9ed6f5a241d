"""C14: data cleaning keeps exactly one genuine measurement per voltage, in order, and drops nothing else."""

import numpy as np
from hypothesis import strategies as st

from qmix.exp import clean_data as cd
from pbt.core import Check, grid

PROPERTY = "C14"
RULE = ("cases: two-column data of any length (also empty, one point, all NaN) with NaNs in either column, repeated, "
        "negative, infinite and unsorted voltages; non-trivial: at least 4 points with an out-of-order pair, a NaN or a "
        "repeated voltage")
ASSUMPTIONS = ["which of several measurements at one voltage survives is left open"]

val = st.one_of(grid(-3, 3, 12), grid(-3, 3, 6000), st.sampled_from([0.0, -0.0, 1e-12, 1e9, -1e9]))
xval = st.one_of(val, val, val, st.just("nan"), st.sampled_from([1.0, 2.0, 2.0]), st.sampled_from([1.0, "inf", "-inf"]))
yval = st.one_of(val, val, val, val, st.just("nan"), st.sampled_from([1.0, "inf", "-inf"]))


def arr(q):
    return np.array([float(k) for k in q], dtype=float)


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 60)))
    return {"x": draw(st.lists(xval, min_size=n, max_size=n)), "y": draw(st.lists(yval, min_size=n, max_size=n)),
            "inf": draw(st.sampled_from([0, 0, 0, 1, 2])), "ro": draw(st.booleans())}


def pairs(x, y):
    return [(float(a), float(b)) for a, b in zip(x, y)]


def clean(c, t):
    x, y = arr(c["x"]), arr(c["y"])
    for k in range(min(c["inf"], len(x))):
        x[k] = np.inf
    if c["ro"]:
        x.flags.writeable = y.flags.writeable = False
    x0, y0 = x.copy(), y.copy()
    good = [(a, b) for a, b in pairs(x, y) if not (np.isnan(a) or np.isnan(b))]
    cx, cy = cd.clean_xy(x, y)
    t.same(x, x0, "x was modified")
    t.same(y, y0, "y was modified")
    t.check(cx.shape == cy.shape and cx.ndim == 1, "shapes differ")
    t.check(np.all(cx[1:] > cx[:-1]), "cleaned voltages are not strictly increasing: {}", cx)
    t.check(set(pairs(cx, cy)) <= set(good), "cleaned data has points which were not measured")
    t.check({a for a, _ in good} == set(cx.tolist()), "cleaned data lost voltages: {} from {}", cx, x)
    # idempotent
    dx, dy = cd.clean_xy(cx, cy)
    t.same(dx, cx, "cleaning twice changes x")
    t.same(dy, cy, "cleaning twice changes y")
    # matrix form
    m = cd.xy_to_matrix(x, y)
    t.check(m.shape == (len(x), 2), "matrix shape")
    bx, by = cd.matrix_to_xy(m)
    t.same(bx, x, "matrix round trip, x")
    t.same(by, y, "matrix round trip, y")
    if c["ro"]:
        m.flags.writeable = False
    m0 = m.copy()
    cm = cd.clean_matrix(m)
    t.same(m, m0, "matrix was modified")
    t.same(cm[:, 0], cx, "matrix form keeps other voltages than array form")
    t.check(set(pairs(cm[:, 0], cm[:, 1])) <= set(good), "cleaned matrix has points which were not measured")
    if len({a for a, _ in good}) == len(good):
        t.same(cm[:, 1], cy, "matrix form and array form disagree")
    bad = len(x) >= 4 and (len(good) < len(x) or len(cx) < len(good) or np.any(np.diff(x) < 0))
    t.nontrivial(bad)
    t.label("short", len(cx) < 2)


def steps(c, t):
    """The individual steps: each does its own job only."""
    x, y = arr(c["x"]), arr(c["y"])
    nx, ny = cd.remove_nans_xy(x, y)
    keep = ~(np.isnan(x) | np.isnan(y))
    t.same(nx, x[keep], "NaN removal, x")
    t.same(ny, y[keep], "NaN removal, y")
    m = np.vstack((x, y)).T
    t.same(cd.remove_nans_matrix(m), m[keep], "NaN removal, matrix")
    sx, sy = cd.sort_xy(nx, ny)
    t.same(sx, np.sort(nx), "sorted x")
    t.check(sorted(pairs(sx, sy)) == sorted(pairs(nx, ny)), "sorting tears the points apart")
    nm = np.vstack((nx, ny)).T
    for col in (0, 1):
        sm = cd.sort_matrix(nm, col)
        t.same(sm[:, col], np.sort(nm[:, col]), "sorted matrix column")
        t.check(sorted(map(tuple, sm.tolist())) == sorted(map(tuple, nm.tolist())), "sorting tears matrix rows apart")
        dm = cd.remove_doubles_matrix(sm, col)
        t.same(dm[:, col], np.unique(nm[:, col]), "unique matrix column")
        t.check(set(map(tuple, dm.tolist())) <= set(map(tuple, nm.tolist())), "matrix rows invented")
        # unsorted data in the column that counts is refused, and only there
        un = sm[::-1]
        if len(np.unique(nm[:, col])) > 1:
            t.raises(lambda: cd.remove_doubles_matrix(un, col), "unsorted matrix accepted", (AssertionError, ValueError))
            cd.remove_doubles_matrix(un, col, check=False)
        if np.any(np.diff(nm[:, col]) < 0):
            t.raises(lambda: cd.remove_doubles_matrix(nm, col), "unsorted matrix accepted", (AssertionError, ValueError))
    t.same(cd.sort_matrix(nm), cd.sort_matrix(nm, 0), "default sort column")
    dx, dy = cd.remove_doubles_xy(sx, sy)
    t.same(dx, np.unique(nx), "unique x")
    t.check(set(pairs(dx, dy)) <= set(pairs(nx, ny)), "points invented")
    if len(np.unique(nx)) > 1:
        t.raises(lambda: cd.remove_doubles_xy(sx[::-1], sy[::-1]), "unsorted data accepted", (AssertionError, ValueError))
        rx, _ = cd.remove_doubles_xy(sx[::-1], sy[::-1], check=False)
        t.same(rx, np.unique(nx)[::-1], "unique x without the order check")
    if np.any(np.diff(nx) < 0):
        t.raises(lambda: cd.remove_doubles_xy(nx, ny), "unsorted data accepted", (AssertionError, ValueError))
    t.raises(lambda: cd.clean_matrix(np.zeros((4, 3))), "three columns accepted", (AssertionError, ValueError))
    t.raises(lambda: cd.clean_xy(np.zeros(4), np.zeros(3)), "lengths differ", Exception)
    t.nontrivial(len(x) >= 4 and len(dx) < len(x))


@st.composite
def long_case(draw):
    return {"n": draw(st.sampled_from([100, 257, 1000, 4000, 10000])), "levels": draw(st.sampled_from([5, 50, 500, 10 ** 7])),
            "nan": draw(st.sampled_from([0.0, 0.001, 0.05, 0.5, 0.97])), "seed": draw(st.integers(0, 9999)),
            "order": draw(st.sampled_from(["random", "up", "down", "triangle", "blocks"])),
            "dtype": draw(st.sampled_from(["float", "float", "float", "float32", "int"])), "fortran": draw(st.booleans())}


def long_data(c, t):
    """Long records, in the orders instruments produce, of any number type."""
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    x = rng.integers(-c["levels"], c["levels"] + 1, n).astype(float)
    if c["order"] == "up":
        x = np.sort(x)
    elif c["order"] == "down":
        x = np.sort(x)[::-1]
    elif c["order"] == "triangle":
        x = np.r_[np.sort(x[:n // 2]), np.sort(x[n // 2:])[::-1]]
    elif c["order"] == "blocks":
        x = np.concatenate([np.sort(b) for b in np.array_split(x, 7)])
    y = np.arange(n) * 1.0                                  # the value tells which measurement it was
    if c["dtype"] == "int":
        x, y = x.astype(int), y.astype(int)
        ok = np.ones(n, bool)
    else:
        x, y = x.astype(c["dtype"]) / 8, y.astype(c["dtype"])
        x[rng.uniform(size=n) < c["nan"]] = np.nan
        y[rng.uniform(size=n) < c["nan"] / 2] = np.nan
        ok = ~(np.isnan(x) | np.isnan(y))
    m = np.vstack((x, y)).T
    if c["fortran"]:
        m = np.asfortranarray(m)
    want = np.unique(x[ok])
    for what, (cx, cy) in (("array", cd.clean_xy(x, y)), ("matrix", cd.matrix_to_xy(cd.clean_matrix(m)))):
        t.same(cx, want, "cleaned voltages, {} form".format(what))
        k = np.asarray(cy).astype(int)
        t.check(len(k) == len(want) and np.all((k >= 0) & (k < n)), "cleaned values were not measured, {} form", what)
        t.check(np.all(ok[k]) and np.all(x[k] == cx), "a voltage was cleaned with the value of another one, {} form", what)
    t.label(c["order"])
    t.nontrivial(len(want) > 3)


CHECKS = [
    Check("long_data", long_case(), long_data, quick=300, thorough=8000),
    Check("clean", case(), clean, quick=1500, thorough=60000),
    Check("steps", case(), steps, quick=1000, thorough=40000),
]
