"""Runner for the property checks.

A property module (pbt/props/cNN.py) defines

    PROPERTY = "C01"
    CHECKS   = [Check(name, strategy, fn, quick=N, thorough=M, corpus=[...])]
    RULE     = "how cases are made and when one is non-trivial"

A *case* is a JSON value made by a Hypothesis strategy; `fn(case, t)` builds
the real inputs from it, calls qmix and judges the outcome against an oracle.
Because a case is plain JSON, the shrunk failing case *is* the replay file and
replaying it does not involve Hypothesis.

Outcomes of one case
  * fn returns                       -> held
  * t.check/t.close/... fails        -> violation
  * an exception leaves qmix code    -> violation (all inputs are valid ones)
  * the oracle cannot handle the result (type, shape) -> violation
  * any other exception in the harness -> harness error (exit 2, never VIOLATION)
"""

import argparse
import faulthandler
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)      # at the end: numpy & co. stay /opt/venv's
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401



def _rare_mutations():
    """Hypothesis follows most examples it draws by up to five variants of it with parts copied over other parts.

    With cases made of many small choices these are near-duplicates; keep one in ten, so that most cases are independent.
    """
    from hypothesis.internal.conjecture import engine
    original = getattr(engine.ConjectureRunner, "generate_mutations_from", None)
    if original is not None:
        def seldom(self, data):
            if self.random.random() < 0.1:
                original(self, data)
        engine.ConjectureRunner.generate_mutations_from = seldom


_rare_mutations()

SCRATCH = os.environ.get("QMIX_PBT_SCRATCH") or "/tmp"


class Violation(Exception):
    """The oracle rejected what qmix did."""


class Skip(Exception):
    """The generated case lies outside the property's domain."""


class StopRun(KeyboardInterrupt):
    """Leave Hypothesis at once (budget used up)."""


class Check(object):

    def __init__(self, name, strategy, fn, quick=100, thorough=None,
                 corpus=(), shards=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.corpus = list(corpus)
        self.shards = shards


class Trial(object):
    """What one case may report back."""

    def __init__(self):
        self.trivial = True
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False

    def label(self, name, cond=True):
        if cond:
            self.labels.append(str(name))

    def skip(self, why="outside domain"):
        raise Skip(why)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg.format(*args) if args else msg)

    def close(self, got, want, tol, msg, scale=None):
        """max |got - want| <= tol * scale (scale defaults to 1)."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, got.shape, want.shape))
        if got.size == 0:
            return
        if not np.all(np.isfinite(want)):
            raise RuntimeError("oracle value not finite in " + msg)
        if not np.all(np.isfinite(got)):
            i = np.unravel_index(np.argmin(np.isfinite(got)), got.shape)
            raise Violation("%s: got %r at %s, expected %r" % (msg, got[i], i, want[i]))
        lim = tol if scale is None else tol * np.asarray(scale)
        err = np.abs(got - want) - lim
        if np.max(err) > 0:
            i = np.unravel_index(np.argmax(err), got.shape)
            raise Violation("%s: got %r, expected %r at index %s (tolerance %s)"
                            % (msg, got[i], want[i], tuple(int(k) for k in i),
                               np.max(lim)))

    def same(self, got, want, msg):
        """Bitwise-equal arrays (NaN equals NaN)."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, got.shape, want.shape))
        try:
            ok = np.array_equal(got, want, equal_nan=True)
        except TypeError:
            ok = np.array_equal(got, want)
        if not ok:
            raise Violation("%s: got %r, expected %r" % (msg, got, want))

    def raises(self, fn, msg, kinds=Exception):
        try:
            fn()
        except kinds:
            return
        raise Violation(msg)


def _canon(case):
    return json.dumps(case, sort_keys=True, default=_jsonify)


def _jsonify(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(repr(o))


def _qmix_raised(exc):
    """Did this exception come out of qmix code?"""
    tb = exc.__traceback__
    root = os.path.join(REPO, "qmix") + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(check, case):
    """Returns (status, message, trial); status: ok | skip | violation."""
    t = Trial()
    try:
        with np.errstate(all="ignore"):
            check.fn(case, t)
    except Skip as e:
        return "skip", str(e), t
    except Violation as e:
        return "violation", str(e), t
    except RecursionError:
        raise
    except Exception as e:      # noqa: B902
        if _qmix_raised(e):
            last = traceback.format_exception(type(e), e, e.__traceback__)
            return "violation", "exception on valid input: " + "".join(last)[-1500:], t
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError)) and \
                not isinstance(e, json.JSONDecodeError):
            # the oracle never fails on results of the right kind: what qmix returned has the wrong type or shape
            last = traceback.format_exception(type(e), e, e.__traceback__)
            return "violation", "result of the wrong kind: " + "".join(last)[-1500:], t
        raise
    return "ok", "", t


class Shard(object):
    """One Hypothesis run of one check with one derived seed."""

    def __init__(self, prop, check, tier, index, n, master, budget_s, curfile):
        self.prop, self.check, self.tier, self.index = prop, check, tier, index
        self.n = n
        self.budget_s = budget_s
        h = hashlib.sha256(("%s/%s/%d/%d" % (prop, check.name, index, master)).encode())
        self.seed = int.from_bytes(h.digest()[:6], "big")
        self.curfile = curfile
        self.evals = 0
        self.skips = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.fail = None            # (case, message)
        self.t_fail = None
        self.truncated = False
        self.t0 = time.time()

    def _one(self, case):
        now = time.time()
        if self.fail is None and now - self.t0 > self.budget_s:
            self.truncated = True
            raise StopRun()
        if self.fail is not None and now - self.t_fail > (40 if self.tier == "quick" else 120):
            raise StopRun()
        text = _canon(case)
        if self.curfile is not None:
            self.curfile.seek(0)
            self.curfile.write("%.1f\n%s\n%s\n" % (now, self.check.name, text))
            self.curfile.truncate()
            self.curfile.flush()
        case = json.loads(text)
        status, msg, t = run_case(self.check, case)
        if status == "skip":
            self.skips += 1
            return True
        if status == "violation":
            if self.fail is None:
                self.t_fail = time.time()
            if self.fail is None or len(text) <= len(_canon(self.fail[0])):
                self.fail = (case, msg)
            return False
        if self.fail is None:
            self.evals += 1
            h = hashlib.sha1(text.encode()).digest()[:10]
            for l in t.labels:
                self.labels[l] = self.labels.get(l, 0) + 1
            if h not in self.seen:
                self.seen.add(h)
                if not t.trivial:
                    self.nontrivial.add(h)
                    if len(self.samples) < 2 and len(text) < 3000 and \
                            self.evals > self.n // 3:
                        self.samples.append({"check": self.check.name, "case": case})
        return True

    def run(self):
        if self.index == 0:
            for case in self.check.corpus:
                if not self._one(case):
                    break
        if self.fail is None and self.n > 0:
            phases = [Phase.generate, Phase.shrink]

            @seed(self.seed)
            @settings(max_examples=self.n, database=None, deadline=None, phases=phases,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(self.check.strategy)
            def test(case):
                if not self._one(case):
                    raise Violation("x")

            try:
                test()
            except (StopRun, Violation):
                pass
            except BaseException:
                # (a case that fails depending on what was run before it: Hypothesis calls it flaky)
                if self.fail is None:
                    raise
        return {
            "check": self.check.name, "shard": self.index, "evals": self.evals,
            "skips": self.skips, "distinct": [h.hex() for h in self.seen],
            "nontrivial": [h.hex() for h in self.nontrivial],
            "labels": self.labels, "samples": self.samples, "fail": self.fail,
            "truncated": self.truncated, "wall_s": time.time() - self.t0,
        }


def _worker(conn, task_iter_lock, counter, tasks, mod_name, tier, master, budget_s, curpath):
    """Pull shard indices from a shared counter until none is left."""
    faulthandler.disable()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module(mod_name)
    curfile = open(curpath, "w")
    while True:
        with task_iter_lock:
            i = counter.value
            counter.value += 1
        if i >= len(tasks):
            break
        ci, si, n = tasks[i]
        try:
            sh = Shard(mod.PROPERTY, mod.CHECKS[ci], tier, si, n, master, budget_s, curfile)
            res = sh.run()
        except BaseException as e:          # harness error
            res = {"check": mod.CHECKS[ci].name, "shard": si,
                   "error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
        conn.send((i, res))
    curfile.seek(0)
    curfile.truncate()
    curfile.flush()
    conn.send((None, None))
    conn.close()


def load(prop):
    import warnings
    warnings.simplefilter("ignore")
    import qmix
    if not os.path.abspath(qmix.__file__).startswith(REPO + os.sep):
        raise RuntimeError("qmix was not imported from " + REPO)
    return importlib.import_module("pbt.props." + prop.lower())


def plan(mod, tier, ncpu):
    tasks = []
    for ci, c in enumerate(mod.CHECKS):
        n = c.quick if tier == "quick" else c.thorough
        shards = c.shards or max(1, min(ncpu, n // 25))
        per = max(1, -(-n // shards))
        for si in range(shards):
            tasks.append((ci, si, per))
    # interleave so that long checks start early
    tasks.sort(key=lambda x: (x[1], x[0]))
    return tasks


def write_replay(prop, res):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    case, msg = res["fail"]
    text = _canon({"property": prop, "check": res["check"], "case": case})
    name = "%s-%s-%s.json" % (prop, res["check"], hashlib.sha1(text.encode()).hexdigest()[:8])
    path = os.path.join(VERIF, "replays", name)
    with open(path, "w") as f:
        json.dump({"property": prop, "check": res["check"], "case": case, "message": msg},
                  f, indent=1, default=_jsonify)
        f.write("\n")
    return os.path.join("replays", name)


def known_findings(prop):
    """Open findings of this property (fixed entries suppress nothing)."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property=%s " % prop):
                out.append(line[len("open: property=%s " % prop):])
    return out


def _isolated_case(conn, mod_name, check_name, case):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    mod = importlib.import_module(mod_name)
    c = [c for c in mod.CHECKS if c.name == check_name][0]
    status, msg, _ = run_case(c, case)
    conn.send((status, msg))
    conn.close()


def judge_dead_worker(mod, cur_text, timeout=240):
    """A worker died or hung on a case: run that case again on its own."""
    try:
        _, name, text = cur_text.split("\n", 2)
        case = json.loads(text)
    except ValueError:
        return None
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe()
    p = ctx.Process(target=_isolated_case, args=(b, mod.__name__, name, case))
    p.start()
    b.close()
    got = None
    if a.poll(timeout):
        try:
            got = a.recv()
        except EOFError:
            got = None
        p.join(10)
        if got is None:
            return {"check": name, "fail": (case, "the process died (exit %s) on this case" % p.exitcode)}
        if got[0] == "violation":
            return {"check": name, "fail": (case, got[1])}
        return None
    p.kill()
    p.join()
    return {"check": name, "fail": (case, "no result after %d s on this case" % timeout)}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        print("unknown tier", tier)
        return 2
    try:
        master = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        master = int(hashlib.sha1(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    prop = a.property.upper()
    t0 = time.time()
    mod = load(prop)

    if a.replay:
        rec = json.load(open(a.replay))
        c = [c for c in mod.CHECKS if c.name == rec["check"]][0]
        status, msg, _ = run_case(c, rec["case"])
        print("replay of %s/%s: %s %s" % (prop, rec["check"], status, msg))
        if status == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    if a.only:
        mod.CHECKS[:] = [c for c in mod.CHECKS if c.name in a.only.split(",")]
    if a.scale != 1.0:
        for c in mod.CHECKS:
            c.quick = max(1, int(c.quick * a.scale))
            c.thorough = max(1, int(c.thorough * a.scale))
    ncpu = min(8, os.cpu_count() or 1)
    tasks = plan(mod, tier, ncpu)
    # Safety nets only (a budget hit is "inconclusive", never a violation).
    budget_s = 420 if tier == "quick" else 3 * 3600
    hard_s = 640 if tier == "quick" else 4 * 3600
    ctx = mp.get_context("fork")
    lock, counter = ctx.Lock(), ctx.Value("i", 0, lock=False)
    workers = []
    for w in range(min(ncpu, len(tasks))):
        pa, pb = ctx.Pipe(duplex=False)
        cur = os.path.join(SCRATCH, "cur%d" % w)
        p = ctx.Process(target=_worker, args=(pb, lock, counter, tasks, mod.__name__, tier,
                                              master, budget_s, cur))
        p.start()
        pb.close()
        workers.append([p, pa, cur, False])
    results = {}
    dead = []
    while any(not w[3] for w in workers):
        live = [w[1] for w in workers if not w[3]]
        ready = mp.connection.wait(live, timeout=5)
        for w in workers:
            if w[3] or w[1] not in ready:
                continue
            try:
                i, res = w[1].recv()
            except EOFError:
                w[3] = True
                w[0].join(5)
                dead.append(w)
                continue
            if i is None:
                w[3] = True
                w[0].join(5)
            else:
                results[i] = res
        if time.time() - t0 > hard_s:
            for w in workers:
                if not w[3]:
                    w[0].kill()
                    w[0].join()
                    w[3] = True
                    dead.append(w)
    fails, errors = [], []
    for w in dead:
        try:
            cur_text = open(w[2]).read()
        except OSError:
            cur_text = ""
        v = judge_dead_worker(mod, cur_text, 240 if tier == "quick" else 1800) if cur_text else None
        if v:
            fails.append(v)
        else:
            errors.append("worker died (exit %s) without a reproducible case" % w[0].exitcode)

    ev = skips = 0
    distinct, nontriv, labels, samples, per, trunc = set(), set(), {}, [], {}, False
    for i, res in sorted(results.items()):
        if "error" in res:
            errors.append("%s[%d]: %s" % (res["check"], res["shard"], res["error"]))
            continue
        ev += res["evals"]
        skips += res["skips"]
        key = res["check"] + "/"
        distinct |= {key + h for h in res["distinct"]}
        nontriv |= {key + h for h in res["nontrivial"]}
        for l, k in res["labels"].items():
            labels[key + l] = labels.get(key + l, 0) + k
        d = per.setdefault(res["check"], {"evaluations": 0, "skipped": 0, "nontrivial": set(),
                                          "cpu_s": 0.0})
        d["evaluations"] += res["evals"]
        d["skipped"] += res["skips"]
        d["nontrivial"] |= set(res["nontrivial"])
        d["cpu_s"] += res["wall_s"]
        if not any(s["check"] == res["check"] for s in samples):
            samples += res["samples"][:1]
        trunc = trunc or res["truncated"]
        if res["fail"]:
            fails.append(res)
    for d in per.values():
        d["nontrivial"] = len(d["nontrivial"])
        d["cpu_s"] = round(d["cpu_s"], 2)

    findings = []
    for text in known_findings(prop):
        name = text.split()[0]
        probe = getattr(mod, "FINDINGS", {}).get(name)
        if probe is None:
            errors.append("no probe for known finding %s" % name)
        elif probe():
            findings.append(text)

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": master, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
            "samples": samples[:8], "distinct": len(distinct), "skipped_out_of_domain": skips,
            "per_check": per, "labels": dict(sorted(labels.items())),
            "truncated_by_time_budget": trunc,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=_jsonify)
        f.write("\n")

    for name, d in sorted(per.items()):
        print("  %-28s %6d cases, %6d distinct non-trivial, %5d skipped, %7.1f cpu-s"
              % (name, d["evaluations"], d["nontrivial"], d["skipped"], d["cpu_s"]))
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    if fails:
        fails.sort(key=lambda r: len(_canon(r["fail"][0])))
        for r in fails:
            path = write_replay(prop, r)
            print("%s/%s: %s" % (prop, r["check"], r["fail"][1]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    print("%s held: %d cases (%d distinct non-trivial) in %.1f s, tier %s, seed %d"
          % (prop, ev, len(nontriv), time.time() - t0, tier, master))
    return 0


def grid(lo, hi, n=1000):
    """Evenly spaced floats; shrinks towards lo."""
    return st.integers(0, n).map(lambda k: round(lo + (hi - lo) * k / n, 12))


def finite(x):
    return math.isfinite(x)


if __name__ == "__main__":
    # run under the importable module name so that property modules and the
    # runner share one set of classes
    from pbt import core
    sys.exit(core.main())
