"""Development tool (no check uses it): make and try planted bugs.

usage: plant.py make SPEC.py [ID...]   write seeded/<ID>/ from a spec file, confirm it (diff applies, touches
                                       original lines only, tests pass, demo 0 without / nonzero with it)
       plant.py try ID... [--all-checks] run the property's quick check against each
Everything runs in a copy of /repo that is mounted over /repo in a private namespace.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "610f05d"
DEMO_SH = """#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not (run with cwd = the repository)
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
scratch=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export MPLCONFIGDIR="$scratch" DEMO_SCRATCH="$scratch"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -W ignore "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def in_copy(copy, cmd, tmp):
    for d in ("ev", "rp", "vr"):
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    script = ("mount --bind %s /repo && mount --bind %s/vr /opt/vp/reports && mount --bind %s/ev /verif/evidence && "
              "mount --bind %s/rp /verif/replays && cd /repo && %s" % (copy, tmp, tmp, tmp, cmd))
    return sh(["unshare", "-Urm", "bash", "-c", script])


def fresh(tmp):
    copy = os.path.join(tmp, "repo")
    sh(["cp", "-a", "/repo", copy])
    return copy


def original_lines_only(copy, rel, patch):
    """Every removed/changed line must stem from the base commit."""
    blame = sh(["git", "-C", copy, "blame", "-s", "-l", "HEAD", "--", rel]).stdout.splitlines()
    base = sh(["git", "-C", copy, "rev-parse", BASE]).stdout.strip()
    owner = [b.split()[0].lstrip("^") for b in blame]
    out, n = [], None
    for line in patch.splitlines():
        if line.startswith("@@"):
            n = int(line.split()[1].lstrip("-").split(",")[0])
        elif n is not None and line.startswith("-") and not line.startswith("---"):
            if not base.startswith(owner[n - 1][:30]):
                out.append("%s:%d is not an original line" % (rel, n))
            n += 1
        elif n is not None and line.startswith(" "):
            n += 1
    return out


def make(spec):
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        copy = fresh(tmp)
        for rel, old, new in spec["edits"]:
            p = os.path.join(copy, rel)
            s = open(p).read()
            if s.count(old) != 1:
                return spec["id"], "edit matches %d times in %s: %r" % (s.count(old), rel, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", copy, "diff"]).stdout
        bad = []
        for rel in {e[0] for e in spec["edits"]}:
            bad += original_lines_only(copy, rel, sh(["git", "-C", copy, "diff", "-U0", "--", rel]).stdout)
        if bad:
            return spec["id"], "; ".join(bad)
        d = os.path.join(VERIF, "seeded", spec["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(spec["demo"].lstrip())
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        lay = os.path.join(tmp, "lay")
        shutil.copytree(d, lay)
        r = sh("bash %s/demo.sh" % lay, cwd="/repo")
        msg = []
        if r.returncode != 0:
            msg.append("demo fails on clean tree: " + r.stdout[-600:])
        r = in_copy(copy, "bash %s/demo.sh" % lay, tmp)
        if r.returncode == 0:
            msg.append("demo passes with the patch: " + r.stdout[-300:])
        else:
            msg.append("(demo: %s)" % (r.stdout.strip().splitlines() or [""])[-1][:140])
        r = in_copy(copy, "bash /opt/vp/test.sh %s/o.json" % tmp, tmp)
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
        if " 39 passed" not in " " + r.stdout.replace("\n", " "):
            msg.append("TESTS: " + r.stdout[-500:])
        return spec["id"], " | ".join(msg)
    finally:
        shutil.rmtree(tmp)


def attempt(id, checks=None, scale=None):
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        copy = fresh(tmp)
        d = os.path.join(VERIF, "seeded", id)
        r = sh(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            return id, "does not apply: " + r.stdout
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        out = []
        for c in checks or [prop]:
            r = in_copy(copy, "cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh %s quick" % c, tmp)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            if r.returncode == 1 and v:
                out.append("%s CAUGHT %s" % (c, v[0].split("replay=")[-1].split("/")[-1][:60]))
            else:
                out.append("%s rc=%d %s" % (c, r.returncode, "MISSED" if r.returncode == 0 else r.stdout[-300:]))
        return id, "; ".join(out)
    finally:
        shutil.rmtree(tmp)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        specs = [s for s in ns["BUGS"] if len(args) == 1 or s["id"] in args[1:]]
        with ThreadPoolExecutor(4) as ex:
            for id, m in ex.map(make, specs):
                print(id, "::", m, flush=True)
    else:
        checks = [a[2:] for a in args if a.startswith("-C")]
        ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        for id in ids:
            print(*attempt(id, checks), flush=True)


if __name__ == "__main__":
    main()
