"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

QT = "qmix/qtcurrent.py"
HB = "qmix/harmonic_balance.py"
CC = "qmix/circuit.py"
RF = "qmix/respfn.py"
KK = "qmix/mathfn/kktrans.py"
IVM = "qmix/mathfn/ivcurve_models.py"
FI = "qmix/mathfn/filters.py"
MI = "qmix/mathfn/misc.py"
CL = "qmix/exp/clean_data.py"
IV = "qmix/exp/iv_data.py"
IFD = "qmix/exp/if_data.py"
IFR = "qmix/exp/if_response.py"
EXP = "qmix/exp/exp_data.py"
PAR = "qmix/exp/parameters.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


exec(open(os.path.join(HERE, "tools", "properties_table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": anchors}) + "\n")
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, "pbt", "props", p["id"].lower() + ".py"))]
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
                       "thorough_cmd": "bash check.sh %s thorough" % p["id"], "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]} for p in claimed],
           "not_applicable": []}
    missing = [p["id"] for p in P if p not in claimed]
    if missing:
        print("no check yet:", missing)
        man["not_applicable"] = [{"property": i, "reason": "check not written yet"} for i in missing]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
