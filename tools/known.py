"""
Maintains known_findings.json by hand: tools/known.py add ID PROPERTY CLS MSG_RE REPLAY 'WHERE_JSON' WHAT
"""

import json
import os
import sys

P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def load():
    if os.path.exists(P):
        return json.load(open(P))
    return dict(findings=[], fixed=[])


def save(d):
    with open(P, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def main():
    d = load()
    if sys.argv[1] == "add":
        kid, prop, cls, msg, rep, where, what = sys.argv[2:9]
        spec = json.load(open(rep))
        spec = spec.get("spec", spec)
        d["findings"] = [x for x in d["findings"] if (x["id"], x["property"]) != (kid, prop)]
        d["findings"].append(
            dict(id=kid, property=prop, cls=cls, msg=msg, where=json.loads(where), what=what, probe=spec)
        )
    elif sys.argv[1] == "fixed":
        prop, commit, what = sys.argv[2:5]
        line = f"fixed: property={prop} {commit} {what}"
        if line not in d["fixed"]:
            d["fixed"].append(line)
    save(d)


main()
