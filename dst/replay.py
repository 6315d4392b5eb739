"""
Replays a violation file: python -m dst.replay FILE

Exit 1 and a VIOLATION line if the violation is reproduced exactly (same class
and same event digest), exit 0 if the property holds, exit 2 otherwise.
"""

import json
import sys

from .casefork import run_case
from .worker import RETRY, load, preload


def main():
    path = sys.argv[1]
    with open(path) as f:
        rep = json.load(f)
    check = load(rep["property"])
    preload()
    if hasattr(check, "warmup"):
        check.warmup()
    t = check.TIMEOUT * (RETRY if rep["violation"]["cls"] == "hang" else 1)
    res = run_case(check, rep["spec"], timeout=t)
    if res["status"] == "timeout":
        res = dict(status="violation", cls="hang", msg="no answer", sim={})
    print(json.dumps({k: res.get(k) for k in ("status", "cls", "msg", "sim")}, indent=1))
    if res["status"] == "harness":
        print(res.get("tb", ""), res.get("out", ""))
    if "-v" in sys.argv:
        print("\n".join(res.get("trace", [])))
    if res["status"] == "violation":
        same = res.get("cls") == rep["violation"]["cls"]
        dig = (res.get("sim") or {}).get("digest") == rep["violation"].get("digest")
        print(f"same class: {same}, same digest: {dig}")
        print(f"VIOLATION property={rep['property']} replay={path}")
        sys.exit(1)
    sys.exit(0 if res["status"] in ("ok", "skip") else 2)


if __name__ == "__main__":
    main()
