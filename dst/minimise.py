"""
Minimises a failing case: first the spec (through the check's own shrink
candidates), then the recorded schedule.
"""

import copy
import json
import sys
import time

from .casefork import run_case


def same(a, b):
    return a.get("status") == "violation" and a.get("cls") == b.get("cls")


def generic_shrinks(spec):
    """Candidate simplifications that apply to all checks"""
    for i in range(len(spec.get("faults", []))):
        s = copy.deepcopy(spec)
        del s["faults"][i]
        yield s
    w = spec.get("world")
    if w:
        for key, small in (
            ("n_states", 1),
            ("n_turbines", 1),
        ):
            v = w.get(key, small)
            for nv in sorted({small, small + 1, v // 2, v - 1}):
                if small <= nv < v:
                    s = copy.deepcopy(spec)
                    s["world"][key] = nv
                    yield s
        for key, val in (
            ("rotor", "centre"),
            ("pwake", None),
            ("ground", None),
            ("tmodels", []),
            ("frame", "rotor_wd"),
            ("states", "timeseries"),
            ("layout", "row"),
            ("ttype", "NREL5MW"),
            ("mixed", False),
            ("uniform_h", True),
            ("weights", False),
            ("index", None),
            ("ambient", False),
        ):
            if key in w and w[key] != val:
                s = copy.deepcopy(spec)
                s["world"][key] = val
                yield s
        if len(w.get("wakes", [])) > 1:
            s = copy.deepcopy(spec)
            s["world"]["wakes"] = w["wakes"][:1]
            yield s
        if w.get("wakes") and w["wakes"] != ["Jensen_linear_k007"]:
            s = copy.deepcopy(spec)
            s["world"]["wakes"] = ["Jensen_linear_k007"]
            yield s
    p = spec.get("points")
    if isinstance(p, dict):
        for nv in sorted({1, p["n"] // 2, p["n"] - 1}):
            if 0 < nv < p["n"]:
                s = copy.deepcopy(spec)
                s["points"]["n"] = nv
                yield s
        if p.get("vary"):
            s = copy.deepcopy(spec)
            s["points"]["vary"] = False
            yield s
    e = spec.get("engine")
    if e:
        for key, vals in (("n_procs", (1, 2, 3)), ("css", (None, 1, 2, 3)), ("csp", (None, 1, 2, 3))):
            v = e.get(key)
            for nv in vals:
                if v is not None and (nv is None or nv < v):
                    s = copy.deepcopy(spec)
                    s["engine"][key] = nv
                    yield s
    pf = spec.get("platform")
    if pf:
        for key, val in (("fork", False), ("preempt", 0), ("wthreads", 1), ("cpus", 1), ("gaps", None), ("focus", None)):
            if pf.get(key) not in (None, val):
                s = copy.deepcopy(spec)
                s["platform"][key] = val
                yield s


def minimise(check, spec, res, budget=60.0, root=None, log=None):
    t0 = time.monotonic()
    best, bres = spec, res
    tried = set()
    n = 0

    def left():
        return budget - (time.monotonic() - t0)

    def attempt(s):
        nonlocal best, bres, n
        k = json.dumps(s, sort_keys=True)
        if k in tried or left() < 0:
            return False
        tried.add(k)
        n += 1
        if res.get("cls") == "hang" and "no answer" in res.get("msg", ""):
            return False  # too slow to minimise
        r = run_case(check, s, root=root)
        if same(r, res):
            best, bres = s, r
            return True
        return False

    progress = True
    while progress and left() > 0:
        progress = False
        cands = list(generic_shrinks(best))
        if hasattr(check, "shrinks"):
            cands = list(check.shrinks(best)) + cands
        for s in cands:
            s.pop("choices", None)
            if left() < 0:
                break
            if attempt(s):
                progress = True
                break
    # schedule
    ch = bres.get("choices")
    if ch:
        cur = list(ch)

        def tr(c):
            s = copy.deepcopy(best)
            s["choices"] = c
            return attempt(s)

        if not tr([]):
            if tr(cur):
                # shortest prefix that still fails (rest zero)
                lo, hi = 0, len(cur)
                while lo < hi and left() > 0:
                    mid = (lo + hi) // 2
                    if tr(cur[:mid]):
                        hi = mid
                        cur = cur[:mid]
                    else:
                        lo = mid + 1
                cur = list(best.get("choices", cur))
                size = max(1, len(cur) // 2)
                while size >= 1 and left() > 0:
                    i = 0
                    while i < len(cur) and left() > 0:
                        if any(cur[i : i + size]):
                            c = cur[:i] + [0] * len(cur[i : i + size]) + cur[i + size :]
                            if tr(c):
                                cur = c
                        i += size
                    size //= 2
    return best, bres, n
