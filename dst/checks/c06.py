"""C06: engine map calls the function exactly once per input, in order"""

import os

import numpy as np

from .. import common, faults, seams
from ..kernel import make_exc

KINDS = ["int", "str", "tuple", "dict", "mixed", "ragged", "array1", "array2", "float", "none", "path"]


def make_inputs(kind, n, seed):
    rng = np.random.default_rng([seed, 6])
    if kind == "int":
        return [int(x) for x in rng.integers(0, 50, n)]
    if kind == "float":
        return [float(x) for x in rng.uniform(0, 1, n)]
    if kind == "str":
        return ["f" * int(x) + str(i) for i, x in enumerate(rng.integers(0, 9, n))]
    if kind == "tuple":
        return tuple((i, f"t{i}", 0.5) for i in range(n))
    if kind == "dict":
        return [dict(i=i, x=[1.0] * (i % 3)) for i in range(n)]
    if kind == "mixed":
        return [[i, str(i), None, (i, i), dict(a=i)][int(rng.integers(0, 5))] for i in range(n)]
    if kind == "ragged":
        return [list(range(int(k))) for k in rng.integers(0, 5, n)]
    if kind == "array1":
        return rng.uniform(0, 1, n)
    if kind == "array2":
        return rng.uniform(0, 1, (n, 3))
    if kind == "none":
        return [None] * n
    from pathlib import Path

    return [Path(f"/x/{i}") for i in range(n)]


def show(x):
    return f"{type(x).__name__}:{x!r}"


def func(x, ledger, *args, fail=None, sleepy=None, **kwargs):
    """The mapped function, records its call in the ledger"""
    import foxes.utils

    fd = os.open(ledger, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    try:
        os.write(fd, (show(x).replace("\n", " ") + "\n").encode())
    finally:
        os.close(fd)
    foxes.utils.wd2uv(np.arange(3.0), 1.0)
    if fail is not None and show(x) in fail[0]:
        raise make_exc(fail[1], "mapped function")
    return show(x), [show(a) for a in args], sorted((k, show(v)) for k, v in kwargs.items())


class C06:
    ID = "C06"
    N = dict(quick=1500, thorough=100000)
    TIMEOUT = 40
    RULE = (
        "one to three maps of 0 to 25 inputs of a random type over a random engine, with additional arguments, failing calls and "
        "faults of workers and pools; non-trivial: at least two workers and three inputs, or a fault or failing call"
    )

    def gen(self, rng, tier, i):
        e = seams.gen_engine(rng, n_states=5)
        maps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 25])
            m = dict(kind=rng.choice(KINDS), n=n, seed=rng.randrange(1 << 30), nargs=rng.randrange(3), nkw=rng.randrange(3))
            if n and rng.random() < 0.25:
                m["fail"] = [sorted(rng.sample(range(n), rng.randint(1, min(n, 2)))), rng.choice(["error", "memory", "eio"] + (["interrupt"] if e["kind"] != "multiprocess" else []))]
            maps.append(m)
        fl = []
        if rng.random() < 0.4:
            fl = [f for f in faults.gen_faults(rng, e, ntasks=3) if f["point"] not in ("main", "pool.start", "pool.stop", "client.start", "scatter")]
            for f in fl:
                if "at" in f:
                    f["at"] = rng.randrange(60)
        return dict(
            seed=rng.randrange(1 << 40),
            engine=e,
            platform=seams.gen_platform(rng),
            maps=maps,
            faults=fl,
        )

    def run(self, spec, ctx):
        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        kind = spec["engine"]["kind"]
        nt = False
        with seams.installed(plat):
            e = seams.make_engine(spec["engine"], plat)
            seams.reset_global_engine()
            with e:
                for j, m in enumerate(spec["maps"]):
                    inputs = make_inputs(m["kind"], m["n"], m["seed"])
                    n = len(inputs)
                    ledger = os.path.join(ctx.scratch, f"ledger{j}")
                    args = [[1, "a"], np.arange(3)][: m["nargs"]]
                    kw = dict(list(dict(u=(1, 2), v="w").items())[: m["nkw"]])
                    fail = None
                    if m.get("fail") and n:
                        fail = [[show(inputs[k]) for k in m["fail"][0] if k < n], m["fail"][1]]
                    n0 = sum(sim.fired.values())
                    out = common.attempt(lambda: e.map(func, inputs, ledger, *args, fail=fail, **kw))
                    hit = sum(sim.fired.values()) - n0
                    ctx.evals += 1
                    what = f"map of {n} inputs {m['kind']} on {spec['engine']}, faults {dict(sim.fired)}"
                    calls = []
                    if os.path.exists(ledger):
                        with open(ledger) as f:
                            calls = f.read().splitlines()
                    want = [func_result(x, args, kw) for x in inputs]
                    if (n > 2 and spec["engine"].get("n_procs", 1) > 1) or hit or fail:
                        nt = True
                    if out.ok:
                        if fail:
                            ctx.violation("swallowed", f"{what}: call {m['fail']} failed, but the map did not")
                        if not isinstance(out.res, list):
                            ctx.violation("type", f"{what}: returns {type(out.res).__name__}")
                        if len(out.res) != n:
                            ctx.violation("length", f"{what}: {len(out.res)} results")
                        got = [(a, list(b), list(c)) for a, b, c in out.res]
                        if got != want:
                            k = next(k for k in range(n) if got[k] != want[k])
                            ctx.violation("differs", f"{what}: result {k} is {got[k]} instead of {want[k]}")
                        ex = sorted(show(x).replace("\n", " ") for x in inputs)
                        if not hit and sorted(calls) != ex:
                            ctx.violation("calls", f"{what}: {len(calls)} calls instead of {n}: {short_diff(calls, ex)}")
                        if hit and set(calls) != set(ex):
                            ctx.violation("calls", f"{what}: calls of {sorted(set(calls))} instead of {sorted(set(ex))}")
                        ctx.count("result")
                    else:
                        if not hit and not fail:
                            ctx.violation("raises", f"{what}: fails with {out.show()}")
                        if fail and not hit and "mapped function" not in out.show():
                            ctx.violation("masked", f"{what}: the error {fail[1]} arrives as {out.show()}")
                        if len(set(calls)) != len(calls) and not hit and len(set(map(show, inputs))) == n:
                            ctx.violation("calls", f"{what}: repeated calls {calls}")
                        ctx.count("error")
                        if "Broken" in type(out.exc).__name__ or any(f.startswith("worker.crash") for f in sim.fired):
                            break
        seams.reset_global_engine()
        ctx.count("engine_" + kind)
        if nt:
            ctx.count("nontrivial")


def func_result(x, args, kw):
    return show(x), [show(a) for a in args], sorted((k, show(v)) for k, v in kw.items())


def short_diff(a, b):
    from collections import Counter

    a, b = Counter(a), Counter(b)
    return f"additional {dict(a - b)}, missing {dict(b - a)}"


CHECK = C06()
