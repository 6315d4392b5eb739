"""C14: random layouts and data satisfy their constraints for every random stream"""

import os

import numpy as np

from .. import common, seams
from ..kernel import StepLimit
from ..rng import KINDS, Adversary

OUTSIDE = ["WS", "WD", "TI", "RHO", "MOL", "x1"]


def layout_task(job, *args):
    """One call of a random function of foxes, as plain data"""
    import foxes
    import foxes.utils
    from foxes.input import farm_layout
    from foxes.input.states import create

    kind = job["kind"]
    seed = job.get("seed")
    if kind == "xy":
        kw = {k: job[k] for k in ("xmax_ini", "growth") if job.get(k) is not None}
        return foxes.utils.random_xy_square(job["n"], job["dist"], seed=seed, verbosity=job.get("verb", 0), **kw)
    if kind == "farm":
        farm = foxes.WindFarm()
        for i in range(job.get("before", 0)):
            farm.add_turbine(foxes.Turbine(xy=[10.0 * i, -7.0], turbine_models=["old"]), verbosity=0)
        kw = {}
        if job.get("centre") is not None:
            kw["centre"] = list(job["centre"]) if not job.get("arr") else np.array(job["centre"], dtype=float)
        if job.get("DH"):
            kw.update(D=job["DH"][0], H=job["DH"][1])
        farm_layout.add_random(farm, job["n"], job["dist"], seed=seed, verbosity=job.get("verb", 0), turbine_models=["a", "b"], **kw)
        return [(t.name, int(t.index), np.array(t.xy, dtype=float), t.D, t.H, list(t.models)) for t in farm.turbines]
    if kind == "series":
        rg = None if job.get("ranges") is None else {v: tuple(r) for v, r in job["ranges"].items()}
        d = create.random_timseries_data(job["n"], data_ranges=rg, start_time=job["start"], freq=job["freq"], seed=seed)
        if rg is not None and rg != {v: tuple(r) for v, r in job["ranges"].items()}:
            return "ranges modified"
        return d.index.to_numpy(), d.index.name, list(d.columns), d.to_numpy()
    raise ValueError(kind)


def norm(x):
    """Comparable text of a result"""
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes().hex())
    if isinstance(x, (list, tuple)):
        return tuple(norm(y) for y in x)
    return repr(x)


class C14:
    ID = "C14"
    N = dict(quick=1500, thorough=100000)
    TIMEOUT = 40
    RULE = (
        "mode stream: a random layout, time series or table of stability states whose first random numbers are scripted by an adversary "
        "(repeated, extreme, crowded, regular, twice the same), fair afterwards; mode seeded: calls with and without seeds, mixed with other draws; "
        "mode tasks: seeded calls mapped over a random engine with preemption between the lines; non-trivial: at least three positions or rows and an unfair draw, "
        "a repeated call, or more than one worker"
    )

    def gen_job(self, rng, kinds=("xy", "xy", "farm", "series"), seeded=None):
        kind = rng.choice(kinds)
        j = dict(kind=kind, n=rng.choice([1, 2, 2, 3, 4, 5, 7, 9, 12, 16, 25, 40]))
        if kind in ("xy", "farm"):
            j["dist"] = rng.choice([0, 1e-3, 1, 120.5, 500, 500.0, 1000, 4321.0])
            j["verb"] = rng.choice([0, 0, 1])
        if kind == "xy":
            if rng.random() < 0.4 and j["dist"]:
                j["xmax_ini"] = round(j["dist"] * rng.choice([0.3, 1.0, 2.5, 7, 40]), 4)
            if rng.random() < 0.4:
                j["growth"] = rng.choice([1.005, 1.01, 1.1, 1.5, 3.0])
        elif kind == "farm":
            j["before"] = rng.choice([0, 0, 1, 4])
            if rng.random() < 0.6:
                j["centre"] = [rng.choice([0.0, 12.5, -300.0, 4.5e5]), rng.choice([0.0, -1.0, 5.9e6])]
                j["arr"] = rng.random() < 0.3
            if rng.random() < 0.4:
                j["DH"] = [round(rng.uniform(50, 250), 1), round(rng.uniform(60, 200), 1)]
        elif kind == "series":
            j["freq"] = rng.choice(["h", "10min", "min", "D", "s"])
            j["start"] = rng.choice(["2000-01-01 00:00:00", "2023-07-08 12:13:10", "1999-12-31 23:00:00"])
            if rng.random() < 0.6:
                j["ranges"] = {}
                for v in rng.sample(OUTSIDE, rng.randint(0, 4)):
                    lo = rng.choice([0.0, -5.0, 3.0, 359.0, 1e-3])
                    j["ranges"][v] = [lo, lo + rng.choice([1e-6, 0.5, 10.0, 300.0])]
        if seeded is None:
            seeded = rng.random() < 0.7
        if seeded:
            j["seed"] = rng.choice([0, 1, 2, 3, 42, 12345, 2**32 - 1, rng.randrange(1 << 20)])
        return j

    def gen(self, rng, tier, i):
        mode = rng.choice(["stream", "stream", "stream", "abl", "seeded", "tasks", "tasks"])
        spec = dict(seed=rng.randrange(1 << 40), mode=mode)
        if mode == "stream":
            spec["job"] = self.gen_job(rng)
        elif mode == "abl":
            cols = dict(rng.sample([("MOL", [-500.0, 800.0]), ("MOL", [-60.0, 60.0]), ("TI", [0.02, 0.3]), ("WS", [3.0, 25.0]), ("WD", [0.0, 360.0]), ("weight", [0.1, 3.0]), ("mol", [-9000.0, 9000.0]), ("w", [1.0, 2.0]), ("ti", [0.01, 0.4])], rng.randint(1, 6)))
            v2c = {}
            for v, c in (("MOL", "mol"), ("weight", "w"), ("TI", "ti")):
                if c in cols:
                    v2c[v] = c
                    cols.pop(v, None)
            spec.update(
                n=rng.randint(1, 30),
                cols=cols,
                v2c=v2c,
                mol=rng.choice([[50.0, 5000.0], [50.0, 5000.0], [1.0, 100.0], None]),
                normalize=rng.random() < 0.7,
                file=rng.random() < 0.5,
                digits=rng.choice(["auto", "auto", None, 2, 6]),
                fault=rng.choice([None, None, 0, 20, 64, 150, 400]),
            )
        if mode in ("stream", "abl"):
            m = rng.choice([0, 1, 1, 2, 3, 5, 12])
            spec["script"] = [rng.choice(KINDS) for _ in range(m)]
            if rng.random() < 0.25 and m:
                spec["script"] = [spec["script"][0]] * m
        elif mode == "seeded":
            pool = [self.gen_job(rng) for _ in range(rng.randint(1, 3))]
            ops = []
            for _ in range(rng.randint(3, 9)):
                r = rng.random()
                if r < 0.2:
                    ops.append(dict(op="noise", n=rng.randint(1, 9)))
                elif r < 0.45:
                    ops.append(dict(op="reseed", seed=rng.randrange(1, 4)))
                else:
                    ops.append(dict(op="job", job=rng.choice(pool)))
            spec["ops"] = ops
        elif mode == "tasks":
            jobs = [self.gen_job(rng, seeded=True) for _ in range(rng.randint(2, 3))]
            spec["jobs"] = [dict(rng.choice(jobs)) for _ in range(rng.randint(2, 8))]
            for j in spec["jobs"]:
                j["verb"] = 0
            spec["engine"] = seams.gen_engine(rng, n_states=5)
            if rng.random() < 0.5:
                spec["engine"].update(kind=rng.choice(["threads", "local_cluster"]), n_procs=rng.randint(2, 6))
            spec["platform"] = seams.gen_platform(rng)
            if rng.random() < 0.7:
                spec["platform"].update(preempt=400, gaps=rng.choice([[1, 2], [1, 2, 3, 5], [1]]), lead=0)
        return spec

    def run(self, spec, ctx):
        sim = ctx.sim()
        getattr(self, "run_" + spec["mode"])(spec, ctx, sim)
        ctx.count("mode_" + spec["mode"])

    # -- constraints of one result -----------------------------------------
    def distances(self, ctx, what, xy, n, dist, centre):
        xy = np.asarray(xy, dtype=float)
        if xy.shape != (n, 2):
            ctx.violation("number", f"{what}: positions of shape {xy.shape}")
        if not np.all(np.isfinite(xy)):
            ctx.violation("finite", f"{what}: positions {xy[~np.isfinite(xy)][:4]}")
        scale = max(1.0, np.abs(xy).max())
        d = np.sqrt(((xy[:, None] - xy[None]) ** 2).sum(-1))
        d[np.arange(n), np.arange(n)] = np.inf
        if n > 1 and d.min() < dist - 1e-9 * scale:
            i, j = np.unravel_index(np.argmin(d), d.shape)
            ctx.violation("distance", f"{what}: positions {i} and {j} have distance {d[i, j]:.6f} below {dist}")
        m = xy.mean(axis=0)
        if np.abs(m - np.asarray(centre, dtype=float)).max() > 1e-9 * scale:
            ctx.violation("centre", f"{what}: mean {m} instead of {centre}")

    def valid(self, ctx, what, j, out, adv=None):
        if j["kind"] == "xy":
            self.distances(ctx, what, out, j["n"], j["dist"], [0, 0])
            if adv is not None and adv.draws == 1:
                top = j.get("xmax_ini") or np.sqrt(j["n"]) * j["dist"]
                if np.ptp(out, axis=0).max() > top * (1 + 1e-9):
                    ctx.violation("area", f"{what}: extent {np.ptp(out, axis=0)} beyond the initial {top}")
        elif j["kind"] == "farm":
            b = j.get("before", 0)
            if len(out) != b + j["n"]:
                ctx.violation("number", f"{what}: {len(out) - b} turbines")
            for i, (name, idx, xy, D, H, models) in enumerate(out):
                if (name, idx) != (f"T{i}", i):
                    ctx.violation("turbine", f"{what}: turbine {i} is {name} with index {idx}")
                if i < b:
                    if tuple(xy) != (10.0 * i, -7.0) or models != ["old"]:
                        ctx.violation("turbine", f"{what}: the earlier turbine {i} is now at {xy}, models {models}")
                elif [D, H] != (j.get("DH") or [None, None]) or models != ["a", "b"]:
                    ctx.violation("turbine", f"{what}: turbine {i} has D, H = {D}, {H}, models {models}")
            self.distances(ctx, what, [x[2] for x in out[b:]], j["n"], j["dist"], j.get("centre") or [0, 0])
        else:
            if isinstance(out, str):
                ctx.violation("arguments", f"{what}: {out}")
            import pandas as pd

            times, iname, cols, data = out
            want = pd.date_range(j["start"], periods=j["n"], freq=j["freq"]).to_numpy()
            if j["freq"] == "D":
                want = want.astype("datetime64[D]").astype(want.dtype)
            if j["freq"] == "h":
                want = want.astype("datetime64[h]").astype(want.dtype)
            if len(times) != j["n"] or iname != "Time":
                ctx.violation("number", f"{what}: {len(times)} times, index {iname}")
            if j["freq"] in ("h", "D", "s") and not np.array_equal(times.astype("datetime64[s]"), want.astype("datetime64[s]")):
                ctx.violation("times", f"{what}: times {times[:3]} instead of {want[:3]}")
            if len(np.unique(times)) != j["n"]:
                ctx.violation("times", f"{what}: repeated times")
            rg = {"WS": [0.0, 30.0], "WD": [0.0, 360.0]}
            rg.update(j.get("ranges") or {})
            if sorted(cols) != sorted(rg):
                ctx.violation("variables", f"{what}: {cols}")
            for k, c in enumerate(cols):
                lo, hi = rg[c]
                a = data[:, k]
                if not (np.all(a >= lo) and np.all(a < hi)):
                    ctx.violation("range", f"{what}: {c} between {a.min()} and {a.max()}, not in [{lo}, {hi})")

    # -- modes --------------------------------------------------------------
    def run_stream(self, spec, ctx, sim):
        j = spec["job"]
        what = f"{j} with first random numbers {spec['script']}"
        top = j.get("xmax_ini") or np.sqrt(j["n"]) * j.get("dist", 0) or 1.0
        adv = Adversary(sim, spec["script"], spec["seed"] % (1 << 32), unit=min(0.999, (j.get("dist") or 1.0) / top))
        with adv.installed():
            out = common.attempt(layout_task, j)
        if not out.ok:
            ctx.violation("raises", f"{what}: {out.show()}")
        ctx.evals += 1
        self.valid(ctx, what, j, out.res, adv)
        ctx.count("draws", adv.draws)
        if adv.draws > 1:
            ctx.count("redrawn")
        if adv.used and j["n"] > 2:
            ctx.count("nontrivial")

    def run_abl(self, spec, ctx, sim):
        import pandas as pd

        from foxes.input.states import create

        cols, v2c = spec["cols"], spec["v2c"]
        script = [k for k in spec["script"] if k not in ("zero",)]
        what = f"stability states {({k: spec[k] for k in ('n', 'cols', 'v2c', 'mol', 'normalize')})}"
        kw = dict(mol_abs_range=None if spec["mol"] is None else tuple(spec["mol"]), normalize=spec["normalize"])

        def stream():
            return Adversary(sim, script, spec["seed"] % (1 << 32))

        given = {c: list(r) for c, r in cols.items()}, dict(v2c)
        with stream().installed() as adv:
            out = common.attempt(create.create_random_abl_states, spec["n"], cols, var2col=v2c, **kw)
        if not out.ok:
            ctx.violation("raises", f"{what}: {out.show()}")
        d = out.res
        ctx.evals += 1
        if ({c: list(r) for c, r in cols.items()}, dict(v2c)) != given:
            ctx.violation("arguments", f"{what}: arguments modified")
        if len(d) != spec["n"] or list(d.columns) != list(cols) or list(d.index) != list(range(spec["n"])):
            ctx.violation("number", f"{what}: {d.shape}, {list(d.columns)}")
        mc, wc = v2c.get("MOL", "MOL"), v2c.get("weight", "weight")
        for c, (lo, hi) in cols.items():
            a = d[c].to_numpy(dtype=float)
            if c == wc and spec["normalize"]:
                if abs(a.sum() - 1) > 1e-9 or a.min() < 0:
                    ctx.violation("weights", f"{what}: weights sum {a.sum()}")
                if a.max() > a.min() * hi / lo * (1 + 1e-9):
                    ctx.violation("weights", f"{what}: weights {a.min()} to {a.max()}")
                continue
            if c == mc and spec["mol"] is not None:
                ok = np.isnan(a) | ((np.abs(a) >= spec["mol"][0]) & (np.abs(a) <= spec["mol"][1]))
                if not ok.all():
                    ctx.violation("range", f"{what}: {c} = {a[~ok][:3]}")
                a = a[~np.isnan(a)]
            if not (np.all(a >= lo) and np.all(a < hi)):
                ctx.violation("range", f"{what}: {c} between {a.min()} and {a.max()}")
        if spec["file"]:
            from .c13 import Limit

            path = os.path.join(ctx.scratch, "abl.csv")
            f = spec["fault"]

            def write():
                with stream().installed():
                    create.write_random_abl_states(path, spec["n"], cols, var2col=v2c, digits=spec["digits"], verbosity=0, **kw)

            for again in range(2):
                if f is not None and not again:
                    sim.fired["write/limit"] += 1
                    sim.ev("FAULT", "write", "limit", f)
                    with Limit(f).on():
                        res = common.attempt(write)
                else:
                    res = common.attempt(write)
                    if not res.ok:
                        ctx.violation("raises", f"{what}, file, digits {spec['digits']}: {res.show()}")
                if res.ok:
                    g = pd.read_csv(path, index_col=0)
                    if list(g.columns) != list(cols) or len(g) != spec["n"]:
                        ctx.violation("file", f"{what}: file with {g.shape}, {list(g.columns)}, limit {f}")
                    for c in cols:
                        a, b = d[c].to_numpy(dtype=float), g[c].to_numpy(dtype=float)
                        dg = spec["digits"]
                        if dg == "auto":
                            dg = {wc: None, mc: 1, v2c.get("TI", "TI"): 6}.get(c, 4)
                        elif c == wc:
                            dg = None
                        tol = 1e-12 * np.abs(a[np.isfinite(a)]).max(initial=1.0) if dg is None else 0.5000001 * 10.0**-dg
                        if not np.allclose(a, b, rtol=0, atol=tol, equal_nan=True):
                            k = int(np.nanargmax(np.abs(a - b)))
                            ctx.violation("file", f"{what}, digits {spec['digits']}: {c} written as {b[k]} instead of {a[k]}")
                    ctx.count("file_ok")
                else:
                    ctx.count("file_failed")
        if adv.used and spec["n"] > 2:
            ctx.count("nontrivial")

    def run_seeded(self, spec, ctx, sim):
        np.random.seed(spec["seed"] % (1 << 32))
        known = {}
        hist = None  # what the common stream has given since it was seeded
        rep = False
        for i, o in enumerate(spec["ops"]):
            if o["op"] == "noise":
                np.random.uniform(0, 1, o["n"])
                if hist is not None:
                    hist.append(("noise", o["n"]))
                continue
            if o["op"] == "reseed":
                np.random.seed(o["seed"])
                hist = [("seed", o["seed"])]
                continue
            j = o["job"]
            what = f"call {i} {j} after {[p.get('op') for p in spec['ops'][:i]]}"
            seeded = j.get("seed") is not None
            st = np.random.get_state()[1:3]
            out = common.attempt(layout_task, j)
            if not out.ok:
                ctx.violation("raises", f"{what}: {out.show()}")
            self.valid(ctx, what, j, out.res)
            ctx.evals += 1
            k = repr(sorted(j.items(), key=str)) if seeded else None
            if seeded:
                now = np.random.get_state()[1:3]
                if now[1] != st[1] or not np.array_equal(now[0], st[0]):
                    ctx.violation("disturbs", f"{what}: a call with seed changes the random numbers of others")
            elif hist is not None:
                hist.append(repr(j))
                k = repr(hist)
            if k is not None:
                r = norm(out.res)
                if k in known:
                    rep = True
                    if known[k] != r:
                        ctx.violation("differs", f"{what}: the same stream gives another result")
                known[k] = r
            sim.ev("call", i)
        if rep:
            ctx.count("nontrivial")

    def run_tasks(self, spec, ctx, sim):
        jobs = spec["jobs"]
        want = [layout_task(j) for j in jobs]
        for j, r in zip(jobs, want):
            self.valid(ctx, f"{j}", j, r)
        plat = seams.Platform(sim, spec["platform"])
        e = spec["engine"]
        with seams.installed(plat):
            seams.reset_global_engine()
            with seams.make_engine(e, plat) as eng:
                out = common.attempt(lambda: eng.map(layout_task, jobs))
        seams.reset_global_engine()
        ctx.evals += 1
        what = f"map of {jobs} on {e}"
        if not out.ok:
            ctx.violation("raises", f"{what}: {out.show()}")
        if len(out.res) != len(want):
            ctx.violation("number", f"{what}: {len(out.res)} results")
        for i, (a, b) in enumerate(zip(out.res, want)):
            if norm(a) != norm(b):
                ctx.violation("differs", f"{what}: result {i} differs from the one of the same seed alone")
        ctx.count("engine_" + e["kind"])
        if e.get("n_procs", 1) > 1 and len(jobs) > 1:
            ctx.count("nontrivial")


CHECK = C14()
