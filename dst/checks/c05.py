"""C05: one active engine at a time, and it always releases what it holds"""

import copy
import gc
import os

from .. import bomb, common, refs, seams, worlds

OPS = [
    "enter",
    "enter",
    "enter",
    "init",
    "init",
    "exit",
    "exit",
    "exit_exc",
    "final",
    "calc",
    "calc",
    "calc_fail",
    "map",
    "map_fail",
    "reset",
    "del",
    "get",
    "get_default",
    "with_fail",
]


def double(x, a, b=0):
    return a * x + b


def fail(x, flag):
    raise ValueError(f"mapped function {x}")


class C05:
    ID = "C05"
    N = dict(quick=900, thorough=60000)
    TIMEOUT = 60
    RULE = (
        "a random sequence of 6 to 18 operations (enter, initialize, exit with and without exception, finalize, calculations and "
        "maps that work or fail, reset, delete, default engine) on three engines, with failing starts and stops of pools, clusters "
        "and clients; non-trivial: at least two engines were started and one operation was refused or has failed"
    )

    def gen(self, rng, tier, i):
        w = dict(
            algo="Downwind",
            seed=rng.randrange(1 << 30),
            states="timeseries",
            n_states=rng.randint(2, 4),
            n_turbines=2,
            layout="row",
            ttype="NREL5MW",
            wakes=["Jensen_linear_k007"],
            frame="rotor_wd",
            rotor="centre",
            tmodels=["bomb"],
        )
        engines = []
        for _ in range(3):
            e = seams.gen_engine(rng, n_states=w["n_states"])
            if e["kind"] in seams.DASK_KINDS:
                e["pbar"] = rng.random() < 0.4
                e["dconf"] = rng.random() < 0.5
            engines.append(e)
        if rng.random() < 0.3:
            engines[1] = dict(engines[0])
        ops = []
        for _ in range(rng.randint(6, 18 if tier == "quick" else 30)):
            o = rng.choice(OPS)
            ops.append([o, rng.randrange(3), rng.choice(["error", "interrupt", "memory", "eio"])])
        fl = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            fl.append(
                dict(
                    point=rng.choice(["pool.start", "pool.start", "pool.stop", "pool.stop", "client.start", "client.stop"]),
                    kind=rng.choice(["error", "memory", "emfile", "interrupt"]),
                    nth=rng.randrange(4),
                    times=rng.choice([1, 1, 2]),
                )
            )
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            engines=engines,
            platform=dict(seams.gen_platform(rng), preempt=0),
            ops=ops,
            faults=fl,
        )

    def run(self, spec, ctx):
        import dask
        import foxes.core.engine as ce
        from dask.callbacks import Callback

        w = spec["world"]
        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        flag = os.path.join(ctx.scratch, "bomb")

        def world():
            W = worlds.World(w, ctx.scratch)
            W.mbook.turbine_models["bomb"] = bomb.make_bomb(flag)
            return W

        def ref():
            with common.single():
                return refs.to_plain(world().algo().calc_farm())

        want = common.attempt(ref)
        if not want.ok:
            ctx.skip(want.show()[:80])
        a = None
        hist = []
        foreign = {"fx": dict(a=1)}

        with seams.installed(plat):
            dask.config.set(foreign)
            seams.reset_global_engine()
            conf0 = copy.deepcopy({k: v for k, v in dask.config.config.items()})

            def make(i):
                s = spec["engines"][i]
                e = seams.make_engine(s, plat if s.get("dconf") or s["kind"] in ("dask", "xarray") else None)
                calls = [0]
                orig = e.run_calculation

                def counted(*x, **k):
                    calls[0] += 1
                    return orig(*x, **k)

                e.run_calculation = counted
                e.xcalls = calls
                return e

            E = [make(i) for i in range(3)]
            conf = [self.settings(e) for e in E]
            active = None  # index, "auto" or None
            auto = None

            def bad(cls, msg):
                ctx.violation(cls, f"{msg}; engines {[s['kind'] for s in spec['engines']]}, history {hist}, faults {dict(sim.fired)}")

            def now():
                return ce.get_engine(error=False, default=False)

            def start(i, fn):
                """Operations that may start engine i"""
                nonlocal active
                n = sum(sim.fired.values())
                out = common.attempt(fn)
                fault = sum(sim.fired.values()) > n
                if active == i:
                    return out, "again"
                if active is not None:
                    if out.ok:
                        bad("not_refused", f"engine {i} was started while engine {active} was active")
                    ctx.count("refused")
                    return out, "refused"
                if out.ok:
                    active = i
                    ctx.count("started")
                    ctx.count("started_" + spec["engines"][i]["kind"])
                elif not fault:
                    bad("raises", f"start of engine {i} fails with {out.show()}")
                else:
                    ctx.count("failed_start")
                return out, "start"

            def stop(i, fn):
                nonlocal active
                n = sum(sim.fired.values())
                out = common.attempt(fn)
                fault = sum(sim.fired.values()) > n
                if active == i:
                    if not out.ok and not fault:
                        bad("raises", f"stop of engine {i} fails with {out.show()}")
                    if not out.ok:
                        ctx.count("failed_stop")
                    active = None

            def calc(kind=None):
                """A calculation; kind: the model fails"""
                nonlocal a, active, auto
                a = a or world().algo()
                if kind:
                    if isinstance(active, int) and spec["engines"][active]["kind"] == "multiprocess" and kind == "interrupt":
                        kind = "error"  # would kill the worker, the library hangs
                    with open(flag, "w") as f:
                        f.write(kind)
                n = sum(sim.fired.values())
                c0 = [e.xcalls[0] for e in E]
                try:
                    out = common.attempt(lambda: refs.to_plain(a.calc_farm()))
                finally:
                    if kind:
                        os.remove(flag)
                fault = sum(sim.fired.values()) > n
                if active is None:
                    auto = now()
                    if auto is not None:
                        active = "auto"
                    elif not fault:
                        bad("inactive", "no engine is active after a calculation with the default engine")
                used = [k for k, e in enumerate(E) if e.xcalls[0] > c0[k]]
                if used != ([active] if isinstance(active, int) else []):
                    bad("wrong_engine", f"calculation by engines {used}, but {active} is active")
                if out.ok and kind:
                    bad("swallowed", f"the error {kind} of a user model was suppressed")
                if not out.ok and not kind and not fault:
                    bad("raises", f"calculation fails with {out.show()}")
                if kind and not fault and "user model" not in out.show():
                    bad("masked", f"the error {kind} of a user model arrives as {out.show()}")
                if out.ok:
                    d = refs.compare(want.res, out.res)
                    if d:
                        bad("differs", common.short(d))
                return out

            def rmap(f):
                e = now()
                if e is None:
                    return
                n = sum(sim.fired.values())
                if f:
                    out = common.attempt(lambda: e.map(fail, [1, 2, 3], flag))
                    if out.ok:
                        bad("swallowed", "map: the error of the function was suppressed")
                else:
                    out = common.attempt(lambda: list(e.map(double, [1, 2, 3, 4, 5], 2, b=1)))
                    if sum(sim.fired.values()) == n:
                        if not out.ok:
                            bad("raises", f"map fails with {out.show()}")
                        elif out.res != [3, 5, 7, 9, 11]:
                            bad("differs", f"map returns {out.res}")

            for o, i, kind in spec["ops"]:
                e = E[i]
                hist.append(f"{o}{i}")
                if o == "enter":
                    out, what = start(i, e.__enter__)
                elif o == "init":
                    out, what = start(i, e.initialize)
                    if what == "again" and not out.ok:
                        bad("raises", f"initialize of the active engine {i}: {out.show()}")
                elif o == "exit":
                    stop(i, lambda: e.__exit__(None, None, None))
                elif o == "exit_exc":
                    x = KeyboardInterrupt()
                    stop(i, lambda: e.__exit__(type(x), x, None))
                elif o == "final":
                    stop(i, e.finalize)
                elif o == "calc":
                    calc()
                elif o == "calc_fail":
                    calc(kind)
                elif o in ("map", "map_fail"):
                    rmap(o == "map_fail")
                elif o == "reset":
                    stop(active, ce.reset_engine)
                elif o == "get":
                    out = common.attempt(lambda: ce.get_engine(default=False))
                    if out.ok != (active is not None):
                        bad("get_engine", f"get_engine: {out.show()} while {active} is active")
                elif o == "get_default":
                    if active is None:
                        start(i, lambda: ce.get_engine(default=e))
                    else:
                        ce.get_engine(default=e)
                elif o == "with_fail":
                    if active is None:
                        n = sum(sim.fired.values())

                        def block():
                            nonlocal active
                            with e:
                                active = i
                                out = calc(kind)
                                raise out.exc

                        out = common.attempt(block)
                        active = None
                        if out.ok:
                            bad("swallowed", "the error within a with block was suppressed")
                        elif "user model" not in out.show() and sum(sim.fired.values()) == n:
                            bad("masked", f"the error within a with block arrives as {out.show()}")
                        del out
                elif o == "del":
                    if active != i:
                        e = None
                        E[i] = None
                        gc.collect()
                        E[i] = make(i)
                        conf[i] = self.settings(E[i])
                out = None
                ctx.evals += 1
                # what must hold after each operation
                x = now()
                wanted = auto if active == "auto" else None if active is None else E[active]
                if x is not wanted:
                    bad("active", f"{type(x).__name__} is the active engine instead of {type(wanted).__name__} ({active})")
                if ce.has_engine() != (wanted is not None):
                    bad("active", "has_engine")
                for k, ek in enumerate(E):
                    if ek.initialized != (active == k):
                        bad("active", f"engine {k}: initialized is {ek.initialized}, active is {active}")
                    s = self.settings(ek)
                    if s != conf[k]:
                        bad("settings", f"engine {k}: settings {s} instead of {conf[k]}")
                lk = plat.leaks()
                knd = spec["engines"][active]["kind"] if isinstance(active, int) else "default"
                exp = 0 if active is None or knd in ("single", "numpy", "default", "dask", "xarray") else 2 if knd == "local_cluster" else 1
                if len(lk) != exp:
                    bad("leak", f"{len(lk)} open resources {lk} instead of {exp}, active: {active} {knd}")
                if active is None or knd not in seams.DASK_KINDS:
                    if Callback.active:
                        bad("leak", "a progress bar is active")
                    if dask.config.config != conf0:
                        bad("settings", f"dask settings are not restored: {self.diff(conf0, dask.config.config)}")
                elif bool(Callback.active) != bool(spec["engines"][active].get("pbar")):
                    bad("leak", f"{len(Callback.active)} progress bars of the active engine")
            if ctx.cov.get("started", 0) > 1 and (ctx.cov.get("refused", 0) + sum(sim.fired.values())):
                ctx.count("nontrivial")
            if active is not None:
                common.attempt(ce.reset_engine)
        seams.reset_global_engine()

    def settings(self, e):
        return {
            k: copy.deepcopy(v) if k != "dask_config" else {str(a): str(b) for a, b in v.items()}
            for k, v in vars(e).items()
            if k in ("chunk_size_states", "chunk_size_points", "n_procs", "verbosity", "progress_bar", "dask_config", "cluster_pars", "client_pars")
        }

    def diff(self, a, b):
        return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


CHECK = C05()
