"""C08: executing a chunk task again does not change the results"""

from .. import common, refs, seams, worlds


class C08:
    ID = "C08"
    N = dict(quick=350, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a random world; tasks are executed again on the same worker, or after their result or worker was lost, by the simulated "
        "cluster and pools, and each calculation is done two or three times with the same objects; non-trivial: a task was executed "
        "again and the calculation succeeded, or a calculation was repeated"
    )

    def gen(self, rng, tier, i):
        w = worlds.gen_world(
            rng,
            algo="Iterative" if rng.random() < 0.35 else "Downwind",
            nmax=9,
            nmin=2,
            frames=(worlds.FRAMES_STEADY + ["timelines", "timelines_1min"]) if rng.random() < 0.3 else None,
        )
        if w["algo"] == "Iterative" and rng.random() < 0.2:
            w["frame"] = "dyn_wakes"
            w["n_turbines"] = rng.choice([2, 3])
            w["wakes"] = [x for x in w["wakes"] if "IX" not in x] or ["Jensen_linear_k007"]
            w["n_states"] = max(2, min(6, w["n_states"]))
            worlds._constrain(w)
        if w["algo"] == "Iterative" and not w["frame"].startswith(("dyn_wakes", "timelines")) and rng.random() < 0.6:
            w["max_it"] = rng.choice([1, 2, 2, 2, 3])
        w["n_turbines"] = min(w["n_turbines"], 4)
        it = w["algo"] == "Iterative" and "max_it" in w and w["max_it"] < 5
        if it:
            w["n_turbines"] = rng.choice([3, 4, 5])
        n = worlds.true_n_states(w)
        p = common.gen_points(rng, w, nmax=8)
        p["vary"] = p["vary"] and not p.get("isel")
        if w["frame"].startswith(("dyn_wakes", "timelines")):
            p = None
        kinds = ["local_cluster"] * 6 + ["ray", "ray", "process", "multiprocess", "mpi", "xarray", "threads", "numpy", "single", "dask", "default"]
        if it:
            kinds = ["local_cluster"] * 9 + kinds
        e = seams.gen_engine(rng, kinds=kinds, n_states=n, n_points=p["n"] if p else 0)
        fl = []
        for _ in range(rng.choice([1, 2, 3])):
            nth = rng.randrange(8)
            o = rng.choice(["dup", "dup", "dup"] + ["dup"] * 6 * it + ["after", "lost"])
            if o == "dup":
                fl.append(dict(point="task.dup", kind="dup", nth=nth, times=rng.choice([1, 2, 20] + [100] * 3 * it)))
            elif o == "after" and e["kind"] in ("local_cluster", "ray"):
                fl.append(dict(point="worker.crash", kind="crash", when="after", nth=nth))
            elif o == "lost" and e["kind"] == "ray":
                fl.append(dict(point="result.lost", kind="lost", nth=nth))
        plat = seams.gen_platform(rng)
        if it and rng.random() < 0.7:
            plat["wthreads"] = 1
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            points=p,
            engine=e,
            platform=plat,
            faults=fl,
            repeat=rng.choice([1, 2, 2, 3]),
            prepeat=rng.choice([1, 2]),
            reopen=rng.random() < 0.3,
        )

    def run(self, spec, ctx):
        w, p = spec["world"], spec["points"]
        ref = common.ref_farm(w, ctx.scratch, points=p)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        crash = any(f["point"] == "worker.crash" for f in spec["faults"])
        done = [0]

        def check(k, ds, rep):
            d = refs.compare(ref.res[k], refs.to_plain(ds), *common.tols(w))
            ctx.evals += 1
            done[0] += 1
            if d:
                ctx.violation(
                    "differs", f"{k} results {rep} on {spec['engine']}, executed again: {dict(sim.fired)}: " + common.short(d)
                )

        def go():
            a = worlds.World(w, ctx.scratch).algo()
            e = None
            for j in range(spec["repeat"]):
                if e is None:
                    e = seams.make_engine(spec["engine"], plat)
                    e.initialize()
                try:
                    r = common.calc_farm_with(a, w)
                    check("farm", r, j)
                    if p is not None:
                        for jj in range(spec["prepeat"]):
                            check("points", common.calc_points(a, r, w, p), (j, jj))
                    if spec["reopen"]:
                        e.finalize()
                        e = None
                except BaseException:
                    common.attempt(e.finalize)
                    raise
            if e is not None:
                e.finalize()

        with seams.installed(plat):
            out = common.attempt(go)
        seams.reset_global_engine()
        if not out.ok and not (crash and sum(sim.fired.values())):
            ctx.violation("raises", f"{done[0]} calculations, then {out.show()} on {spec['engine']}, executed again: {dict(sim.fired)}")
        ctx.count("engine_" + spec["engine"]["kind"])
        if done[0] > (2 if p else 1) or (done[0] and sum(sim.fired.values())):
            ctx.count("nontrivial")


CHECK = C08()
