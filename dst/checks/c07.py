"""C07: concurrent tasks on threads do not influence each other"""

import math

from .. import common, refs, seams, worlds

GAPS = [[1], [1, 2, 3], [2, 5, 11], [5, 17, 60], [20, 60, 200], [100, 400, 1500]]


class C07:
    ID = "C07"
    N = dict(quick=420, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a random world with few states and turbines on a thread based engine, with dense preemption from a random line on "
        "(every line to every few hundred lines, up to some ten thousand switches); the same objects then calculate again; "
        "non-trivial: at least 20 preemptions"
    )

    def gen(self, rng, tier, i):
        algo = "Iterative" if rng.random() < 0.2 else "Downwind"
        frames = worlds.FRAMES_STEADY + (["timelines", "timelines_1min"] if rng.random() < 0.3 else [])
        if algo == "Iterative" and rng.random() < 0.2:
            frames = ["dyn_wakes"]
        w = worlds.gen_world(rng, algo=algo, nmin=3, nmax=6, frames=frames)
        w["n_turbines"] = min(w["n_turbines"], 3 if algo == "Downwind" else 2)
        if w["frame"].startswith("dyn_wakes"):
            w["n_turbines"] = 2
        n = worlds.true_n_states(w)
        p = None
        if rng.random() < 0.4 and not w["frame"].startswith(("dyn_wakes", "timelines")):
            p = common.gen_points(rng, w, nmax=5)
            p["vary"] = p["vary"] and not p.get("isel")
        e = seams.gen_engine(rng, kinds=["threads", "threads", "threads", "xarray", "xarray", "local_cluster", "dask"], n_states=n, n_points=p["n"] if p else 0)
        e["n_procs"] = rng.choice([2, 2, 3, 4])
        e["css"] = rng.randint(1, max(1, n // 2))
        if e["kind"] == "local_cluster":
            e["n_procs"] = rng.choice([1, 2])
        plat = dict(
            preempt=rng.choice([300, 1000, 3000, 6000]),
            gaps=rng.choice(GAPS),
            lead=int(math.exp(rng.uniform(0, math.log(80000)))) if rng.random() < 0.7 else 0,
            wthreads=rng.choice([2, 3, 4]),
            dthreads=True,
            cpus=4,
        )
        if rng.random() < 0.6:
            m = rng.choice([6, 12, 24, 48])
            plat["focus"] = [m, rng.randrange(m), rng.choice([20, 60, 200])]
            if rng.random() < 0.6:
                plat["preempt"] = rng.choice([0, 100])
        return dict(seed=rng.randrange(1 << 40), world=w, points=p, engine=e, platform=plat)

    def run(self, spec, ctx):
        w, p = spec["world"], spec["points"]
        ref = common.ref_farm(w, ctx.scratch, points=p)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        sim = ctx.sim(max_steps=2000000)
        plat = seams.Platform(sim, spec["platform"])
        W = worlds.World(w, ctx.scratch)
        what = f"engine {spec['engine']}"

        def judge(k, out, cls, say):
            if not out.ok:
                ctx.violation("raises", f"{say}: {out.show()}")
            d = refs.compare(ref.res[k], out.res, *common.tols(w))
            if d:
                ctx.violation(cls, f"{say}: " + common.short(d))

        with seams.installed(plat):
            a = W.algo()
            e = seams.make_engine(spec["engine"], plat)
            r = None
            with e:
                out = common.attempt(lambda: common.calc_farm_with(a, w))
                r = out.res
                judge("farm", common.Outcome(refs.to_plain(r)) if out.ok else out, "differs", f"farm results of {what}")
                if p is not None:
                    sim.lead = int(spec["platform"].get("lead", 0)) // 2
                    out = common.attempt(lambda: refs.to_plain(common.calc_points(a, r, w, p)))
                    judge("points", out, "differs", f"points results of {what}")
        seams.reset_global_engine()
        ctx.evals += 1
        ctx.count("engine_" + spec["engine"]["kind"])
        ctx.count("frame_" + w["frame"].split("_")[0])
        ctx.count("preemptions", sim.switches)
        if sim.switches >= 20:
            ctx.count("nontrivial")

        # the objects of the caller are as usable as before
        def again():
            with common.single():
                fr = common.calc_farm_with(a, w)
                o = dict(farm=refs.to_plain(fr))
                if p is not None:
                    o["points"] = refs.to_plain(common.calc_points(a, fr, w, p))
                return o

        out = common.attempt(again)
        for k in ref.res:
            judge(k, common.Outcome(out.res[k]) if out.ok else out, "later", f"{k} results of a later calculation with the same objects after {what}")


CHECK = C07()
