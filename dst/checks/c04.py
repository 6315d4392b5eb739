"""C04: after a failed or interrupted calculation the same objects calculate correctly"""

from .. import common, faults, lines, refs, seams, worlds
from ..kernel import make_exc

RETRY = ["same_algo_same_engine", "same_algo_new_engine", "same_algo_single", "new_algo_same_engine", "new_algo_single"]


class InCalc:
    """
    Line fault of the calling thread, counted only while a calculation is
    executed by the engine
    """

    def __init__(self, sim, f):
        self.sim, self.f, self.ra = sim, f, None

    def __call__(self, run):
        f = self.f
        if f is None or f.get("_done"):
            return run()
        self.ra = ra = lines.RaiseAt(f["left"], lambda: make_exc(f["kind"]), main=True)
        if lines.active():
            return run()
        with ra:
            try:
                return run()
            finally:
                f["left"] = ra.left
                if ra.fired:
                    f["_done"] = True
                    self.sim.fired[f"main/{f['kind']}"] += 1
                    self.sim.ev("FAULT", "main", f["kind"], ra.where)


class C04:
    ID = "C04"
    N = dict(quick=350, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a random world; a farm or point calculation is ended by a fault (error or interrupt at a line of a task or of the "
        "calling thread within the calculation, pool operation, worker crash), then one to three calculations with the same objects "
        "on the same or another engine; non-trivial: the calculation ended with an error, and a retry was compared"
    )

    def gen(self, rng, tier, i):
        w = worlds.gen_world(rng, algo="Iterative" if rng.random() < 0.2 else "Downwind", nmax=8, nmin=2)
        w["n_turbines"] = min(w["n_turbines"], 4)
        n = worlds.true_n_states(w)
        p = common.gen_points(rng, w, nmax=8)
        p["vary"] = p["vary"] and not p.get("isel")
        if w["frame"].startswith(("dyn_wakes", "timelines")):
            p = None
        e = seams.gen_engine(rng, n_states=n, n_points=p["n"] if p else 0)
        nt = max(2, n // (e.get("css") or n))
        fl = [f for f in faults.gen_faults(rng, e, ntasks=nt) if f["point"] not in ("pool.stop", "pool.start", "client.start")]
        if not fl:
            fl = [faults.main_fault(rng, 60000)]
        # faults late in the calculation: a fraction of the visits of the injection point
        if rng.random() < (0.7 if w["algo"] == "Iterative" else 0.2):
            for f in fl:
                f["frac"] = round(rng.random() if rng.random() < 0.4 else 1 - 0.25 * rng.random() ** 2, 4)
                if f["point"] == "task" and rng.random() < 0.6:
                    f["at"] = int(rng.random() * 300)
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            points=p,
            fail_op="points" if p and rng.random() < 0.4 else "farm",
            before=rng.random() < 0.3,
            engine=e,
            platform=seams.gen_platform(rng),
            faults=fl,
            retry=[rng.choice(RETRY) for _ in range(rng.choice([1, 1, 2, 3]))],
            engine2=seams.gen_engine(rng, n_states=n, n_points=p["n"] if p else 0),
        )

    def run(self, spec, ctx):
        w, p = spec["world"], spec["points"]
        ref = common.ref_farm(w, ctx.scratch, points=p)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        plan = [dict(f) for f in spec["faults"]]
        if any("frac" in f for f in plan):
            counts = self.count(spec, ctx)
            for f in plan:
                n = counts.get(f["point"], 0)
                if "frac" in f and n:
                    f["at" if f["point"] == "main" else "nth"] = min(int(f["frac"] * n), n - 1)
        sim = ctx.sim(faults=[])
        plat = seams.Platform(sim, spec["platform"])
        mf = next((dict(f, left=f["at"] + 1) for f in plan if f["point"] == "main"), None)
        inc = InCalc(sim, mf)

        def arm():
            sim.faults = [dict(f, _seen=0, _fired=0) for f in plan]

        def disarm():
            sim.faults = []
            inc.f = None

        def judge(what, k, out):
            if not out.ok:
                ctx.violation("raises", f"{what} fails with {out.show()} after fault {list(sim.fired)} ({self.where(inc)}) in {spec['fail_op']} on {spec['engine']}")
            d = refs.compare(ref.res[k], out.res, *common.tols(w))
            if d:
                ctx.violation("differs", f"{what}: {k} after fault {list(sim.fired)} ({self.where(inc)}) in {spec['fail_op']} on {spec['engine']}: " + common.short(d))

        def farm(a):
            return a.calc_farm(ambient=True) if w.get("ambient") else a.calc_farm(**({"normalize": True} if w.get("normalize") else {}))

        with seams.installed(plat):
            W = worlds.World(w, ctx.scratch)
            e = seams.make_engine(spec["engine"], plat)
            e.initialize()
            orig = e.run_calculation
            hook = {"orig": orig}
            e.run_calculation = lambda *x, **k: inc(lambda: orig(*x, **k))
            a = W.algo()
            r = None
            if spec["before"] or spec["fail_op"] == "points":
                inc.f = None
                out = common.attempt(lambda: farm(a))
                if not out.ok:
                    ctx.violation("raises", f"first calculation on {spec['engine']}: {out.show()}")
                r = out.res
                inc.f = mf
            arm()
            if spec["fail_op"] == "points":
                out = common.attempt(lambda: refs.to_plain(common.calc_points(a, r, w, p)))
                k = "points"
            else:
                out = common.attempt(lambda: refs.to_plain(farm(a)))
                k = "farm"
            disarm()
            failed = not out.ok
            ctx.count("failed" if failed else "not_failed")
            ctx.count("engine_" + spec["engine"]["kind"])
            if not failed:
                judge("calculation with fault", k, out)
            broken = "Broken" in type(out.exc).__name__ or any(f.startswith("worker.crash") for f in sim.fired)
            pts = lambda a, r: refs.to_plain(common.calc_points(a, r, w, p))
            active = True
            for q in spec["retry"]:
                if "same_engine" in q and (broken or not active):
                    q = q.replace("same_engine", "new_engine")
                if "same_engine" not in q and active:
                    del e.run_calculation
                    common.attempt(e.finalize)
                    seams.reset_global_engine()
                    active = False
                b = a if q.startswith("same_algo") else worlds_algo(W)

                def go():
                    fr = farm(b)
                    o = dict(farm=refs.to_plain(fr))
                    if p is not None:
                        o["points"] = pts(b, fr)
                    return o

                def run():
                    if "same_engine" in q:
                        return go()
                    if "single" in q:
                        with common.single():
                            return go()
                    with seams.make_engine(spec["engine2"], plat):
                        return go()

                o2 = common.attempt(run)
                if not o2.ok:
                    seams.reset_global_engine()
                ctx.evals += 1
                for kk in ["farm"] + (["points"] if p else []):
                    judge(q, kk, common.Outcome(o2.res[kk]) if o2.ok else o2)
                if failed:
                    ctx.count("nontrivial")
                    ctx.count(q)
                if failed and spec["fail_op"] == "points" and r is not None and kk == "points":
                    pass
            if active:
                del e.run_calculation
                common.attempt(e.finalize)
        seams.reset_global_engine()

    def count(self, spec, ctx):
        """Counts the visits of the injection points in a run without faults"""
        w, p = spec["world"], spec["points"]
        sim = ctx.sim(faults=[], main=False, tag="count")
        plat = seams.Platform(sim, spec["platform"])
        mf = dict(left=10**9, kind="error")
        inc = InCalc(sim, mf)

        def go():
            with seams.make_engine(spec["engine"], plat) as e:
                a = worlds.World(w, ctx.scratch).algo()
                on = [spec["fail_op"] == "farm"]
                orig = e.run_calculation
                e.run_calculation = lambda *x, **k: inc(lambda: orig(*x, **k)) if on[0] else orig(*x, **k)
                try:
                    r = common.calc_farm_with(a, w)
                    if not on[0]:
                        on[0] = True
                        sim.counts.clear()
                        common.calc_points(a, r, w, p)
                finally:
                    del e.run_calculation, orig

        with seams.installed(plat):
            out = common.attempt(go)
        seams.reset_global_engine()
        if not out.ok:
            ctx.skip("run without faults: " + out.show()[:80])
        return dict(sim.counts, main=10**9 - mf["left"])

    def where(self, inc):
        return inc.ra.where if inc.ra is not None and inc.ra.fired else ""


def worlds_algo(W):
    return W.algo()


CHECK = C04()
