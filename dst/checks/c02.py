"""C02: point results do not depend on engine, chunking or schedule"""

from .. import common, refs, seams, worlds
from .c01 import gen_any_world


class C02:
    ID = "C02"
    N = dict(quick=560, thorough=40000)
    TIMEOUT = 60
    RULE = (
        "a random world x points (fixed or moving, 1 to 40, selected outputs, states "
        "subsets, chunked results, ambient, additional point models with and without data of their own) x engine kind x chunk sizes for states and points x simulated "
        "platform; non-trivial: more than one chunk was computed and all point variables "
        "were compared with the single chunk result of private objects"
    )

    def gen(self, rng, tier, i):
        w = gen_any_world(rng)
        n = worlds.true_n_states(w)
        p = common.gen_points(rng, w, nmax=rng.choice([3, 12, 12, 40]), pmodels=True)
        dyn = w["frame"].startswith(("dyn_wakes", "timelines"))
        if dyn:
            # known finding KF2: a subset of the states has another history
            p.pop("isel", None)
            # known finding KF3: dynamic wakes of a single turbine
            w["n_turbines"] = max(w["n_turbines"], 2)
        p["vary"] = p["vary"] and not p.get("isel")
        if rng.random() < 0.12:
            p["ambient"] = True
        if p.get("isel") and rng.random() < 0.4:
            p["sel"] = True
        if p["seed"] % 7 == 3:
            p["chunked"] = True
        e = seams.fit_engine(seams.gen_engine(rng, n_states=n, n_points=p["n"]), w)
        # known finding KF1: dynamic wakes need the states chunks of the farm
        # calculation also for the points
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            points=p,
            engine=e,
            farm_engine="same" if w["frame"].startswith("dyn_wakes") else rng.choice(["single", "single", "same"]),
            platform=seams.gen_platform(rng),
        )

    def _points(self, a, r, w, p, cand=False):
        over = {}
        if cand and p.get("chunked"):
            # the results as dask arrays
            over["chunked_results"] = True
        if p.get("ambient"):
            over["ambient"] = True
        if p.get("sel") and p.get("isel") and "state" in r.coords:
            n = worlds.true_n_states(w)
            i = [j for j in p["isel"] if j < n] or [0]
            over["states_sel"] = [r["state"].values[j] for j in i]
            q = {k: v for k, v in p.items() if k != "isel"}
            return common.calc_points(a, r, w, q, n_states=len(i), **over)
        return common.calc_points(a, r, w, p, **over)

    def run(self, spec, ctx):
        w, p = spec["world"], spec["points"]

        def reference():
            W = worlds.World(w, ctx.scratch)
            with common.single():
                a, r = common.calc_farm(W)
                return refs.to_plain(r), refs.to_plain(self._points(a, r, w, p))

        ref = common.attempt(reference)
        sim = ctx.sim()
        plat = seams.Platform(sim, spec.get("platform"))

        def go():
            W = worlds.World(w, ctx.scratch)
            if spec["farm_engine"] == "single":
                with common.single():
                    a, r = common.calc_farm(W)
                with seams.make_engine(spec["engine"], plat):
                    return refs.to_plain(self._points(a, r, w, p, True))
            with seams.make_engine(spec["engine"], plat):
                a, r = common.calc_farm(W)
                return refs.to_plain(self._points(a, r, w, p, True))

        with seams.installed(plat):
            got = common.attempt(go)
        seams.reset_global_engine()
        ctx.evals += 1
        ctx.count("engine_" + spec["engine"]["kind"])
        ctx.count("frame_" + w["frame"])
        if p.get("pmodels"):
            ctx.count("point_models")
        if not ref.ok:
            if got.ok:
                ctx.violation(
                    "differs",
                    f"single chunk calculation fails with {ref.show()}, engine {spec['engine']} returns results",
                )
            if p.get("pmodels"):
                q = {k: v for k, v in p.items() if k != "pmodels"}

                def plain():
                    W = worlds.World(w, ctx.scratch)
                    with common.single():
                        a, r = common.calc_farm(W)
                        return self._points(a, r, w, q)

                if common.attempt(plain).ok:
                    ctx.violation(
                        "raises",
                        f"point models {p['pmodels']} fail with {ref.show()}, "
                        "without them the calculation works",
                    )
            ctx.skip("reference: " + ref.show()[:80])
        if not got.ok:
            ctx.violation(
                "raises", f"engine {spec['engine']} fails with {got.show()}, single chunk does not"
            )
        d = refs.compare(ref.res[1], got.res, *common.tols(w))
        if d:
            ctx.violation("differs", f"engine {spec['engine']}: " + common.short(d))
        if sim.nev > 4 or spec["engine"]["kind"] == "numpy":
            ctx.count("nontrivial")


CHECK = C02()
