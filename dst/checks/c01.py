"""C01: farm results do not depend on engine, chunking or schedule"""

import copy

from .. import common, refs, seams, worlds


OUTPUTS = [["REWS", "P"], ["AMB_REWS", "REWS", "CT"], ["P"], ["X", "TI", "YAW"], ["WD", "RHO"]]


def gen_any_world(rng):
    big = rng.random() < 0.04
    algo = "Iterative" if rng.random() < 0.2 else "Downwind"
    frames = None
    if rng.random() < 0.12:
        algo, frames = "Iterative", rng.choice([["dyn_wakes"], ["timelines"]])
    return worlds.gen_world(rng, algo=algo, frames=frames, nmax=14 if not big else 60)


class C01:
    ID = "C01"
    N = dict(quick=640, thorough=40000)
    TIMEOUT = 60
    RULE = (
        "a random world (states class, wake models, frame, rotor, turbine models) "
        "x engine kind x chunk sizes x simulated platform (workers, stalls, "
        "preemption, task order); non-trivial: more than one chunk was computed and "
        "all result variables were compared with the single chunk result"
    )

    def gen(self, rng, tier, i):
        w = gen_any_world(rng)
        if rng.random() < 0.1:
            w["normalize"] = True
        if rng.random() < 0.12:
            w["outputs"] = rng.choice(OUTPUTS) + (["weight"] if w.get("normalize") else [])
        n = worlds.true_n_states(w)
        if i % 40 == 7:
            # large enough that the default engine selects processes
            w = worlds.gen_world(rng, kinds=["timeseries", "table", "scan"], nmin=12, nmax=16, extra=False)
            w.update(n_turbines=130, frame="rotor_wd", tmodels=[], layout="grid")
            e = dict(kind="default", n_procs=rng.choice([1, 2, 3]), css=rng.choice([None, 3, 5]))
        else:
            e = seams.fit_engine(seams.gen_engine(rng, n_states=n), w)
        return dict(seed=rng.randrange(1 << 40), world=w, engine=e, platform=seams.gen_platform(rng))

    def run(self, spec, ctx):
        w = spec["world"]
        # the reference calculates all variables
        ref = common.ref_farm({k: v for k, v in w.items() if k != "outputs"}, ctx.scratch)
        sim = ctx.sim()
        plat = seams.Platform(sim, spec.get("platform"))

        def go():
            W = worlds.World(w, ctx.scratch)
            with seams.make_engine(spec["engine"], plat) as e:
                a, r = common.calc_farm(W)
                return refs.to_plain(r)

        with seams.installed(plat):
            got = common.attempt(go)
        seams.reset_global_engine()
        ctx.evals += 1
        ctx.count("engine_" + spec["engine"]["kind"])
        ctx.count("frame_" + w["frame"])
        if not ref.ok:
            if got.ok:
                ctx.violation(
                    "differs",
                    f"single chunk calculation fails with {ref.show()}, engine {spec['engine']} returns results",
                )
            ctx.skip("reference: " + ref.show()[:80])
        if not got.ok:
            ctx.violation(
                "raises", f"engine {spec['engine']} fails with {got.show()}, single chunk does not"
            )
        full = ref.res["farm"]
        if w.get("outputs"):
            hv = set(w["outputs"] + ["tname"]).intersection(full["vars"])
            full = dict(full, vars={v: full["vars"][v] for v in full["vars"] if v in hv})
            ctx.count("selected_outputs")
        d = refs.compare(full, got.res, *common.tols(w))
        if d:
            ctx.violation("differs", f"engine {spec['engine']}: " + common.short(d))
        if sim.nev > 4 or spec["engine"]["kind"] == "numpy":
            ctx.count("nontrivial")


CHECK = C01()
