"""C09: iterative calculations end and agree with the direct calculation"""

from .. import common, refs, seams, worlds

LOOSE = [{"REWS": 0.3}, {"REWS": 0.01, "TI": 0.01}, {"CT": 1e-3}, {"REWS": 1e-4, "WD": 0.5}]


class C09:
    ID = "C09"
    N = dict(quick=220, thorough=20000)
    TIMEOUT = 100
    RULE = (
        "a random world calculated iteratively on a random engine, chunking and schedule, against the downwind calculation, the "
        "fixed point after many iterations in one chunk, or the same number of iterations in one chunk; then again with the same "
        "object on another engine; non-trivial: more than one chunk and more than two iterations"
    )

    def gen(self, rng, tier, i):
        mode = rng.choice(["downwind", "downwind", "fixed", "fixed", "limit", "loose"])
        frames = list(worlds.FRAMES_STEADY)
        if mode in ("fixed",):
            frames += ["dyn_wakes"] * 5 + ["timelines", "timelines_1min"]
        if mode == "downwind":
            frames += ["timelines"]
        w = worlds.gen_world(rng, algo="Iterative", nmin=2, nmax=6, frames=frames)
        if mode == "downwind":
            w["wakes"] = [x for x in w["wakes"] if x not in worlds.INDUCTIONS]
            # the two algorithms evaluate rotors before and after yaw models
            w["wakes"] = ["Bastankhah2014_linear_k004" if "2016" in x else x for x in w["wakes"]]
            # an order which is downwind in every state, and wakes that only depend on upwind turbines
            w["wakes"] = [x.replace("_loc_lim", "").replace("_loc", "") for x in w["wakes"]]
            # the direct calculation applies one wake model after the other, the second does not change the first
            if len(w["wakes"]) > 1 and any("_ka" in x for x in w["wakes"]) or any("kTI" in x for x in w["tmodels"]):
                w["wakes"] = w["wakes"][:1]
            if w["frame"].startswith(("yawed", "streamlines")) or w["frame"].endswith("farmo"):
                w["frame"] = "rotor_wd"
            if "setyawm" in w["tmodels"]:
                w["tmodels"] = []
        if mode == "fixed" and "hubh_data" in w["tmodels"]:
            w["tmodels"] = []  # directions of vanishing vectors
        w["n_turbines"] = min(max(2, w["n_turbines"]), 3 if w["frame"].startswith("dyn") else 4)
        w["mod_cutin"] = dict(modify_ct=False, modify_P=False)
        n = worlds.true_n_states(w)
        p = None
        if rng.random() < 0.3 and not w["frame"].startswith(("dyn_wakes", "timelines")):
            p = common.gen_points(rng, w, nmax=5)
            p["vary"] = p["vary"] and not p.get("isel")
        e = [seams.gen_engine(rng, n_states=n, n_points=p["n"] if p else 0) for _ in range(2)]
        for x in e:
            if x["kind"] == "single":
                x.update(kind=rng.choice(["process", "threads", "numpy"]), n_procs=2, css=1)
        return dict(
            seed=rng.randrange(1 << 40),
            mode=mode,
            world=w,
            points=p,
            engine=e[0],
            engine2=e[1],
            crit=rng.choice([None] + LOOSE) if mode == "limit" else rng.choice(LOOSE),
            limit=rng.choice([0, 1, 1, 2, 3, 4]),
            again=rng.choice([0, 1, 1, 2]),
            platform=seams.gen_platform(rng),
        )

    def over(self, spec):
        """Arguments of the algorithm"""
        from foxes.algorithms.iterative.models import ConvVarDelta

        m, c = spec["mode"], spec["crit"]
        if m == "limit":
            return dict(max_it=spec["limit"], conv_crit=None if c is None else ConvVarDelta(c))
        if m == "loose":
            return dict(conv_crit=ConvVarDelta(c))
        return dict(max_it=200)

    def run(self, spec, ctx):
        w, p, mode = dict(spec["world"]), spec["points"], spec["mode"]
        rw, ro = dict(w), self.over(spec)
        if mode == "downwind":
            rw.update(algo="Downwind")
            rw.pop("mod_cutin")
            rw.pop("max_it", None)
            ro = {}
        elif mode == "fixed":
            ro = dict(conv_crit=None, max_it=14 + 2 * w["n_turbines"])
        rits = []

        def ref_run():
            with common.single():
                a = worlds.World(rw, ctx.scratch).algo(**ro)
                r = a.calc_farm()
                rits.append(getattr(a, "iterations", None))
                o = dict(farm=refs.to_plain(r))
                if p is not None:
                    o["points"] = refs.to_plain(common.calc_points(a, r, rw, p))
                return o

        ref = common.attempt(ref_run)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        rtol = atol = dict(downwind=2e-5, fixed=5e-5, limit=1e-6, loose=1e-6)[mode]
        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])

        def judge(k, ds, what):
            d = refs.compare(ref.res[k], refs.to_plain(ds), rtol, atol)
            ctx.evals += 1
            if d:
                ctx.violation("differs", f"{k} results, {mode} {self.show(spec)}, {what}: " + common.short(d))

        def calc(a, espec, what):
            e = seams.make_engine(espec, plat)
            with e:
                n = [0]
                orig = e.run_calculation

                def counted(*x, **k):
                    n[0] += 1
                    return orig(*x, **k)

                e.run_calculation = counted
                try:
                    r = a.calc_farm()
                    mit = self.over(spec).get("max_it")
                    if mit is None:
                        mit = a.max_it
                    if n[0] > mit + 2:
                        ctx.violation("bound", f"{n[0]} calculations with max_it = {mit}, {what}")
                    if a.iterations > mit:
                        ctx.violation("bound", f"{a.iterations} iterations with max_it = {mit}, {what}")
                    if mode in ("limit", "loose") and a.iterations != rits[0]:
                        ctx.violation("iterations", f"{a.iterations} iterations instead of {rits[0]}, {self.show(spec)}, {what}")
                    judge("farm", r, what)
                    if p is not None:
                        judge("points", common.calc_points(a, r, w, p), what)
                finally:
                    del e.run_calculation, orig, counted
            ctx.count("iterations", a.iterations)
            return a.iterations

        def go():
            a = worlds.World(w, ctx.scratch).algo(**self.over(spec))
            it = calc(a, spec["engine"], f"engine {spec['engine']}")
            for j in range(spec["again"]):
                es = spec["engine2"] if j == 0 else spec["engine"]
                calc(a, es, f"calculation {j + 2} of the same object, engine {es}")
            return it

        with seams.installed(plat):
            out = common.attempt(go)
        seams.reset_global_engine()
        if not out.ok:
            ctx.violation("raises", f"{mode} on {spec['engine']}: {out.show()}")
        ctx.count("mode_" + mode)
        ctx.count("frame_" + w["frame"].split("_")[0])
        if out.res >= 2 and spec["engine"].get("css") is not None and spec["engine"]["css"] < worlds.true_n_states(w):
            ctx.count("nontrivial")

    def show(self, spec):
        return f"crit {spec['crit']}, limit {spec['limit']}" if spec["mode"] in ("limit", "loose") else ""


CHECK = C09()
