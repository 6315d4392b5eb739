"""C10: stepping through states equals calculating them all at once"""

import contextlib

from .. import common, faults, refs, seams, worlds

KINDS = ["timeseries"] * 3 + [
    "table",
    "abl",
    "shear",
    "multiheight",
    "multiheight_nc",
    "multiheight_ts",
    "opf",
    "opf_mh",
    "field",
    "fieldfile",
    "fieldfile",
]
SEQ_FRAMES = ["seq_dyn_wakes", "seq_dyn_wakes_1min"]
# engines which leave the objects of a single state in the main process
LOCAL = ["single", "numpy", "threads", "xarray", "default"]


EVENTS = []


class Rec:
    """A plugin; workers receive a copy of it with the algorithm"""

    def initialize(self, algo):
        EVENTS.append(("init",))

    def update(self, algo, fres, pres=None):
        EVENTS.append(("update", algo.counter, pres is not None))

    def finalize(self, algo):
        EVENTS.append(("final",))


class C10:
    ID = "C10"
    N = dict(quick=170, thorough=20000)
    TIMEOUT = 100
    RULE = (
        "a random world is iterated state by state on a random engine and schedule, with plugins, points, interruptions by the caller, "
        "failing steps, changes of the engine and repeated iterations, against the calculation of all states at once; non-trivial: more "
        "than two states and at least one interruption, extra calculation, failure or repetition"
    )

    def gen(self, rng, tier, i):
        seq = rng.random() < 0.3
        w = worlds.gen_world(rng, algo="Iterative", nmin=2, nmax=6, kinds=KINDS)
        if seq:
            w["frame"] = "seq_dyn_wakes"
            w["states"] = rng.choice(["timeseries", "multiheight_ts"])
            w.pop("load_mode", None)
            worlds._constrain(w)
            w["frame"] = rng.choice(SEQ_FRAMES)
            w["wakes"] = [x for x in w["wakes"] if "IX" not in x] or ["Jensen_linear_k007"]
        if w["frame"].startswith("streamlines"):
            w["n_states"] = min(w["n_states"], 3)
        w["n_turbines"] = min(w["n_turbines"], 4)
        w["mod_cutin"] = dict(modify_ct=False, modify_P=False)
        w.pop("index", None) if rng.random() < 0.5 else None
        n = worlds.true_n_states(w)
        kinds = LOCAL if seq else [k for k in seams.ALL_KINDS if k != "local_cluster"]
        es = [seams.gen_engine(rng, kinds=kinds, n_states=n, n_points=6) for _ in range(2)]
        p = None
        if rng.random() < 0.6:
            p = common.gen_points(rng, w, nmax=6)
            p.pop("isel", None)
            p.pop("outputs", None)
            p["how"] = rng.choice(["arg", "arg2d", "calc", "both"])
            if p["how"] == "arg2d":
                p["vary"] = False
        steps = []
        for k in range(rng.choice([0, 1, 2, 3])):
            steps.append(
                dict(
                    at=rng.randrange(n),
                    do=rng.choice(["break", "break", "engine", "again", "next", "fault"]),
                )
            )
        for s in steps:
            if s["do"] == "fault":
                s["line"] = faults.at_line(rng, 20000)
                s["nth"] = rng.choice([0, 0, 1, 2])
                s["kind"] = rng.choice(["error", "eio", "memory"])
        if seq:
            # models that remember states do not repeat one
            steps = [s for s in steps if s["do"] != "fault"]
        if any(s["do"] == "fault" for s in steps):
            kinds = ["single", "numpy", "process", "multiprocess", "ray", "mpi"]
            es = [seams.gen_engine(rng, kinds=kinds, n_states=n, n_points=6) for _ in range(2)]
        if p is not None and any(s["do"] == "engine" for s in steps):
            # one point per chunk, and xarray, leave the point dimension of weights
            for e in es:
                e["csp"] = 6
            if (es[0]["kind"] == "xarray") != (es[1]["kind"] == "xarray"):
                es[1] = dict(es[0])
        if p is not None and seq:
            # several chunks of points are several copies of the wakes
            for e in es:
                e["csp"] = 6
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            seq=seq,
            points=p,
            engine=es[0],
            engine2=es[1],
            steps=steps,
            rounds=rng.choice([1, 1, 2, 3]),
            end=rng.choice(["all", "all", "all", "break"]),
            platform=seams.gen_platform(rng),
        )

    def kwargs(self, w, pts):
        kw = {}
        if pts is not None:
            kw["points"] = pts
        return kw

    def algo(self, w, scratch, **kw):
        import foxes

        W = worlds.World(w, scratch)
        k = W.algo_kwargs()
        k["mod_cutin"] = dict(modify_ct=False, modify_P=False)
        k.update(kw)
        return getattr(foxes.algorithms, w["algo"])(W.farm, W.states, **k)

    def run(self, spec, ctx):
        w, p = dict(spec["world"]), spec["points"]
        n = worlds.true_n_states(w)
        pts = None
        if p is not None:
            pts = common.ref_points_array(w, p)
        rtol = atol = 2e-5

        def ref_run():
            with common.single():
                if spec["seq"]:
                    a = self.algo({**w, "algo": "Sequential"}, ctx.scratch, points=pts)
                    for _ in a:
                        pass
                    o = dict(farm=refs.to_plain(a.farm_results))
                    if pts is not None:
                        o["points"] = refs.to_plain(a.point_results)
                    return o
                a = self.algo(w, ctx.scratch)
                r = a.calc_farm()
                o = dict(farm=refs.to_plain(r))
                if pts is not None:
                    o["points"] = refs.to_plain(a.calc_points(r, pts))
                return o

        ref = common.attempt(ref_run)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        def part(k, i):
            r = ref.res[k]
            return refs.isel_plain(r, i)

        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        how = p["how"] if p else None
        arg = None
        if how in ("arg", "both"):
            arg = pts
        elif how == "arg2d":
            arg = pts[0]
        did = set()

        def judge(k, ds, i, what):
            d = refs.compare(part(k, i), refs.to_plain(ds), rtol, atol)
            ctx.evals += 1
            if d:
                ctx.violation("differs", f"{k} results of state {i}, {what}: " + common.short(d))

        def go():
            from ..lines import RaiseAt
            from ..kernel import make_exc

            eng = [None, 0]

            @contextlib.contextmanager
            def failing(e, f):
                """The n-th calculation of the step fails"""
                orig, k = e.run_calculation, [f["nth"]]

                def run(*x, **y):
                    k[0] -= 1
                    if k[0] != -1:
                        return orig(*x, **y)
                    with RaiseAt(f["line"] + 1, lambda: make_exc(f["kind"])):
                        return orig(*x, **y)

                e.run_calculation = run
                try:
                    yield
                finally:
                    del e.run_calculation

            def start(es):
                e = seams.make_engine(es, plat)
                e.initialize()
                eng[0] = e

            def stop():
                if eng[0] is not None:
                    eng[0].finalize()
                    eng[0] = None

            start(spec["engine"])
            try:
                a = self.algo({**w, "algo": "Sequential"}, ctx.scratch, plugins=[Rec()], **self.kwargs(w, arg))
                for rnd in range(spec["rounds"]):
                    del EVENTS[:]
                    seen = []
                    todo = [dict(s) for s in spec["steps"]] if rnd == 0 or len(spec["steps"]) < 2 else [dict(s) for s in spec["steps"][:1]]
                    guard = 0
                    done = False
                    while not done:
                        guard += 1
                        if guard > 20:
                            ctx.violation("progress", f"the iteration does not end, states {seen}")
                        stopped = False
                        it = iter(a)
                        while True:
                            flt = [s for s in todo if s["do"] == "fault" and s["at"] == len(seen)]
                            try:
                                if flt:
                                    todo.remove(flt[0])
                                    with failing(eng[0], flt[0]):
                                        r = next(it)
                                else:
                                    r = next(it)
                            except StopIteration:
                                done = True
                                break
                            except BaseException as e:
                                if flt and "injected" in str(e):
                                    sim.fired["step." + flt[0]["kind"]] += 1
                                    did.add("fault")
                                    # the step is repeated
                                    continue
                                raise
                            what = f"round {rnd}, after {seen}"
                            i = len(seen)
                            if i >= n:
                                ctx.violation("extra", f"more than {n} states, {what}")
                            seen.append(i)
                            fr, pr = r if arg is not None else (r, None)
                            judge("farm", fr, i, what)
                            if pr is not None:
                                judge("points", pr, i, what)
                            if how in ("calc", "both"):
                                did.add("calc")
                                x = pts[i][None] if sim.choose(2, "pshape") else pts[i]
                                # the iterator is one state ahead
                                judge("points", a.calc_points(fr, x), i, what + ", calculated in the iteration")
                                if sim.choose(3, "twice") == 0:
                                    judge("points", a.calc_points(fr, x), i, what + ", calculated twice in the iteration")
                            acts = [s for s in todo if s["do"] != "fault" and s["at"] == i]
                            for s in acts:
                                todo.remove(s)
                                did.add(s["do"])
                                if s["do"] == "engine":
                                    stop()
                                    start(spec["engine2"])
                                elif s["do"] == "again":
                                    it = iter(a)
                                elif s["do"] == "break":
                                    stopped = True
                            if stopped:
                                break
                    if seen != list(range(n)):
                        ctx.violation("states", f"round {rnd}: states {seen} of {n}")
                    exp = [("init",)] + [("update", i, arg is not None) for i in range(n)] + [("final",)]
                    if EVENTS != exp:
                        ctx.violation("plugins", f"round {rnd}: plugin calls {EVENTS} instead of {exp}")
                    d = refs.compare(ref.res["farm"], refs.to_plain(a.farm_results), rtol, atol)
                    if d:
                        ctx.violation("differs", f"overall farm results, round {rnd}: " + common.short(d))
                    if arg is not None:
                        d = refs.compare(ref.res["points"], refs.to_plain(a.point_results), rtol, atol)
                        if d:
                            ctx.violation("differs", f"overall point results, round {rnd}: " + common.short(d))
                    if rnd:
                        did.add("round")
            finally:
                stop()

        with seams.installed(plat):
            out = common.attempt(go)
        seams.reset_global_engine()
        if not out.ok:
            ctx.violation("raises", f"{spec['engine']}: {out.show()}")
        for d in did:
            ctx.count("did_" + d)
        if spec["seq"]:
            ctx.count("seq_dyn")
        if n > 2 and did:
            ctx.count("nontrivial")

CHECK = C10()
