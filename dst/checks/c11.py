"""C11: results depend on the inputs, not on earlier calculations"""

import copy

import numpy as np

from .. import common, refs, seams, worlds
from .c01 import gen_any_world

KEYS_FARM = ["n_turbines", "layout", "mixed", "ttype", "seed"]
KEYS_STATES = ["states", "n_states", "weights", "index", "load_mode", "n_files", "smooth", "seed"]
KEYS_SLOT = ["algo", "wakes", "frame", "rotor", "pwake", "ground", "mod_cutin", "max_it", "ambient"]
NAMED = ["setmaxp", "setyawm", "setk_once"]


def calc_names(a):
    return [a.rotor_model.name, a.farm_controller.name, "InitFarmData", "FarmWakesCalculation", "ReorderFarmOutput"]


class C11:
    ID = "C11"
    N = dict(quick=600, thorough=20000)
    TIMEOUT = 100
    RULE = (
        "a random history of farm and point calculations, ambient calculations, selected outputs, calculation parameters, new "
        "algorithms, changed model data and moved turbines over shared farms, states, model books and algorithm objects, on random "
        "engines and schedules, each step against fresh objects; non-trivial: at least three calculations"
    )

    def gen(self, rng, tier, i):
        while True:
            w = gen_any_world(rng) if rng.random() < 0.7 else worlds.gen_world(rng, algo="Iterative", nmin=2, nmax=6)
            w["n_turbines"] = min(w["n_turbines"], 4)
            w["n_states"] = min(w["n_states"], 8)
            if not w["frame"].startswith("streamlines_short"):
                break
        w["smooth"] = w["frame"] in worlds.FRAMES_DYN
        w["custom"] = list(worlds.CUSTOM_TTYPES)
        w["mod_cutin"] = dict(modify_ct=False, modify_P=False) if rng.random() < 0.5 or w["ttype"] in worlds.CUSTOM_TTYPES else {}
        if not w["mod_cutin"]:
            w["mod_cutin"] = dict(modify_ct=True, modify_P=rng.random() < 0.5)
        nmodel = any(m in NAMED for m in w["tmodels"])
        farms = [{k: w[k] for k in KEYS_FARM if k in w}]
        states = [{k: w[k] for k in KEYS_STATES if k in w}]
        if rng.random() < 0.6:
            v = worlds.gen_world(rng, nmin=2, nmax=8, algo="Downwind")
            f = {k: v[k] for k in KEYS_FARM if k in v}
            f["n_turbines"] = min(f["n_turbines"], 4)
            if w["mod_cutin"].get("modify_ct") and f["ttype"] in worlds.CUSTOM_TTYPES:
                f["ttype"] = "IEA15MW"
            if nmodel or "sector" in w["tmodels"]:
                f["n_turbines"] = w["n_turbines"]
            if not nmodel:
                farms.append(f)
        if rng.random() < 0.6:
            v = worlds.gen_world(rng, nmin=2, nmax=8, kinds=worlds.TIME_KINDS + ["timeseries"] * 3 if w["smooth"] else None)
            s = {k: v[k] for k in KEYS_STATES if k in v}
            s["smooth"] = w["smooth"]
            if not nmodel:
                states.append(s)
        slots = []
        for k in range(rng.choice([1, 2, 2, 3])):
            for _ in range(60):
                fi, si = rng.randrange(len(farms)), rng.randrange(len(states))
                if k == 0:
                    v = w
                else:
                    v = worlds.gen_world(
                        rng,
                        algo=rng.choice(["Downwind", "Downwind", "Iterative"]),
                        frames=None if not w["smooth"] else worlds.FRAMES_DYN + worlds.FRAMES_STEADY,
                    )
                    v["mod_cutin"] = w["mod_cutin"]
                    v["ambient"] = False
                sl = {x: v[x] for x in KEYS_SLOT if x in v}
                sl.update(farm=fi, states=si)
                m = self.merge(dict(world=w, farms=farms, states=states), sl)
                c = copy.deepcopy(m)
                worlds._constrain(c)
                c.pop("max_it", None)
                d = dict(m)
                d.pop("max_it", None)
                if m["frame"].startswith("dyn_wakes") and m["algo"] == "Downwind":
                    continue
                if c == d and not (m["frame"] in worlds.FRAMES_DYN and not w["smooth"]):
                    if m["frame"].startswith("dyn_wakes") and m["algo"] == "Iterative":
                        sl["max_it"] = 200
                    slots.append(sl)
                    break
        if not slots:
            return self.gen(rng, tier, i)
        ops = []
        n = max(worlds.true_n_states({**w, **s}) for s in states)
        heavy = any(s["frame"].startswith(("streamlines", "dyn_wakes")) for s in slots)
        dyn = {}
        for k in range(rng.choice([2, 3, 3, 4]) if heavy else rng.choice([3, 4, 5, 6])):
            o = dict(
                op=rng.choice(["farm"] * 6 + ["points"] * 5 + ["new", "setvar", "move", "fin"]),
                slot=rng.randrange(len(slots)),
                engine=seams.gen_engine(rng, n_states=n, n_points=6),
            )
            if slots[o["slot"]]["frame"].startswith("dyn_wakes"):
                # known finding KF1
                o["engine"] = dyn.setdefault(o["slot"], o["engine"])
            if o["op"] == "farm":
                o["outputs"] = rng.choice([None] * 4 + ["default", ["REWS", "P"], ["WD", "P", "AMB_WD"], ["CT"]])
                o["ambient"] = rng.random() < 0.15 and not slots[o["slot"]]["frame"] in worlds.FRAMES_DYN  # known finding KF6
                o["pars"] = rng.choice([None, None, "empty", "all"])
                o["normalize"] = rng.random() < 0.1
            elif o["op"] == "points":
                s = slots[o["slot"]]
                m = self.merge(dict(world=w, farms=farms, states=states), s)
                o["points"] = common.gen_points(rng, m, nmax=6)
                o["points"]["vary"] = o["points"]["vary"] and not o["points"].get("isel")
                if m["frame"] in worlds.FRAMES_DYN:
                    o["points"].pop("isel", None)
                o["ambient"] = rng.random() < 0.12
                o["old"] = rng.random() < 0.2
                o["pars"] = rng.choice([None, None, "all"])
            elif o["op"] == "move":
                o["shift"] = [round(rng.uniform(-400, 400), 1), round(rng.uniform(-400, 400), 1)]
            ops.append(o)
        return dict(
            seed=rng.randrange(1 << 40), world=w, farms=farms, states=states, slots=slots, ops=ops, platform=seams.gen_platform(rng)
        )

    def merge(self, spec, sl, shift=None, mver=0):
        """The complete world of a slot"""
        w = {k: v for k, v in spec["world"].items() if k not in KEYS_SLOT + KEYS_STATES + KEYS_FARM or k == "seed"}
        for k in ("index", "load_mode", "n_files", "weights"):
            w.pop(k, None)
        w.update({k: v for k, v in spec["farms"][sl["farm"]].items() if k != "seed"})
        w.update({k: v for k, v in spec["states"][sl["states"]].items() if k != "seed"})
        w.update({k: v for k, v in sl.items() if k in KEYS_SLOT})
        w.setdefault("weights", False)
        w.setdefault("mixed", False)
        w["tmodels"] = list(spec["world"]["tmodels"])
        if shift is not None:
            w["shift"] = shift
        if mver:
            w["mver"] = mver
        return w

    def run(self, spec, ctx):
        slots, base = spec["slots"], spec["world"]
        shifts = [[0.0, 0.0] for _ in spec["farms"]]
        mver = [0]
        worlds.GIVEN = given = []
        common_seed = base["seed"]

        def parts(sl, si=None):
            m = self.merge(spec, sl, list(shifts[sl["farm"]]), mver[0])
            fw = {**m, "seed": spec["farms"][sl["farm"]]["seed"]}
            sw = {**m, "seed": spec["states"][sl["states"]]["seed"]}
            bw = {**m, "seed": common_seed}
            return m, fw, sw, bw

        def build(sl, shared=None):
            """Objects of a slot, shared or fresh"""
            m, fw, sw, bw = parts(sl)
            if shared is None:
                return worlds.World(bw, ctx.scratch, worlds.make_states(sw, ctx.scratch), worlds.make_mbook(bw), worlds.make_farm(fw))
            mk = ("m", m["n_turbines"]) if "sector" in m["tmodels"] else ("m",)
            for k, f in (
                (("f", sl["farm"]), lambda: worlds.make_farm(fw)),
                (("s", sl["states"]), lambda: worlds.make_states(sw, ctx.scratch)),
                (mk, lambda: worlds.make_mbook(bw)),
            ):
                if k not in shared:
                    shared[k] = f()
            return worlds.World(bw, ctx.scratch, shared[("s", sl["states"])], shared[mk], shared[("f", sl["farm"])])

        def pars(a, o):
            p = o.get("pars")
            if p is None:
                return {}
            if p == "empty":
                return {"no_such_model": {"a": 1}}
            return {k: {} for k in calc_names(a)}

        def farm_kw(a, o):
            kw = {}
            if o.get("outputs") is not None:
                kw["outputs"] = copy.copy(o["outputs"])
            if o.get("ambient"):
                kw["ambient"] = True
            if o.get("normalize"):
                kw["normalize"] = True
            if o.get("pars"):
                kw["calc_parameters"] = pars(a, o)
            return kw

        def points_kw(a, o, n):
            p = o["points"]
            kw = {}
            if o.get("ambient"):
                kw["ambient"] = True
            if p.get("outputs"):
                kw["outputs"] = list(p["outputs"])
            if o.get("pars"):
                kw["calc_parameters"] = {"InitFarmData": {}, "SetAmbPointResults": {}, "PointWakesCalculation": {}}
            ns = n
            if p.get("isel"):
                ix = [j for j in p["isel"] if j < n] or [0]
                kw["states_isel"] = ix
                ns = len(ix)
            return kw, worlds.make_points({**p, "n_states": ns})

        def fresh(sl, fo, po):
            """A fresh calculation"""

            def f():
                worlds.GIVEN = None
                W = build(sl)
                n = worlds.true_n_states(W.w)
                with common.single():
                    a = W.algo()
                    r = a.calc_farm(**farm_kw(a, fo))
                    if po is None:
                        return refs.to_plain(r)
                    kw, pts = points_kw(a, po, n)
                    return refs.to_plain(a.calc_points(r, pts, **kw))

            try:
                return common.attempt(f)
            finally:
                worlds.GIVEN = given

        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        shared, algos, results, kept = {}, {}, {}, []
        done = [0]

        def farm_snap(f):
            return [
                (t.name, t.index, refs.snapshot(np.asarray(t.xy)), repr(t.D), repr(t.H), list(t.models or []))
                for t in f.turbines
            ]

        def snap():
            return [refs.snapshot(x) for x in given], {k[1]: farm_snap(v) for k, v in shared.items() if k[0] == "f"}

        def judge(what, ref, got, w, o):
            d = refs.compare(ref, got, *common.tols(w))
            ctx.evals += 1
            if d:
                ctx.violation("differs", f"{what}: " + common.short(d))

        def with_engine(o, f):
            e = seams.make_engine(o["engine"], plat)
            with e:
                return f()

        def step(j, o):
            sl = slots[o["slot"]]
            si = o["slot"]
            if o["op"] == "move":
                fi = sl["farm"]
                shifts[fi] = o["shift"]
                f = shared.get(("f", fi))
                if f is not None:
                    m, fw, _, _ = parts(sl)
                    for t, n in zip(f.turbines, worlds.make_farm(fw).turbines):
                        t.xy = n.xy
                for k in list(results):
                    if slots[k]["farm"] == fi:
                        results.pop(k)
                return
            if o["op"] == "setvar":
                names = [x for x in base["tmodels"] if x in NAMED]
                if not names:
                    return
                mver[0] += 1
                results.clear()
                for k, mb in shared.items():
                    if k[0] == "m":
                        worlds.GIVEN = None
                        m, fw, sw, bw = parts(sl)
                        new = worlds.make_mbook(bw)
                        worlds.GIVEN = given
                        for x in names:
                            mod, src = mb.turbine_models[x], new.turbine_models[x]
                            mod.reset()
                            for v, dat in zip(src.vars, src._SetFarmVars__vdata):
                                mod.add_var(v, dat)
                return
            if o["op"] == "new" or si not in algos:
                W = build(sl, shared)
                algos[si] = (W.algo(), W)
                results.pop(si, None)
                if o["op"] == "new":
                    return
            a, W = algos[si]
            W.w = {**W.w, **{k: v for k, v in parts(sl)[0].items() if k in ("shift", "mver")}}
            if o["op"] == "fin":
                if a.initialized:
                    a.finalize()
                return
            what = f"step {j} of {[(x['op'], x['slot']) for x in spec['ops']]} on {o['engine']}"
            s0 = snap()
            if o["op"] == "farm":
                ref = fresh(sl, o, None)
                kw = farm_kw(a, o)
                k0 = refs.snapshot(kw)
                out = common.attempt(lambda: with_engine(o, lambda: a.calc_farm(**kw)))
                if ref.ok:
                    if not out.ok:
                        ctx.violation("raises", f"{what}: {out.show()}")
                    judge(what, ref.res, refs.to_plain(out.res), W.w, o)
                    done[0] += 1
                elif out.ok:
                    ctx.count("accepted")
                if out.ok:
                    if o.get("outputs") is None and not o.get("ambient"):
                        results.setdefault(si, []).append((o, out.res))
                    kept.append((what, out.res, refs.to_plain(out.res)))
            else:
                if si not in results:
                    return
                fo, r = results[si][0 if o["old"] else -1]
                ref = fresh(sl, fo, o)
                kw, pts = points_kw(a, o, worlds.true_n_states(W.w))
                kw["points"] = pts
                k0 = refs.snapshot(kw)
                out = common.attempt(lambda: with_engine(o, lambda: a.calc_points(r, **kw)))
                if ref.ok:
                    if not out.ok:
                        ctx.violation("raises", f"{what}: {out.show()}")
                    judge(what, ref.res, refs.to_plain(out.res), W.w, o)
                    done[0] += 1
                if out.ok:
                    kept.append((what, out.res, refs.to_plain(out.res)))
            if refs.snapshot(kw) != k0:
                ctx.violation("arguments", f"{what}: the arguments changed")
            s1 = snap()
            if s0[0] != s1[0][: len(s0[0])]:
                i = [x != y for x, y in zip(s0[0], s1[0])].index(True)
                ctx.violation("inputs", f"{what}: the input data changed: {str(s0[0][i])[:200]} -> {str(s1[0][i])[:200]}")
            if any(s1[1][k] != v for k, v in s0[1].items()):
                ctx.violation("farm", f"{what}: the wind farm changed")

        def go():
            for j, o in enumerate(spec["ops"]):
                step(j, o)
            for what, ds, p in kept:
                d = refs.compare(p, refs.to_plain(ds), 0, 0)
                if d:
                    ctx.violation("results", f"the results of {what} changed later: " + common.short(d))

        try:
            with seams.installed(plat):
                out = common.attempt(go)
        finally:
            worlds.GIVEN = None
            seams.reset_global_engine()
        if not out.ok:
            raise out.exc
        ctx.count("calculations", done[0])
        ctx.count("slots", len(slots))
        for o in spec["ops"]:
            ctx.count("op_" + o["op"])
        if done[0] >= 3:
            ctx.count("nontrivial")


CHECK = C11()
