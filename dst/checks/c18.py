"""C18: results belong to their states and turbines, in whatever order these are given"""

import os

import numpy as np

from .. import common, refs, seams, worlds

SELECTABLE = ["timeseries", "table", "abl", "shear", "multiheight", "multiheight_nc", "multiheight_ts", "field", "fieldfile"]
ORDERS = ("order", "order_ssel", "order_inv", "tname")


class C18:
    ID = "C18"
    N = dict(quick=420, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a random world, calculated as given, and once more with its turbines, its states, or both in random order, "
        "or for a random part of the states, or with turbine models that act in selected states, or that are added to the turbines step by step, with random engine, chunk sizes, workers and schedule, for turbines and points; "
        "non-trivial: the order or number has changed, and there is more than one chunk"
    )

    def gen(self, rng, tier, i):
        algo = "Iterative" if rng.random() < 0.2 else "Downwind"
        frames = ["rotor_wd"] * 4 + ["yawed_k004", "streamlines_short"]
        r = rng.random()
        if r < 0.1:
            algo, frames = "Iterative", ["timelines"]
        kinds = None if rng.random() < 0.25 else SELECTABLE
        w = worlds.gen_world(rng, algo=algo, frames=frames, nmax=10, **({} if kinds is None else dict(kinds=kinds)))
        w.pop("outputs", None)
        if w["algo"] == "Iterative":
            w["max_it"] = 60
        n, nt = worlds.true_n_states(w), w["n_turbines"]
        p = {}
        if nt > 1 and rng.random() < 0.75:
            p["pick_t"] = rng.sample(range(nt), nt)
        if w["states"] in SELECTABLE and not w["frame"].startswith("timelines") and (not p or rng.random() < 0.7):
            k = n if rng.random() < 0.5 else rng.randint(1, n)
            p["pick_s"] = rng.sample(range(n), k)
            if rng.random() < 0.3:
                p["pick_s"].sort()
        if rng.random() < 0.25:
            w["tmodels"] = rng.choice([["setmaxp", "PMask"], ["sector"], ["setyawm", "yawm2yaw"], ["calc_k"]])
            worlds._constrain(w)
            w["n_states"], p = min(w["n_states"], 6), {}
            n = worlds.true_n_states(w)
        if w["frame"].startswith("streamlines") and "setyawm" in w["tmodels"]:
            # the first turbine in downwind order is not evaluated again, and this may be any of those that have no wakes
            w["tmodels"] = []
        if set(w["tmodels"]) & set(worlds.PART) and n <= 8 and not p and not w["frame"].startswith("timelines"):
            w["active"] = rng.randrange(1 << 20)
            w["weights"] = False
        if w["tmodels"]:
            w["added"] = rng.random() < 0.5
        spec = dict(seed=rng.randrange(1 << 40), world=w, picks=p, t_order="pick_t" in p)
        m = len(p.get("pick_s", range(n)))
        spec["engine"] = seams.gen_engine(rng, n_states=m, n_points=4)
        spec["platform"] = seams.gen_platform(rng)
        if rng.random() < 0.35:
            k = rng.randint(2, 6)
            spec["points"] = dict(n=k, seed=rng.randrange(1 << 30), n_states=n, vary=rng.random() < 0.5)
            spec["pick_p"] = rng.sample(range(k), rng.randint(1, k))
        return spec

    def run(self, spec, ctx):
        w, p = spec["world"], spec["picks"]
        n = worlds.true_n_states(w)
        ps = p.get("pick_s", list(range(n)))
        pt = p.get("pick_t", list(range(w["n_turbines"])))
        pp = spec.get("pick_p")
        pts = worlds.make_points(spec["points"]) if pp else None

        def calc(w2, scratch, points, engine=None, plat=None):
            os.makedirs(scratch, exist_ok=True)
            W = worlds.World(w2, scratch)
            with seams.make_engine(engine, plat) if engine else common.single():
                a, r = common.calc_farm(W)
                out = dict(farm=refs.to_plain(r), points=None)
                if points is not None:
                    out["points"] = refs.to_plain(a.calc_points(r, points))
                return out

        w1 = dict(w, added=False)
        if w.get("active") is not None:
            ref = common.attempt(self.by_state, calc, w1, ctx.scratch, pts)
        else:
            ref = common.attempt(calc, w1, os.path.join(ctx.scratch, "a"), pts)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        w2 = dict(w, **p)
        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        with seams.installed(plat):
            got = common.attempt(calc, w2, os.path.join(ctx.scratch, "b"), pts[ps][:, pp] if pp else None, spec["engine"], plat)
        seams.reset_global_engine()
        ctx.evals += 1
        what = f"{p} of {w['states']} {w['algo']} {w['frame']} on {spec['engine']}"
        if not got.ok:
            ctx.violation("raises", f"{what}: {got.show()}, but not in the original order")
        tol = common.tols(w)
        # order of summation
        tol = (max(tol[0], 1e-7), max(tol[1], 1e-7))
        self.compare(ctx, what, ref.res["farm"], got.res["farm"], ps, "turbine", pt, tol, w.get("weights") and w["states"] in ("timeseries", "table", "abl", "shear"))
        if pp:
            self.compare(ctx, what + " points", ref.res["points"], got.res["points"], ps, "point", pp, tol, False)
        if w.get("active") is not None:
            ctx.count("active")
        if (ps != list(range(n)) or w.get("active") is not None or pt != sorted(pt)) and sim.nev > 4:
            ctx.count("nontrivial")
        for k in p:
            ctx.count(k)

    def by_state(self, calc, w, scratch, pts):
        """Calculates each state with the models that are active in it"""
        out, n = None, worlds.true_n_states(w)
        for s in range(n):
            r = calc(dict(w, state=s), os.path.join(scratch, "a"), pts)
            if out is None:
                out = r
            for k in ("farm", "points"):
                if out[k] is None:
                    continue
                out[k]["part"] = True
                for v in list(out[k]["vars"]):
                    if v not in r[k]["vars"]:
                        del out[k]["vars"][v]
                        continue
                    d, x = out[k]["vars"][v]
                    if d and d[0] == "state":
                        x = np.array(x)
                        x[s] = r[k]["vars"][v][1][s]
                        out[k]["vars"][v] = (d, x)
        return out

    def compare(self, ctx, what, a, b, ps, dim, pd, tol, weights):
        n = len(ps)
        if "part" in a:
            b = dict(b, vars={v: x for v, x in b["vars"].items() if v in a["vars"]})
        if set(a["vars"]) != set(b["vars"]):
            ctx.violation("variables", f"{what}: variables {sorted(set(a['vars']) ^ set(b['vars']))} are not in both")
        for v, (d, x) in a["vars"].items():
            if v in ORDERS:
                continue
            d2, y = b["vars"][v]
            if v == "weight":
                if not weights and n != x.shape[0]:
                    # equal weights of the states that are present
                    continue
                if d != d2 and d2 == d[:1] and y.ndim < x.ndim:
                    x, d = x[:, 0], d2
            if tuple(d) != tuple(d2):
                if v == "weight":
                    continue
                ctx.violation("dims", f"{what}: {v} has dimensions {d2} instead of {d}")
            if x.dtype.kind not in "fiu":
                continue
            if d and d[0] == "state":
                x = x[ps]
            if dim in d:
                x = np.take(x, pd, axis=d.index(dim))
            if x.shape != y.shape:
                ctx.violation("shape", f"{what}: {v} has shape {y.shape} instead of {x.shape}")
            e = np.abs(np.asarray(y, dtype=float) - x)
            if v.endswith(("WD", "YAW")):
                e = np.minimum(e % 360, 360 - e % 360)
            ok = (e <= tol[1] + tol[0] * np.abs(x)) | (np.isnan(x) & np.isnan(y))
            if not ok.all():
                i = tuple(int(k) for k in np.argwhere(~ok)[0])
                ctx.violation("differs", f"{what}: {v}{list(i)} is {y[i]!r} instead of {x[i]!r} ({int((~ok).sum())} of {ok.size})")
        if "state" in a.get("coords", {}):
            c, c2 = a["coords"]["state"], b["coords"].get("state")
            c, c2 = (z[1] if isinstance(z, tuple) else z for z in (c, c2))
            if c2 is None or list(np.asarray(c)[ps]) != list(np.asarray(c2)):
                if not (np.issubdtype(np.asarray(c).dtype, np.integer) and list(np.asarray(c2)) == list(range(n))):
                    ctx.violation("states", f"{what}: states are {c2} instead of {np.asarray(c)[ps]}")


CHECK = C18()
