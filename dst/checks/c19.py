"""C19: algorithms and wake frames agree wherever they describe the same flow"""

import os

import numpy as np

from .. import common, refs, seams, worlds

UNIFORM = ["timeseries", "timeseries", "table", "abl", "shear", "multiheight", "multiheight_nc", "scan", "tab", "single"]
SKIPPED = ("order", "order_ssel", "order_inv", "tname", "weight")
SETTLE = 5500.0


class C19:
    ID = "C19"
    N = dict(quick=420, thorough=30000)
    TIMEOUT = 90
    RULE = (
        "a random world, calculated with a simple algorithm or wake frame on the one chunk engine, and with a more general one "
        "that has to give the same for this inflow, with random engine, chunk sizes, workers and schedule, for turbines and points: "
        "iterations vs one downwind pass; streamlines vs straight wakes in uniform inflow; dynamic wakes and timelines vs straight wakes in "
        "constant inflow, from the state on at which wakes have passed the domain; ambient variables vs a calculation of the ambient state; "
        "non-trivial: there are wakes in the results, and more than one chunk"
    )

    def gen(self, rng, tier, i):
        mode = rng.choice(["iterative", "streamlines", "steady", "ambient"])
        spec = dict(seed=0, mode=mode)
        if mode == "iterative":
            w = worlds.gen_world(rng, kinds=UNIFORM, nmax=10)
            self.no_yaw(w)
            spec["other"] = dict(algo="Iterative", max_it=80, mod_cutin=dict(modify_ct=False, modify_P=False))
        elif mode == "streamlines":
            w = worlds.gen_world(rng, kinds=UNIFORM, frames=["rotor_wd"], nmax=10, algo=rng.choice(["Downwind"] * 3 + ["Iterative"]))
            w["wakes"] = [x for x in w["wakes"] if x not in worlds.INDUCTIONS]
            w["n_states"], w["n_turbines"] = min(w["n_states"], 8), min(w["n_turbines"], 5)
            spec["other"] = dict(frame=rng.choice(["streamlines_long", "streamlines_500", "streamlines_fine"]))
        elif mode == "steady":
            w = worlds.gen_world(rng, kinds=["timeseries"], frames=["rotor_wd"], nmax=10)
            w.update(n_states=rng.randint(16, 24), n_turbines=rng.randint(2, 4), steady=True, smooth=True, weights=False)
            w.pop("index", None)
            # the wakes of dynamic frames stay where they were emitted
            w.pop("moving", None)
            # gaps or overlaps of neighboring wake pieces where the time step changes
            w.pop("irregular", None)
            if w["layout"] == "row":
                w["layout"] = "random"
            if {"setmaxp", "setk_once"} & set(w["tmodels"]):
                # these vary with time
                w["tmodels"] = []
            f = rng.choice(["dyn_wakes", "timelines", "dyn_wakes", "timelines_1min"])
            spec["other"] = dict(algo="Iterative", frame=f, max_it=250, mod_cutin=dict(modify_ct=False, modify_P=False))
            self.no_yaw(w)
            if f.startswith("timelines") and rng.random() < 0.3:
                # integrals along the centreline of the wakes
                w.update(
                    algo="Iterative",
                    wakes=["TurbOParkIX_linear_k004_dx1000", rng.choice(["CrespoHernandez_max_ka02", "IECTI2019_max"])],
                    n_turbines=min(w["n_turbines"], 3),
                    n_states=16,
                    tmodels=[],
                    pwake=None,
                )
        else:
            w = worlds.gen_world(rng, nmax=10, algo=rng.choice(["Downwind"] * 2 + ["Iterative"]))
            spec["other"] = {}
        w.pop("ambient", None)
        w.pop("outputs", None)
        if w["algo"] == "Iterative":
            w["max_it"] = 80
            w["mod_cutin"] = dict(modify_ct=False, modify_P=False)
        if mode == "streamlines" and w["states"].startswith("multiheight"):
            # wind veer, hence wakes of rotor averaged directions
            w["rotor"] = "centre"
        spec["world"] = w
        spec["seed"] = rng.randrange(1 << 40)
        n = worlds.true_n_states(w)
        spec["engine"] = seams.gen_engine(rng, n_states=n, n_points=4)
        if mode == "steady" and (spec["engine"].get("css") or 9) < 3:
            # iterations follow wakes from chunk to chunk
            spec["engine"]["css"] = 3
        spec["platform"] = seams.gen_platform(rng)
        if rng.random() < 0.4:
            spec["points"] = dict(n=rng.randint(1, 6), seed=rng.randrange(1 << 30), n_states=n, vary=False)
        return spec

    def no_yaw(self, w):
        """
        Keeps worlds for which one pass is exact: yaw that is set by a turbine
        model enters the rotor results in the second evaluation only, and
        TurbOParkIX evaluates wakes of turbines further downstream.
        """
        x = [x for x in w["wakes"] if "product" not in x and not x.startswith("Bastankhah2016")]
        w["wakes"] = [x if "IX" not in x else "TurbOPark_quadratic_amb_ka04" for x in x]
        x = w["wakes"]
        if any(y.startswith("TurbOPark") or y.endswith(("_ka02", "_ka04")) or "k" in y.split("_")[1:] for y in x) or any(
            t.startswith(("kTI", "lookup_k")) for t in w["tmodels"]
        ):
            # added turbulence is known after the wind speed deficits
            w["wakes"] = [y for y in x if not y.startswith(("Crespo", "IEC"))]
        w["tmodels"] = [] if "setyawm" in w["tmodels"] else w["tmodels"]
        if w["frame"].startswith("yawed") or w["frame"].endswith("farmo"):
            w["frame"] = "rotor_wd"

    def run(self, spec, ctx):
        w, mode = spec["world"], spec["mode"]
        pts = worlds.make_points(spec["points"]) if spec.get("points") else None

        def calc(w2, sub, engine=None, plat=None, ambient=False):
            d = os.path.join(ctx.scratch, sub)
            os.makedirs(d, exist_ok=True)
            W = worlds.World(w2, d)
            with seams.make_engine(engine, plat) if engine else common.single():
                a = W.algo()
                r = a.calc_farm(**(dict(ambient=True) if ambient else {}))
                out = dict(farm=refs.to_plain(r))
                if pts is not None:
                    out["points"] = refs.to_plain(a.calc_points(r, pts, **(dict(ambient=True) if ambient else {})))
                return out

        w1 = dict(w, algo="Downwind") if mode == "ambient" else w
        ref = common.attempt(calc, w1, "a", ambient=mode == "ambient")
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        w2 = dict(w, **spec["other"])
        with seams.installed(plat):
            got = common.attempt(calc, w2, "b", spec["engine"], plat)
        seams.reset_global_engine()
        ctx.evals += 1
        ctx.count(mode)
        what = f"{mode}: {spec['other']} instead of {w['algo']} {w['frame']}, {w['states']} on {spec['engine']}"
        if not got.ok and mode == "ambient" and not common.attempt(calc, w2, "c").ok:
            ctx.skip("wakes: " + got.show()[:80])
        if not got.ok:
            ctx.violation("raises", f"{what}: {got.show()}")
        s0 = 0
        if mode == "steady":
            ws = ref.res["farm"]["vars"]["AMB_WS" if "AMB_WS" in ref.res["farm"]["vars"] else "AMB_REWS"][1]
            t = worlds._times(w["n_states"], w).values.astype("datetime64[ms]").astype(float) / 1e3
            s0 = int(np.searchsorted(t - t[0], SETTLE / np.min(ws))) + 1
            if s0 >= w["n_states"] - 1:
                ctx.skip("does not settle")
        tol = 1e-4 if "Iterative" in (w["algo"], w2["algo"]) else 1e-6
        if mode == "ambient":
            self.ambient(ctx, what, ref.res["farm"], got.res["farm"], ref.res.get("points"))
            if pts is not None:
                for v, (d, x) in got.res["points"]["vars"].items():
                    if v.startswith("AMB_"):
                        if v not in ref.res["points"]["vars"]:
                            ctx.violation("variables", f"{what}: point results of the ambient state lack {v}")
                        self.one(ctx, what + " (points)", v, ref.res["points"]["vars"][v][1], x, 1e-9)
        else:
            for k in got.res:
                self.compare(ctx, f"{what} ({k})", ref.res[k], got.res[k], s0, tol)
        v = got.res["farm"]["vars"]
        if "REWS" in v and "AMB_REWS" in v and np.any(v["REWS"][1] != v["AMB_REWS"][1]) and sim.nev > 4:
            ctx.count("nontrivial")

    def ambient(self, ctx, what, a, b, apts=None):
        from foxes.variables import var2amb

        for x in (a, apts or {"vars": {}}):
            left = sorted(v for v in x["vars"] if v in var2amb)
            if left:
                ctx.violation("variables", f"{what}: the results of the ambient state contain {left}")
        n = 0
        for v, (d, x) in b["vars"].items():
            if v.startswith("AMB_") and v in a["vars"]:
                n += 1
                self.one(ctx, what, v, a["vars"][v][1], x, 1e-9)
        if not n:
            ctx.violation("variables", f"{what}: no ambient variables")

    def compare(self, ctx, what, a, b, s0, tol):
        miss = set(a["vars"]) ^ set(b["vars"])
        if miss - set(SKIPPED):
            ctx.violation("variables", f"{what}: variables {sorted(miss)} are not in both")
        for v, (d, x) in a["vars"].items():
            if v in SKIPPED or x.dtype.kind not in "fiu":
                continue
            y = b["vars"][v][1]
            if s0:
                x, y = x[s0:], y[s0:]
            self.one(ctx, what, v, x, y, tol)

    def one(self, ctx, what, v, x, y, tol):
        if x.shape != y.shape:
            ctx.violation("shape", f"{what}: {v} has shape {y.shape} instead of {x.shape}")
        e = np.abs(np.asarray(y, dtype=float) - x)
        if v.endswith(("WD", "YAW")):
            e = np.minimum(e % 360, 360 - e % 360)
        ok = (e <= tol + tol * np.abs(x)) | (np.isnan(x) & np.isnan(y))
        if not ok.all():
            i = tuple(int(k) for k in np.argwhere(~ok)[0])
            ctx.violation("differs", f"{what}: {v}{list(i)} is {y[i]!r} instead of {x[i]!r} ({int((~ok).sum())} of {ok.size})")


CHECK = C19()
