"""C12: input data gives the same states however it is read, or an error"""

import os

import numpy as np
import pandas as pd

from .. import common, refs, seams, worlds
from ..disk import Disk

FMT = ["csv", "csv", "csv.gz", "csv.bz2", "csv.zip"]
TABLES = ["timeseries", "timeseries", "table", "table", "abl", "shear", "multiheight", "multiheight_ts", "multiheight_nc", "opf", "opf_mh"]
PADS = ["timeseries", "table", "abl", "shear", "multiheight", "multiheight_ts", "multiheight_nc"]


class Source:
    """Writes the data of a world to files, and hands over the paths"""

    def __init__(self, src, root, role):
        self.src, self.root, self.role = src, root, role
        self.kw = {}
        self.k = 0

    def kwargs(self):
        return self.kw

    def path(self, suffix):
        p = os.path.join(self.root, f"{self.role}{self.k}-d.{suffix}")
        self.k += 1
        return p, (os.path.relpath(p, self.root) if self.src.get("rel") else p)

    def __call__(self, x):
        import xarray as xr

        if isinstance(x, xr.Dataset):
            return self.dataset(x)
        if isinstance(x, pd.DataFrame):
            return self.frame(x)
        return x

    def dataset(self, ds):
        import xarray as xr
        import foxes.constants as FC

        pad = self.src.get("pad")
        if pad:
            n = ds.sizes[FC.STATE]
            a = ds.isel({FC.STATE: np.arange(pad[0]) % n}).assign_coords({FC.STATE: np.arange(pad[0]) - pad[0]}) * 0.8
            b = ds.isel({FC.STATE: np.arange(pad[1]) % n}).assign_coords({FC.STATE: np.arange(pad[1]) + n}) * 0.9
            ds = xr.concat([a, ds, b], dim=FC.STATE)
            self.select(pad, ds[FC.STATE].to_numpy(), n)
        p, q = self.path("nc")
        ds.to_netcdf(p)
        return q

    def frame(self, df):
        index = self.role == "states"
        pad = self.src.get("pad")
        if index and pad:
            n = len(df)
            i = df.index
            if isinstance(i, pd.DatetimeIndex):
                i0 = i[0] - pd.to_timedelta(np.arange(pad[0], 0, -1), "min")
                i1 = i[-1] + pd.to_timedelta(np.arange(1, pad[1] + 1), "min")
            elif i.dtype == object:
                i0 = [f"a{k}" for k in range(pad[0])]
                i1 = [f"z{k}" for k in range(pad[1])]
            else:
                i0 = i.min() - np.arange(pad[0], 0, -1)
                i1 = i.max() + np.arange(1, pad[1] + 1)
            a = (df.iloc[np.arange(pad[0]) % n] * 0.8).set_index(pd.Index(i0))
            b = (df.iloc[np.arange(pad[1]) % n] * 0.9).set_index(pd.Index(i1))
            name = df.index.name
            df = pd.concat([a, df, b])
            df.index.name = name
            self.select(pad, df.index, n)
        p, q = self.path(self.src["fmt"])
        df.to_csv(p, index=index)
        return q

    def select(self, pad, index, n):
        if pad[2] == "sel":
            self.kw = dict(states_sel=list(range(pad[0], pad[0] + n)))
        else:
            self.kw = dict(states_loc=list(index[pad[0] : pad[0] + n]))


class C12:
    ID = "C12"
    N = dict(quick=420, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a random world whose states, model tables and farm are written to files (csv, compressed csv, json, tab, netCDF; one or "
        "several files, loaded at once, lazily or within the calculation, with additional states that are not selected), calculated "
        "on a random engine with read errors and files that vanish, are cut short or replaced by shorter ones; the reference has the "
        "data in memory (or in one file, read at once); non-trivial: several files or chunks, or a fault that was injected"
    )

    def gen(self, rng, tier, i):
        var = rng.choice(["table"] * 4 + ["field"] * 6 + ["tab"])
        kinds = dict(table=TABLES, field=["fieldfile"], tab=["tab"])[var]
        w = worlds.gen_world(rng, kinds=kinds, nmax=10, algo="Iterative" if rng.random() < 0.1 else "Downwind")
        w["n_turbines"] = min(w["n_turbines"], 4)
        w.pop("nans", None)
        if w["frame"].startswith("streamlines"):
            w["frame"] = "rotor_wd"
        src = dict(var=var, rel=rng.random() < 0.3, fmt=rng.choice(FMT), models=rng.random() < 0.6)
        r = rng.random()
        if r < 0.25:
            src["farm"] = rng.choice(["csv", "csv.gz", "df", "json"])
            w["uniform_h"] = True
            w.pop("moving", None)
        if var == "table" and w["states"] in PADS and rng.random() < 0.4:
            src["pad"] = [rng.randint(0, 3), rng.randint(0, 3), rng.choice(["sel", "loc"])]
        if var == "field":
            w["load_mode"] = "preload"
            w["field_space"] = 6000.0
            w["n_files"] = 1
            w["fopts"] = dict(weights=rng.random() < 0.3, solo=rng.random() < 0.3)
            src["load_mode"] = rng.choice(["preload", "lazy", "lazy", "fly", "fly", "fly"])
            src["n_files"] = rng.choice([1, 2, 2, 3, 4, 6])
            src["order"] = rng.choice(["yx", "yx", "xy"])
            src["nc_engine"] = rng.choice(["h5netcdf", None])
            src["space"] = rng.choice([6000.0, 6000.0, 7000.0, "60D", 9000.0])
            if rng.random() < 0.35:
                src["pad"] = [rng.randint(0, 3), rng.randint(0, 3)]
                src["isel"] = rng.random() < 0.5
                w["fopts"]["weights"] = False
        n = worlds.true_n_states(w)
        p = common.gen_points(rng, w, nmax=8)
        p["vary"] = p["vary"] and not p.get("isel")
        if w["frame"].startswith(("dyn_wakes", "timelines")):
            p = None
        e = seams.gen_engine(rng, n_states=n, n_points=p["n"] if p else 0)
        plat = seams.gen_platform(rng)
        fl = []
        if rng.random() < 0.6:
            plat["fork"] = False
            for _ in range(rng.choice([1, 1, 2])):
                nc = var == "field" or w["states"] == "multiheight_nc"
                top = 3 * src.get("n_files", 1) + (6 if src.get("load_mode") == "fly" else 0)
                text = var == "tab" or src["fmt"] == "csv" or src.get("farm") in ("csv", "json")
                if nc and rng.random() < 0.4:
                    f = dict(point="read.data", kind=rng.choice(["eio", "eio", "memory"]), nth=rng.randrange(4 * top))
                else:
                    f = dict(point="read.open", kind=rng.choice(["eio", "emfile", "eacces", "vanish", "vanish"] + ["vanish" if text else "cut"] * 2 + ["fewer"] * 2 * nc), nth=rng.randrange(top))
                    if f["kind"] in ("cut", "fewer"):
                        f["frac"] = round(rng.random(), 3)
                    if rng.random() < 0.4:
                        f["file"] = rng.randrange(8)
                if rng.random() < 0.2:
                    f["times"] = 50
                fl.append(f)
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            points=p,
            src=src,
            engine=e,
            platform=plat,
            faults=fl,
            retry=rng.choice(["same_algo", "same_states", "new"]),
            engine2=seams.gen_engine(rng, n_states=n, n_points=p["n"] if p else 0),
        )

    def farm(self, w, src, root):
        """The farm from a file"""
        import json
        import foxes

        kind = src.get("farm")
        if not kind:
            return worlds.make_farm(w)
        ref = worlds.make_farm(w)
        farm = foxes.WindFarm()
        L = foxes.input.farm_layout
        p = os.path.join(root, "farm." + kind)
        q = os.path.relpath(p, root) if src.get("rel") else p
        if kind == "json":
            d = {
                "wf": {
                    t.name: dict(UTMX=float(t.xy[0]), UTMY=float(t.xy[1]), turbine_models=list(t.models), id=int(t.index))
                    for t in ref.turbines
                }
            }
            with open(p, "w") as f:
                json.dump(d, f)
            L.add_from_json(farm, q, verbosity=0)
        else:
            nm = len(ref.turbines[0].models)
            df = pd.DataFrame(
                dict(
                    nam=[t.name for t in ref.turbines],
                    px=[t.xy[0] for t in ref.turbines],
                    py=[t.xy[1] for t in ref.turbines],
                    num=[t.index for t in ref.turbines],
                    **{f"m{k}": [t.models[k] for t in ref.turbines] for k in range(nm)},
                )
            )
            pars = dict(
                col_name="nam",
                col_x="px",
                col_y="py",
                col_id="num",
                cols_models_pre=[f"m{k}" for k in range(nm)],
                verbosity=0,
            )
            if kind == "df":
                L.add_from_df(farm, df, **pars)
            else:
                df.to_csv(p, index=False)
                (L.add_from_csv if w["seed"] % 2 or src.get("rel") else L.add_from_file)(farm, q, **pars)
        return farm

    def build(self, spec, root):
        """The world with data from files"""
        w, src = dict(spec["world"]), spec["src"]
        if src["var"] == "field":
            o = dict(w.get("fopts") or {}, rel=src.get("rel"), order=src.get("order"))
            if src.get("pad"):
                o.update(pad=src["pad"], isel=src.get("isel"))
            w.update(load_mode=src["load_mode"], n_files=src["n_files"], fopts=o, field_space=src["space"])
        elif src["var"] == "tab":
            w["states"] = "tabfile"
        try:
            if src["var"] == "table":
                worlds.SOURCE = Source(src, root, "states")
            st = worlds.make_states(w, root)
            worlds.SOURCE = Source(src, root, "models") if src.get("models") else None
            mb = worlds.make_mbook(w)
        finally:
            worlds.SOURCE = None
        return worlds.World(w, root, states=st, mbook=mb, farm=self.farm(w, src, root))

    def nodes(self, spec, ctx, a, fr, what):
        """Ambient values at the nodes of the grid are those of the file"""
        import foxes.variables as FV

        w = spec["world"]
        base = {}

        def grab(w_, scratch, wd, ws, ti):
            base["ds"] = worlds.field_source(w_, wd, ws, ti)

        orig, worlds.make_field = worlds.make_field, grab
        try:
            worlds.make_states(w, None)
        finally:
            worlds.make_field = orig
        ds = base["ds"]
        x, y = ds["UTMX"].values, ds["UTMY"].values
        x, y = x[(x > -2500) & (x < 5500)], y[(y > -2500) & (y < 5500)]
        h = ds["height"].values if "height" in ds.dims else [100.0]
        g = [(i, j, k) for k in range(len(h)) for i in range(len(y)) for j in range(len(x))]
        n = ds.sizes["Time"]
        pts = np.array([[x[j], y[i], h[k]] for i, j, k in g], dtype=float)
        r = a.calc_points(fr, np.repeat(pts[None], n, axis=0), outputs=[FV.AMB_WS, FV.AMB_WD, FV.AMB_TI])
        bad = []
        for v, c in ((FV.AMB_WS, "WS"), (FV.AMB_WD, "WD"), (FV.AMB_TI, "TI")):
            d = ds[c]
            got = r[v].to_numpy()
            for m, (i, j, k) in enumerate(g):
                s = {}
                if "UTMY" in d.dims:
                    s = dict(UTMY=y[i], UTMX=x[j])
                    if "height" in d.dims:
                        s["height"] = h[k]
                want = d.sel(s).values
                e = got[:, m] - want
                if v == FV.AMB_WD:
                    e = (e + 180) % 360 - 180
                if not np.all(np.abs(e) < 1e-6):
                    bad.append(f"{v} at {pts[m].tolist()}: {got[:, m].tolist()[:4]} instead of {want.tolist()[:4]}")
        ctx.count("nodes", len(g))
        if bad:
            ctx.violation("nodes", f"{what}: " + common.short(bad, 2))

    def run(self, spec, ctx):
        from foxes.config import config
        import foxes.constants as FC

        w, p, src = spec["world"], spec["points"], spec["src"]
        rd = os.path.join(ctx.scratch, "ref")
        root = os.path.join(ctx.scratch, "in")
        os.makedirs(rd)
        os.makedirs(root)
        ref = common.ref_farm(w, rd, points=p)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        rtol, atol = common.tols(w)
        if src["var"] == "tab":
            rtol = atol = 1e-5
        sim = ctx.sim(faults=[])
        plat = seams.Platform(sim, spec["platform"])
        disk = Disk(sim, root, os.path.join(ctx.scratch, "bak"))
        old = dict(config)
        config[FC.INPUT_DIR] = root
        if src.get("nc_engine"):
            config[FC.NC_ENGINE] = src["nc_engine"]
        what = f"{w['states']} from {({k: v for k, v in src.items() if v})} on {spec['engine']}"

        def calc(a):
            fr = common.calc_farm_with(a, w)
            o = dict(farm=refs.to_plain(fr))
            if p is not None:
                o["points"] = refs.to_plain(common.calc_points(a, fr, w, p))
            return fr, o

        def judge(out, say):
            ctx.evals += 1
            for k in ref.res:
                d = refs.compare(ref.res[k], out[k], rtol, atol)
                if d:
                    ctx.violation("differs", f"{k}, {say}, faults {dict(sim.fired)} {disk.changed}: " + common.short(d))

        try:
            with seams.installed(plat):
                W = {}

                def first():
                    W["w"] = self.build(spec, root)
                    disk.save()
                    sim.faults = [dict(f, _seen=0, _fired=0) for f in spec["faults"]]
                    with disk.installed():
                        a = W["a"] = W["w"].algo()
                        with seams.make_engine(spec["engine"], plat):
                            fr, o = calc(a)
                            judge(o, what)
                            if src["var"] == "field" and not w.get("ambient") and not w["frame"].startswith(("timelines", "dyn")):
                                self.nodes(spec, ctx, a, fr, what)

                out = common.attempt(first)
                sim.faults = []
                seams.reset_global_engine()
                fired = sum(sim.fired.values())
                if not out.ok and not fired:
                    ctx.violation("raises", f"{what}: {out.show()}")
                ctx.count("failed" if not out.ok else "ok_with_fault" if fired else "ok")
                if disk.changed:
                    ctx.count("changed_" + disk.changed[0][0])
                # the files are back
                if fired and "w" in W:
                    disk.restore()

                    def again():
                        q = spec["retry"]
                        if q == "same_algo" and "a" in W:
                            a = W["a"]
                        elif q == "new":
                            a = self.build(spec, root).algo()
                        else:
                            a = W["w"].algo()
                        with seams.make_engine(spec["engine2"], plat):
                            return calc(a)[1]

                    o2 = common.attempt(again)
                    seams.reset_global_engine()
                    say = f"{what}, again ({spec['retry']}) after {'failure' if not out.ok else 'success'} with faults {dict(sim.fired)}"
                    if not o2.ok:
                        ctx.violation("again_raises", f"{say}: {o2.show()}; first: {out.show()}")
                    for k in ref.res:
                        d = refs.compare(ref.res[k], o2.res[k], rtol, atol)
                        if d:
                            ctx.violation("again_differs", f"{say}: {k}: " + common.short(d))
                    ctx.evals += 1
        finally:
            config.clear()
            config.update(old)
        ctx.count("var_" + src["var"])
        if src.get("load_mode"):
            ctx.count("mode_" + src["load_mode"])
        if fired or src.get("n_files", 1) > 1 or (spec["engine"].get("css") or 99) < worlds.true_n_states(w):
            ctx.count("nontrivial")


CHECK = C12()
