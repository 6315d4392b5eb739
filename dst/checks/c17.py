"""C17: flow fields and slices are the point results at their coordinates"""

import contextlib
import copy
import os

import numpy as np

from .. import common, faults, refs, seams, worlds

VARS = ["WS", "WD", "TI", "AMB_WS", "AMB_TI", "RHO"]
MEANS = ["WS", "TI", "AMB_WS", "AMB_TI", "RHO"]
ORI = dict(xy="xyz", xz="xzy", yz="yzx")


def gen_call(rng, w, n):
    """One call of a function for derived point data"""
    what = rng.choice(["slice"] * 6 + ["slices"] * 2 + ["plot"] * 3 + ["calc"] * 2)
    ori = rng.choice(["xy", "xy", "xz", "yz"])
    c = dict(what=what, ori=ori, mean=rng.random() < 0.5 and w["states"] != "wrg")
    if what == "calc":
        c.update(n=rng.randint(1, 6), seed=rng.randrange(1 << 30), vary=rng.random() < 0.4, file=rng.random() < 0.5)
        return c
    if rng.random() < 0.5:
        c["n"] = [rng.randint(2, 5), rng.randint(2, 4)]
    else:
        c["res"] = rng.choice([300.0, 450.0, 700.0])
    if ori != "xy":
        c["xdir"] = rng.choice([270, 270, 0, 33.5, 200])
    lim = {}
    heights = w["states"].startswith(("multiheight", "opf_mh", "field"))
    for k in ori:
        if k == "z":
            # states with heights have data up to 400 m
            if heights or rng.random() < 0.4:
                lim["zmin"] = round(rng.uniform(5, 40), 1)
            if heights or rng.random() < 0.4:
                lim["zmax"] = round(rng.uniform(180, 300), 1)
        elif what in ("slices", "plot") or rng.random() < 0.3:
            # no points exactly at rotors, where rounding decides about wakes,
            # unless foxes tells the exact points
            lim[k + "min"] = round(rng.uniform(-300, 200), 3)
            lim[k + "max"] = round(rng.uniform(900, 2500), 3)
        elif rng.random() < 0.3:
            # within the automatic limits
            lim[k + rng.choice(["min", "max"])] = None
        if rng.random() < 0.3:
            lim[k + "space"] = rng.choice([100.0, 250.0]) if k != "z" or not heights else 20.0
    c["lim"] = lim
    k = ORI[ori][2]
    pos = (lambda: rng.choice([70.0, 90.0, 120.0])) if k == "z" else (lambda: round(rng.uniform(100, 900), 3))
    if what == "slices":
        c["list"] = [pos() + 10 * j for j in range(rng.randint(1, 3))]
    elif rng.random() < 0.5 or (what == "plot" and ori == "yz"):
        c["pos"] = pos()
    names = MEANS if c["mean"] else VARS
    if what != "plot":
        c["vars"] = rng.choice([None, rng.sample(names, rng.randint(1, 3)), rng.sample(names, rng.randint(1, 3))])
        c["format"] = rng.choice(["numpy", "pandas", "xarray"]) if what == "slice" else "xarray"
        c["file"] = c["format"] != "numpy" and what == "slice" and rng.random() < 0.3
        if rng.random() < 0.3:
            c["labels"] = {rng.choice(c["vars"] or ["WS"]): "renamed", ori[0]: "first"}
            if what == "slices":
                c["labels"].pop(ori[0])
        if rng.random() < 0.3:
            c["norm"] = dict(a=rng.choice([None, 126.0]), b=rng.choice([None, 100.0]), v={rng.choice(names): 2.5})
        if rng.random() < 0.3:
            c["vmin"] = {"WS": 6.0, "TI": 0.06}
        if rng.random() < 0.3:
            c["vmax"] = {"WS": 9.0, "AMB_WS": 10.0}
        c["verb"] = rng.choice([0, 0, 0, 1])
    else:
        c["var"] = rng.choice(names)
        c["levels"] = None
        c["quiver"] = rng.choice([None, None, 1, 2])
        if rng.random() < 0.3:
            c["vmin"] = {c["var"]: 0.07}
        if rng.random() < 0.3:
            c["vmax"] = {c["var"]: 9.0}
        c["rotor"] = rng.random() < 0.3 and not c["mean"] and ori == "xy"
        c["anim"] = not c["mean"] and rng.random() < 0.3
        c["precalc"] = not c["mean"] and rng.random() < 0.2
    if rng.random() < 0.4:
        k = rng.randint(1, n)
        c["isel"] = sorted(rng.sample(range(n), k))
        c["sel"] = rng.random() < 0.4
    return c


class C17:
    ID = "C17"
    N = dict(quick=420, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a random world, calculated on a random engine, and a history of slices, plots and point outputs with random planes, limits, "
        "resolutions, variables, formats, selections of states and worker or main thread faults; the reference calculates the same "
        "coordinates as points on one chunk; non-trivial: several chunks, or a fault that was injected"
    )

    def gen(self, rng, tier, i):
        w = worlds.gen_world(rng, nmax=7, algo="Iterative" if rng.random() < 0.15 else "Downwind", frames=["rotor_wd"] * 4 + ["yawed_k004", "streamlines_short"])
        w.pop("moving", None)
        w["n_turbines"] = min(w["n_turbines"], 4)
        w.pop("ambient", None)
        w.pop("outputs", None)
        n = worlds.true_n_states(w)
        e = seams.gen_engine(rng, n_states=n, n_points=12)
        calls = [gen_call(rng, w, n) for _ in range(rng.choice([1, 2, 2, 3]))]
        fl = []
        if rng.random() < 0.25:
            fl = faults.gen_faults(rng, e, ntasks=4)
            fl = [dict(f, _late=True) for f in fl if f["point"] in ("task", "main", "submit", "worker.crash", "result.lost")]
        return dict(seed=rng.randrange(1 << 40), world=w, engine=e, calls=calls, chunked=rng.random() < 0.15, faults=fl, platform=seams.gen_platform(rng))

    # -- calls ------------------------------------------------------------
    def kwargs(self, c, states):
        """Common arguments"""
        kw = dict(c["lim"])
        if "n" in c:
            kw["n_img_points"] = tuple(c["n"])
        else:
            kw["resolution"] = c["res"]
        if "xdir" in c:
            kw["x_direction"] = c["xdir"]
        if "pos" in c:
            kw[ORI[c["ori"]][2]] = c["pos"]
        if c.get("isel"):
            if c.get("sel"):
                kw["states_sel"] = [states[i] for i in c["isel"]]
            else:
                kw["states_isel"] = list(c["isel"])
        return kw

    def call(self, c, algo, fr, states, odir):
        """Calls foxes, returns canonical data: list of (name, a, b, plane, {var: array (state or 1, a, b)})"""
        import foxes

        O = foxes.output
        ori = c["ori"]
        if c["what"] == "calc":
            pts = self.points(c, len(states))
            o = O.PointCalculator(algo, fr, out_dir=odir)
            kw = dict(states_mean=c["mean"])
            if c["file"]:
                kw["to_file"] = "pts.nc"
                kw["write_vars"] = ["WS", "TI"]
            r = o.calculate(pts, **kw)
            return r
        kw = self.kwargs(c, states)
        if c["what"] == "plot":
            import matplotlib.pyplot as plt

            o = O.FlowPlots2D(algo, fr, out_dir=odir)
            v = c["var"]
            kw.update(quiver_n=c["quiver"], vmin=c.get("vmin", {}).get(v), vmax=c.get("vmax", {}).get(v))
            out = []
            try:
                if c["mean"]:
                    r = getattr(o, f"get_mean_fig_{ori}")(v, ret_im=True, ret_data=True, **kw)
                    out.append((None, np.array(r[1][0].get_array()), np.array(r[1][0]._coordinates), np.array(r[2]), None))
                else:
                    g = getattr(o, f"gen_states_fig_{ori}")
                    k2 = dict(kw, ret_im=True, ret_state=True, animated=c["anim"])
                    if c["rotor"]:
                        k2["rotor_color"] = "red"
                    if c["precalc"]:
                        it = g(v, precalc=True, **k2)
                        pre = next(it)
                        it.close()
                        k2["precalc"] = pre
                    for r in g(v, **k2):
                        lines = None
                        if c["rotor"]:
                            ax = r[2][0].axes
                            lines = np.array([x.get_xydata() for x in ax.lines])
                        out.append((r[1], np.array(r[2][0].get_array()), np.array(r[2][0]._coordinates), None, lines))
            finally:
                plt.close("all")
            return out
        cls = O.SliceData if c["what"] == "slice" else O.SlicesData
        o = cls(algo, fr, out_dir=odir)
        kw["variables"] = copy.copy(c["vars"])
        for k in ("vmin", "vmax"):
            if k in c:
                kw[k] = dict(c[k])
        if "labels" in c:
            kw["label_map"] = dict(c["labels"])
        if "norm" in c:
            kw[f"normalize_{ori[0]}"] = c["norm"]["a"]
            kw[f"normalize_{ori[1]}"] = c["norm"]["b"]
            kw["normalize_v"] = dict(c["norm"]["v"])
        kw["verbosity"] = c["verb"]
        fn = f"get_{'mean' if c['mean'] else 'states'}_data_{ori}"
        if c["what"] == "slices":
            return getattr(o, fn)(list(c["list"]), **kw)
        if c["file"]:
            kw["to_file"] = "slice.nc" if c["format"] == "xarray" else "slice.csv"
        return getattr(o, fn)(data_format=c["format"], ret_states=True, ret_grid=True, **kw)

    # -- oracle -----------------------------------------------------------
    def points(self, c, n):
        p = worlds.make_points(dict(n=c["n"], seed=c["seed"], vary=c["vary"], n_states=n))
        return p if c["vary"] else p[0]

    def axes(self, c):
        """Unit vectors of the plane"""
        d = np.deg2rad(c.get("xdir", 270))
        nx = np.array([-np.sin(d), -np.cos(d), 0.0]) if c["ori"] != "xy" else np.array([1.0, 0, 0])
        ny = np.array([-nx[1], nx[0], 0.0])
        return dict(x=nx, y=ny, z=np.array([0.0, 0, 1.0]))

    def grid(self, c, R):
        """The ranges that are requested, and the position of the plane"""
        ax = self.axes(c)
        f = R["farm"]["vars"]
        xyz = np.stack([f["X"][1], f["Y"][1], f["H"][1]], axis=-1)
        if c.get("isel"):
            xyz = xyz[c["isel"]]
        lim = c["lim"]
        out = []
        for k in c["ori"]:
            q = xyz @ ax[k]
            s = lim.get(k + "space", 500.0)
            lo = lim.get(k + "min", 0.0 if k == "z" else q.min() - s)
            hi = lim.get(k + "max", q.max() + s)
            lo, hi = q.min() - s if lo is None else lo, q.max() + s if hi is None else hi
            out.append((lo, hi))
        k = ORI[c["ori"]][2]
        q = xyz @ ax[k]
        pos = c["list"] if "list" in c else [c["pos"] if "pos" in c else 0.5 * (q.min() + q.max())]
        return out, pos

    def coords(self, ctx, c, R, a, b, what):
        """Compares the positions with the request"""
        (ra, rb), pos = self.grid(c, R)
        for k, (x, r, m) in enumerate(((a, ra, 0), (b, rb, 1))):
            x = np.asarray(x, dtype=float)
            if "n" in c:
                n = c["n"][m]
            else:
                n = len(x)
                if abs((r[1] - r[0]) / c["res"] - (n - 1)) > 0.5 + 1e-6:
                    ctx.violation("grid", f"{what}: {n} points from {r[0]} to {r[1]} for a resolution of {c['res']}")
            want = np.linspace(r[0], r[1], n)
            if len(x) != n or not np.allclose(x, want, rtol=0, atol=1e-4):
                ctx.violation("grid", f"{what}: {c['ori'][m]} is {x[:3]}..{x[-1]} ({len(x)}) instead of {want[:3]}..{want[-1]} ({n})")
        return pos

    def expected(self, c, R, scratch, a, b, pos, exact=None):
        """Point results at the plane: {var: (state, a, b)}, weights"""
        ax = self.axes(c)
        n = R["n"]
        g = (
            np.asarray(a)[:, None, None] * ax[c["ori"][0]]
            + np.asarray(b)[None, :, None] * ax[c["ori"][1]]
            + pos * ax[ORI[c["ori"]][2]]
        ).reshape(-1, 3)
        if exact is not None:
            if exact.shape[1:] != g.shape or not np.allclose(exact, g[None], rtol=0, atol=1e-3):
                return None
            g = exact[0]
        r = R["points"](np.repeat(g[None], n, axis=0))
        return self.take(c, r, (len(a), len(b)))

    def take(self, c, r, shape):
        i = c.get("isel") or slice(None)
        out = {}
        wd, wv = r["vars"]["weight"] if "weight" in r["vars"] else (("state",), None)
        for v, (d, x) in r["vars"].items():
            if d == ("state", "point") and v != "weight":
                out[v] = x[i].reshape(-1, *shape)
        if wv is None:
            return out, None
        wv = wv[i]
        if c.get("isel"):
            wv = wv / wv.sum(axis=0)
        return out, (wv if wv.ndim == 1 else wv.reshape(-1, *shape))

    def mean(self, x, w):
        w = w.reshape(-1, *([1] * (x.ndim - 1))) if w.ndim == 1 else w
        return (x * w).sum(axis=0)

    def same(self, ctx, v, got, want, what, tol, angle=False):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            ctx.violation("shape", f"{what}: {v}: shape {got.shape} instead of {want.shape}")
        d = np.abs(got - want)
        if angle:
            d = np.minimum(d % 360, 360 - d % 360)
        ok = (d <= tol[1] + tol[0] * np.abs(want)) | (np.isnan(got) & np.isnan(want))
        if not ok.all():
            i = tuple(int(x) for x in np.argwhere(~ok)[0])
            ctx.violation("differs", f"{what}: {v}{list(i)} is {got[i]!r} instead of {want[i]!r} ({int((~ok).sum())} of {ok.size})")
        ctx.evals += 1

    def judge(self, ctx, c, R, got, tol, scratch, what):
        import pandas as pd
        import xarray as xr

        odir = os.path.join(scratch, "out")
        st = R["states"]
        sts = [st[i] for i in c["isel"]] if c.get("isel") else list(st)
        if c["what"] == "calc":
            pts = self.points(c, R["n"])
            r = R["points"](pts if pts.ndim == 3 else np.repeat(pts[None], R["n"], axis=0))
            exp, wv = self.take({}, r, (c["n"],))
            wv = R["fweights"]
            for v in exp:
                if v not in got:
                    ctx.violation("missing", f"{what}: {v} is missing")
                want = exp[v] if not c["mean"] else self.mean(exp[v], wv)
                if c["mean"] and v.endswith("WD"):
                    continue
                self.same(ctx, v, got[v].values, want, what, tol, v.endswith("WD"))
            if c["file"]:
                with xr.open_dataset(os.path.join(odir, "pts.nc")) as ds:
                    ds = ds.load()
                p = pts if not c["mean"] or pts.ndim == 2 else self.mean(pts, wv)
                for k, x in enumerate("xyz"):
                    self.same(ctx, x, ds[x].values, p[..., k], what + " file", (1e-4, 1e-3))
                for v in ("WS", "TI"):
                    want = exp[v] if not c["mean"] else self.mean(exp[v], wv)
                    self.same(ctx, v, ds[v].values, want, what + " file", (1e-4, 1e-3))
                if set(ds.data_vars) != {"x", "y", "z", "WS", "TI"}:
                    ctx.violation("file", f"{what}: file has {sorted(ds.data_vars)}")
            return
        ori = c["ori"]
        lab = lambda x: c.get("labels", {}).get(x, x)
        lim = lambda v, x: np.minimum(np.maximum(x, c.get("vmin", {}).get(v, -np.inf)), c.get("vmax", {}).get(v, np.inf))
        if c["what"] == "plot":
            v = c["var"]
            ims = got
            if len(ims) != (1 if c["mean"] else len(sts)):
                ctx.violation("states", f"{what}: {len(ims)} images for {len(sts)} states")
            n1 = None
            for k, (si, im, xy, data, lines) in enumerate(ims):
                if n1 is None:
                    # cell edges of the image, centred at the grid
                    cen = 0.25 * (xy[1:, 1:] + xy[:-1, 1:] + xy[1:, :-1] + xy[:-1, :-1])
                    a, b = cen[0, :, 0], cen[:, 0, 1]
                    pos = self.coords(ctx, c, R, a, b, what)
                    exp, wv = self.expected(c, R, scratch, a, b, pos[0])
                    n1 = (len(a), len(b))
                x = self.mean(exp[v], wv) if c["mean"] else exp[v][k]
                x = lim(v, x)
                self.same(ctx, v, np.asarray(im).reshape(n1[1], n1[0]).T, x, f"{what} image {k}", tol, v == "WD")
                if data is not None:
                    self.same(ctx, v, data, x, f"{what} returned data", tol)
                if si is not None and si != k:
                    ctx.violation("states", f"{what}: state {si} instead of {k}")
                if lines is not None:
                    f = {q: y[1] for q, y in R["farm"]["vars"].items()}
                    s = c["isel"][k] if c.get("isel") else k
                    ang = f["AMB_WD"][s] + (f["YAWM"][s] if "YAWM" in f else 0)
                    th = np.deg2rad(np.mod(ang + 90, 360))
                    q = 0.5 * f["D"][s][:, None] * np.stack([np.sin(th), np.cos(th)], axis=-1)
                    ctr = np.stack([f["X"][s], f["Y"][s]], axis=-1)
                    want = np.stack([ctr + q, ctr - q], axis=1)
                    self.same(ctx, "rotor lines", lines[-len(want):], want, f"{what} image {k}", (1e-6, 1e-3))
            return
        if c["what"] == "slices":
            k = ORI[ori][2]
            a, b = got[lab(ori[0])].values, got[lab(ori[1])].values
            na, nb = ((c["norm"][q] or 1.0) for q in "ab") if "norm" in c else (1.0, 1.0)
            pos = self.coords(ctx, c, R, a * na, b * nb, what)
            if list(got[k].values) != list(pos):
                ctx.violation("grid", f"{what}: {k} is {got[k].values} instead of {pos}")
            for j, p in enumerate(pos):
                exp, wv = self.expected(c, R, scratch, a * na, b * nb, p)
                one = got.isel({k: j})
                for v in c["vars"] or [q for q in exp]:
                    x = self.mean(exp[v], wv) if c["mean"] else exp[v]
                    if "norm" in c:
                        x = x / c["norm"]["v"].get(v, 1.0)
                    x = lim(v, x)
                    if lab(v) not in one:
                        ctx.violation("missing", f"{what}: {lab(v)} is missing, {list(one.data_vars)}")
                    y = one[lab(v)].transpose(*(() if c["mean"] else ("state",)), lab(ori[0]), lab(ori[1])).values
                    if not (c["mean"] and v.endswith("WD")):
                        self.same(ctx, v, y, x, f"{what} {k}={p}", tol, v.endswith("WD"))
            if not c["mean"] and list(got["state"].values) != sts:
                ctx.violation("states", f"{what}: states {got['state'].values} instead of {sts}")
            return
        # slices
        if len(got) != 3 or len(got[2]) != 4:
            ctx.violation("returns", f"{what}: {len(got)} results")
        data, states, gd = got
        if list(states) != sts:
            ctx.violation("states", f"{what}: states {states} instead of {sts}")
        pts = np.asarray(gd[3])
        na, nb = ((c["norm"][q] or 1.0) for q in "ab") if "norm" in c else (1.0, 1.0)
        ia, ib, ic = ("xyz".index(k) for k in ORI[ori])
        if c["format"] == "xarray":
            a, b = data[lab(ori[0])].values * na, data[lab(ori[1])].values * nb
        else:
            # the points are not divided
            ax = self.axes(c)
            a = np.unique(np.round(pts[0] @ ax[ori[0]], 6))
            b = np.unique(np.round(pts[0] @ ax[ori[1]], 6))
        pos = self.coords(ctx, c, R, a, b, what)
        if not np.allclose(gd[ic], pos[0], atol=1e-6):
            ctx.violation("grid", f"{what}: plane at {gd[ic]} instead of {pos[0]}")
        exp, wv = self.expected(c, R, scratch, a, b, pos[0], pts) or (None, None)
        if exp is None:
            ctx.violation("grid", f"{what}: points {pts.shape} are not those of the grid")
        shape = (len(a), len(b))

        def of(d, v, fmt, k):
            if fmt == "numpy":
                return d[..., k]
            if fmt == "pandas":
                x = d[lab(v)].to_numpy()
                return x.reshape(shape) if c["mean"] else x.reshape(len(sts), *shape)
            y = d[lab(v)]
            return y.transpose(*(() if c["mean"] else ("state",)), lab(ori[0]), lab(ori[1])).values

        names = c["vars"]
        if names is None:
            names = [v for v in R["order"] if v in exp]
            if c["format"] == "numpy" and data.shape[-1] != len(names):
                ctx.violation("missing", f"{what}: {data.shape[-1]} variables instead of {names}")
        chk = [("", data, tol)]
        if c["file"]:
            f = os.path.join(odir, "slice.nc" if c["format"] == "xarray" else "slice.csv")
            if c["format"] == "xarray":
                with xr.open_dataset(f) as ds:
                    chk.append((" file", ds.load(), (1e-4, 1e-3)))
            else:
                chk.append((" file", pd.read_csv(f), (1e-2, 1e-2)))
        for say, d, t in chk:
            for k, v in enumerate(names):
                if c["mean"] and v.endswith("WD"):
                    continue
                x = self.mean(exp[v], wv) if c["mean"] else exp[v]
                if "norm" in c:
                    x = x / c["norm"]["v"].get(v, 1.0)
                x = lim(v, x)
                if c["format"] != "numpy" and lab(v) not in d:
                    ctx.violation("missing", f"{what}{say}: {lab(v)} is missing, {list(d)}")
                self.same(ctx, v, of(d, v, c["format"], k), x, what + say, t, v.endswith("WD"))

    # -- run --------------------------------------------------------------
    def run(self, spec, ctx):
        from foxes.config import config
        import foxes.constants as FC

        w = spec["world"]
        rd = os.path.join(ctx.scratch, "ref")
        odir = os.path.join(ctx.scratch, "out")
        os.makedirs(rd)
        R = {}

        def reference():
            W = worlds.World(w, rd)
            with common.single():
                a, r = common.calc_farm(W)
            R["farm"] = refs.to_plain(r)
            R["n"] = r.sizes["state"]
            R["states"] = list(r["state"].values) if "state" in r.coords else list(range(R["n"]))
            fw = r["weight"]
            R["fweights"] = fw.values if fw.ndim == 1 else fw.values[:, 0]

            def points(pts):
                with common.single():
                    x = a.calc_points(r, pts)
                R["order"] = list(x.data_vars)
                return refs.to_plain(x)

            R["points"] = points
            points(np.zeros((R["n"], 1, 3)) + 80.0)

        ref = common.attempt(reference)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        tol = common.tols(w)
        tol = (max(tol[0], 1e-6), max(tol[1], 1e-6))
        sim = ctx.sim(faults=[])
        plat = seams.Platform(sim, spec["platform"])
        old = dict(config)
        config[FC.OUTPUT_DIR] = odir
        try:
            with seams.installed(plat), open(os.devnull, "w") as nul, contextlib.redirect_stdout(nul):
                W = worlds.World(w, ctx.scratch)
                a = W.algo()
                with contextlib.ExitStack() as stack:
                    stack.enter_context(seams.make_engine(spec["engine"], plat))
                    fr = common.calc_farm_with(a, w)
                    if spec["chunked"]:
                        fr = fr.chunk({d: 2 for d in ("state",) if d in fr.sizes})
                    before = refs.to_plain(fr)
                    for j, c in enumerate(spec["calls"]):
                        what = f"call {j} {({k: v for k, v in c.items() if v})} of {w['states']} {w['algo']} on {spec['engine']}"
                        if j == 0:
                            sim.faults = [dict(f, _seen=0, _fired=0) for f in spec["faults"]]
                            base = dict(sim.fired)
                        verb = a.verbosity
                        kept = copy.deepcopy(c)
                        o = common.attempt(self.call, c, a, fr, R["states"], odir)
                        sim.faults = []
                        fired = sum(sim.fired.values())
                        if a.verbosity != verb:
                            ctx.violation("verbosity", f"{what}, {o.show()}, faults {dict(sim.fired)}: verbosity of the algorithm is {a.verbosity} instead of {verb}")
                        if not o.ok:
                            if not fired or j > 0:
                                ctx.violation("raises", f"{what}: {o.show()}")
                            ctx.count("failed")
                            # a broken pool belongs to its engine
                            stack.close()
                            seams.reset_global_engine()
                            stack.enter_context(seams.make_engine(spec["engine"], plat))
                            o = common.attempt(self.call, c, a, fr, R["states"], odir)
                            if not o.ok:
                                ctx.violation("again_raises", f"{what}, again after faults {dict(sim.fired)}: {o.show()}")
                        if c != kept:
                            ctx.violation("modified", f"{what}: arguments have changed")
                        self.judge(ctx, c, R, o.res, tol, ctx.scratch, what)
                        d = refs.compare(before, refs.to_plain(fr), 0, 0)
                        if d:
                            ctx.violation("modified", f"{what}: farm results have changed: " + common.short(d))
                        ctx.count(c["what"])
        finally:
            seams.reset_global_engine()
            config.clear()
            config.update(old)
        if sum(sim.fired.values()) or (spec["engine"].get("css") or 99) < R["n"]:
            ctx.count("nontrivial")


CHECK = C17()
