"""C16: calculations from dictionaries and yaml files are those of the python interface"""

import contextlib
import copy
import inspect
import os
import sys

import numpy as np
import pandas as pd

from .. import common, faults, refs, seams, worlds
from .c12 import CHECK as INPUT, Source

YAML_OK = ["timeseries", "timeseries", "table", "table", "abl", "shear", "scan", "single", "tabfile", "multiheight", "multiheight_ts", "opf", "opf_mh", "fieldfile"]
SETTERS = ("setmaxp", "setyawm", "setk_once")
OPTS = dict(rotor_model="centre", wake_frame="rotor_wd", wake_models=["Jensen_linear_k007"], partial_wakes="rotor_points")


class Rec:
    """A constructor call"""

    def __init__(self, cls, args, kwargs):
        self.cls, self.args, self.kwargs = cls, args, kwargs

    def dict(self):
        import foxes.core as fc

        base = next(b for b in self.cls.__mro__ if "new" in b.__dict__ and b.__module__.startswith("foxes.core"))
        key = list(inspect.signature(base.new).parameters)[0]
        d = {key: self.cls.__name__}
        names = []
        for c in self.cls.__mro__:
            if len(names) < len(self.args) and "__init__" in c.__dict__:
                for i, (k, q) in enumerate(inspect.signature(c.__init__).parameters.items()):
                    if i and q.kind == q.POSITIONAL_OR_KEYWORD and k not in names:
                        names.append(k)
        d.update(zip(names, self.args))
        d.update(self.kwargs)
        return d


class RecBook:
    """Stands for a model book, collects what is added"""

    def __init__(self):
        self.added = {}

    def __getattr__(self, k):
        if k.startswith("__") or k == "added":
            raise AttributeError(k)
        return self.added.setdefault(k, {})


@contextlib.contextmanager
def recording():
    import foxes

    saved = []

    def put(o, k, v):
        saved.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    def rec(cls):
        return lambda *a, **k: Rec(cls, a, k)

    try:
        for m in (foxes.input.states, foxes.models.turbine_models, foxes.models.turbine_types, foxes.models.wake_frames):
            for k, c in list(vars(m).items()):
                if inspect.isclass(c):
                    put(m, k, rec(c))
        put(foxes, "ModelBook", RecBook)
        yield
    finally:
        for o, k, v in reversed(saved):
            setattr(o, k, v)


def plain(x):
    """For yaml"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.generic,)):
        return x.item()
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    raise TypeError(f"{type(x).__name__} in yaml")


def frozen(x):
    """A snapshot of a dict that is compared afterwards"""
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tobytes())
    if isinstance(x, pd.DataFrame):
        return ("frame", list(x.columns), x.to_numpy().tobytes() if x.dtypes.map(lambda t: t != object).all() else str(x))
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return id(x)


def changed(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        out = [f"{path}/{k} is gone" for k in a if k not in b] + [f"{path}/{k} is new" for k in b if k not in a]
        for k in a:
            if k in b:
                out += changed(a[k], b[k], f"{path}/{k}")
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [m for i, (x, y) in enumerate(zip(a, b)) for m in changed(x, y, f"{path}[{i}]")]
    return [] if a == b else [f"{path} has changed"]


EVALS = ["states_mean", "states_sum", "turbine_mean", "turbine_sum", "farm_mean", "farm_power", "efficiency", "reduce"]


def gen_outputs(rng, w):
    """The outputs section, as a list of [class or label, functions]"""
    out = []
    names = ["AMB_REWS", "AMB_P", "AMB_CT", "X", "D"] if w.get("ambient") else ["REWS", "P", "AMB_REWS", "CT", "WD", "TI", "X"]
    vrs = rng.sample(names, rng.randint(1, 4))
    if rng.random() < 0.8:
        f = dict(function="get_dataset", variables=vrs)
        if rng.random() < 0.4:
            f["name_map"] = {vrs[0]: "renamed"}
        if rng.random() < 0.3:
            f["to_file"] = "table.nc"
        if rng.random() < 0.5:
            f["result_labels"] = "$tab"
        out.append(["StateTurbineTable", [f]])
        if "result_labels" in f:
            out.append(["$tab", [dict(function="max")] + ([dict(function="min", dim="turbine")] if rng.random() < 0.5 else [])])
    if not w.get("ambient") and rng.random() < 0.5:
        fs = []
        for k in rng.sample(EVALS, rng.randint(1, 4)):
            fs.append(
                dict(
                    states_mean=dict(function="calc_states_mean", vars=["REWS", "P"]),
                    states_sum=dict(function="calc_states_sum", vars=["P"]),
                    turbine_mean=dict(function="calc_turbine_mean", vars=["REWS", "P"]),
                    turbine_sum=dict(function="calc_turbine_sum", vars=["P"]),
                    farm_mean=dict(function="calc_farm_mean", args=[["REWS", "AMB_REWS"]]),
                    farm_power=dict(function="calc_mean_farm_power", ambient=rng.random() < 0.5),
                    efficiency=dict(function="calc_farm_efficiency"),
                    reduce=dict(function="reduce_states", vars_op={"REWS": rng.choice(["weights", "min", "max", "std"])}),
                )[k]
            )
        out.append(["FarmResultsEval", fs])
    if rng.random() < 0.35:
        f = dict(function="get_layout_data")
        tab = out and out[0][1][0].get("result_labels")
        nt, i, j = w["n_turbines"], rng.randrange(w["n_turbines"]), rng.randrange(3)
        if tab and rng.random() < 0.7:
            # labels for the results and for parts of them
            k = rng.random()
            if k < 0.5:
                f["result_labels"] = "$lay"
                ref = f"$lay[{i},{j}]"
            else:
                f["result_labels"] = [rng.choice(["", "_", "none"]) if t != i else "$row" for t in range(nt)]
                ref = f"$row[{j}]"
            out.append(["FarmLayoutOutput", [f]])
            out.append(["$tab", [dict(function="clip", min=ref)] + ([dict(function="max")] if rng.random() < 0.5 else [])])
        else:
            out.append(["FarmLayoutOutput", [f]])
    if rng.random() < 0.25:
        out.append(["ResultsWriter", [dict(function="write_csv", file_name="res.csv", variables=vrs, verbosity=0)]])
    return out


def run_direct(outs, algo, fres):
    """The outputs by means of the classes of foxes"""
    import foxes

    labels, res = {}, []
    for what, funs in outs:
        if what.startswith("$"):
            o = labels[what]
        else:
            cls = getattr(foxes.output, what)
            o = cls(farm=algo.farm) if what == "FarmLayoutOutput" else cls(farm_results=fres)
        r = []
        for f in funs:
            f = copy.deepcopy(f)
            fn, lb, args = f.pop("function"), f.pop("result_labels", None), f.pop("args", ())
            for k, v in f.items():
                if isinstance(v, str) and v.startswith("$"):
                    q, _, inds = v.rstrip("]").partition("[")
                    f[k] = labels[q]
                    for x in inds.split(",") if inds else []:
                        f[k] = f[k][int(x)]
            r.append(getattr(o, fn)(*args, **f))
            if isinstance(lb, list):
                labels.update({x: r[-1][i] for i, x in enumerate(lb) if x.startswith("$")})
            elif lb:
                labels[lb] = r[-1]
        res.append(r)
    return res


def canon(x):
    """Values of outputs"""
    import xarray as xr

    if isinstance(x, xr.Dataset):
        return {"__dims": sorted(map(str, x.dims)), **{str(k): canon(v) for k, v in x.variables.items()}}
    if hasattr(x, "dims") and hasattr(x, "values"):
        return [list(x.dims), np.asarray(x.values)]
    if isinstance(x, pd.DataFrame):
        return {"index": np.asarray(x.index), **{str(c): x[c].to_numpy() for c in x.columns}}
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return x


def differ(a, b, rtol, atol, path=""):
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return [f"{path}: {sorted(a)} and {sorted(b) if isinstance(b, dict) else type(b).__name__}"]
        return [m for k in a for m in differ(a[k], b[k], rtol, atol, f"{path}/{k}")]
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return [f"{path}: different length or type"]
        return [m for i in range(len(a)) for m in differ(a[i], b[i], rtol, atol, f"{path}[{i}]")]
    if isinstance(a, (np.ndarray, np.generic, float, int)) and not isinstance(a, bool):
        u, v = np.asarray(a), np.asarray(b)
        if u.shape != v.shape:
            return [f"{path}: shapes {u.shape} and {v.shape}"]
        if u.dtype.kind in "fc" and v.dtype.kind in "fciu":
            ok = np.allclose(u, v, rtol=rtol, atol=atol * max(1.0, float(np.nanmax(np.abs(u))) if u.size and not np.all(np.isnan(u)) else 1.0), equal_nan=True)
        else:
            ok = u.astype(str).tolist() == v.astype(str).tolist()
        return [] if ok else [f"{path}: {u.ravel()[:3]} and {v.ravel()[:3]}"]
    return [] if a == b or (a is not None and type(a) is type(b)) else [f"{path}: {str(a)[:60]} and {str(b)[:60]}"]


class C16:
    ID = "C16"
    N = dict(quick=420, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a random world as a dictionary (states, model book, farm, algorithm, engine, calculations, outputs), as a yaml file, or on the "
        "command line, some parts replaced by arguments, with worker and main thread faults; the reference uses the python interface on "
        "one chunk; non-trivial: a fault that was injected, or several chunks"
    )

    def gen(self, rng, tier, i):
        mode = rng.choice(["dict", "dict", "dict", "yaml", "cli"])
        algo = "Iterative" if rng.random() < 0.25 else "Downwind"
        w = worlds.gen_world(
            rng,
            kinds=YAML_OK if mode != "dict" else None,
            nmax=8,
            algo=algo,
            frames=worlds.FRAMES_DYN if algo == "Iterative" and rng.random() < 0.4 else worlds.FRAMES_STEADY,
        )
        w.pop("moving", None)
        w["n_turbines"] = min(w["n_turbines"], 4)
        if w["frame"].startswith("streamlines_500") or w["frame"] == "rotor_wd_farmo" and w["algo"] == "Downwind":
            w["frame"] = "rotor_wd"
        if mode != "dict":
            w["uniform_h"] = True
            if set(SETTERS) & set(w["tmodels"]) or "calc_k" in w["tmodels"]:
                w["tmodels"] = []
                if w["frame"] == "yawed_k004":
                    w["frame"] = "rotor_wd"
                w["wakes"] = [x if not x.startswith("Bastankhah2016") else "Bastankhah2014_linear_k004" for x in w["wakes"]]
        n = worlds.true_n_states(w)
        p = common.gen_points(rng, w, nmax=6) if rng.random() < 0.5 else None
        if p is not None:
            p["vary"] = False
            p.pop("isel", None)
            if w["frame"].startswith(("dyn_wakes", "timelines")):
                p = None
        if rng.random() < 0.6:
            w.pop("outputs", None)
        over = []
        if mode == "dict":
            over = [k for k in ("states", "farm", "mbook", "algo") if rng.random() < 0.12]
            if "algo" in over:
                over = ["algo"]
            elif set(SETTERS) & set(w["tmodels"]) and "mbook" not in over:
                over.append("mbook")
        eng = rng.choice(["dict", "dict", "dict", "pars", "pars", "active", "none"])
        kinds = [k for k in seams.ALL_KINDS]
        if mode == "cli":
            eng = rng.choice(["dict", "dict", "pars", "pars", "none"])
            if eng == "pars":
                kinds = [k for k in kinds if k not in seams.DASK_KINDS]
        if mode == "yaml" and eng == "dict" or mode == "cli":
            kinds = [k for k in kinds if k not in seams.DASK_KINDS]
        e = seams.gen_engine(rng, kinds=kinds, n_states=n, n_points=p["n"] if p else 0)
        if rng.random() < 0.05 and not p and w["algo"] == "Downwind" and w["frame"] == "rotor_wd":
            w["wakes"] = []
        fl = []
        if rng.random() < 0.45:
            fl = faults.gen_faults(rng, e if eng != "none" else dict(kind="default"), ntasks=8)
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            mode=mode,
            points=p,
            pform=rng.choice(["array", "array2", "csv"]),
            over=over,
            pars=[k for k in OPTS if rng.random() < (0.6 if k == "wake_models" and not w["wakes"] else 0.2)] if "algo" not in over else [],
            flag_it=w["algo"] == "Iterative" and rng.random() < 0.5 and "algo" not in over,
            eng=eng,
            engine=e,
            nname=rng.random() < 0.3,
            farm=rng.choice(["csv", "csv", "csv.gz", "df" if mode == "dict" else "csv"]),
            split=rng.random() < 0.3,
            objects=rng.random() < 0.5 if mode == "dict" else False,
            rel=rng.random() < 0.6,
            nofarm=rng.random() < 0.05,
            outs=gen_outputs(rng, w) if not w.get("outputs") and rng.random() < 0.8 else [],
            empty_arg=rng.random() < 0.1,
            verb=rng.choice([0, 0, 0, 1, None]),
            platform=seams.gen_platform(rng),
            faults=fl,
        )

    # -- construction -----------------------------------------------------
    def layouts(self, spec, root):
        """The entries of the farm"""
        w = spec["world"]
        ref = worlds.make_farm(w)
        ts = ref.turbines
        cuts = [0, len(ts)]
        if spec["split"] and len(ts) > 1:
            cuts = [0, len(ts) // 2, len(ts)]
        # turbines of equal heights may share a layout file
        out = []
        for a, b in zip(cuts[:-1], cuts[1:]):
            g = ts[a:b]
            nm = len(g[0].models)
            df = pd.DataFrame(
                dict(
                    nam=[t.name for t in g],
                    px=[float(t.xy[0]) for t in g],
                    py=[float(t.xy[1]) for t in g],
                    num=[int(t.index) for t in g],
                    hh=[np.nan if t.H is None else float(t.H) for t in g],
                    **{f"m{k}": [t.models[k] for t in g] for k in range(nm)},
                )
            )
            hh = [t.H for t in g]
            lyt = dict(col_name="nam", col_x="px", col_y="py", col_id="num", cols_models_pre=[f"m{k}" for k in range(nm)])
            if all(h is not None for h in hh):
                lyt["col_H"] = "hh"
            elif any(h is not None for h in hh):
                return None
            f = spec["farm"]
            if f == "df":
                out.append(dict(function="add_from_df", data_source=df, **lyt))
            else:
                p = os.path.join(root, f"farm{a}.{f}")
                df.to_csv(p, index=False)
                q = os.path.relpath(p, root) if spec["rel"] else p
                if w["seed"] % 2:
                    out.append(dict(function="add_from_csv", data_source=q, **lyt))
                else:
                    out.append(dict(function="add_from_file", file_path=q, **lyt))
        return out

    def build(self, spec, root):
        """Dictionary and arguments of run_dict, and the points"""
        w = dict(spec["world"])
        mode = spec["mode"]
        if w["states"] == "tab" and not spec["objects"]:
            w["states"] = "tabfile"
        src = dict(rel=spec["rel"], fmt="csv")
        d, kw = {}, {}
        over = spec["over"]
        try:
            if not spec["objects"]:
                worlds.SOURCE = Source(src, root, "states")
            with recording():
                st = None if {"states", "algo"} & set(over) else worlds.make_states(w, root)
                if not spec["objects"]:
                    worlds.SOURCE = Source(src, root, "models")
                mb = None if {"mbook", "algo"} & set(over) else worlds.make_mbook(w)
        finally:
            worlds.SOURCE = None
        # what is overruled may stay in the dictionary
        W = worlds.World(w, root, states=0, mbook=0, farm=0)
        ak = W.algo_kwargs()
        ak.pop("mbook")
        ak.pop("verbosity")
        if "algo" in over:
            kw["algo"] = worlds.World(w, root).algo()
        else:
            if "states" in over:
                kw["states"] = worlds.make_states(w, root)
            else:
                d["states"] = st.dict()
            if "mbook" in over:
                kw["mbook"] = worlds.make_mbook(w)
            elif mb.added:
                d["model_book"] = {s: [dict(name=k, **r.dict()) for k, r in x.items()] for s, x in mb.added.items() if x}
            lyts = None if "farm" in over else self.layouts(spec, root)
            if lyts is None and mode == "dict":
                kw["farm"] = worlds.make_farm(w)
            elif lyts is None:
                return None
            else:
                d["wind_farm"] = dict(layouts=lyts)
            d["algorithm"] = dict(algo_type=w["algo"], **ak)
        for k in spec["pars"]:
            if k in ak:
                d["algorithm"][k] = copy.copy(OPTS[k])
                kw[k] = copy.copy(ak[k])
        if spec["flag_it"]:
            d["algorithm"]["algo_type"] = "Downwind"
            kw["iterative"] = True
        cf = {}
        for k in ("ambient", "normalize"):
            if w.get(k):
                cf[k] = True
        if w.get("outputs"):
            cf["outputs"] = list(w["outputs"])
        if cf or w["seed"] % 3 == 0:
            d["calc_farm"] = cf
            if w["seed"] % 2 == 0:
                cf["run"] = True
        p = spec["points"]
        if p is not None:
            pts = common.ref_points_array(w, p)
            c = dict(run=True)
            if w.get("ambient"):
                c["ambient"] = True
            if p.get("outputs"):
                c["outputs"] = list(p["outputs"])
            if spec["pform"] == "csv":
                f = os.path.join(root, "points.csv")
                pd.DataFrame(pts[0], columns=["x", "y", "z"]).to_csv(f, index=False)
                c["points"] = "points.csv" if spec["rel"] else f
            else:
                c["points"] = pts if spec["pform"] == "array" else pts[0]
            d["calc_points"] = c
        if spec["outs"]:
            d["outputs"] = []
            for what, funs in copy.deepcopy(spec["outs"]):
                k = "object" if what.startswith("$") else "output_type"
                d["outputs"].append({k: what, "functions": funs})
        return d, kw

    # -- run --------------------------------------------------------------
    def run(self, spec, ctx):
        import foxes
        import foxes.constants as FC
        import foxes.core.engine as ce
        from foxes.config import config
        from foxes.input.yaml import run_dict
        from foxes.utils import Dict

        w, p, mode = spec["world"], spec["points"], spec["mode"]
        rd, root, odir = (os.path.join(ctx.scratch, k) for k in ("ref", "in", "out"))
        for x in (rd, root, odir):
            os.makedirs(x)
        R = {}
        old = dict(config)

        def reference():
            W = worlds.World(w, rd)
            config[FC.OUTPUT_DIR] = os.path.join(rd, "o")
            with common.single():
                a, r = common.calc_farm(W)
                R["farm"] = refs.to_plain(r)
                if p is not None:
                    R["points"] = refs.to_plain(common.calc_points(a, r, w, p))
                R["outs"] = canon(run_direct(spec["outs"], a, r))

        ref = common.attempt(reference)
        config.clear()
        config.update(old)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        rtol, atol = common.tols(w)
        if w["states"] in ("tab", "tabfile"):
            rtol = atol = 1e-5
        sim = ctx.sim(faults=[])
        plat = seams.Platform(sim, spec["platform"])
        ek = dict(engine_type=spec["engine"]["kind"])
        what = f"{mode} {w['states']} {w['algo']} {w['frame']} engine {spec['eng']} {spec['engine']} over {spec['over']} {spec['pars']}{' -it' if spec['flag_it'] else ''}"

        def engines(say):
            e = ce.get_engine(error=False, default=False)
            if spec["eng"] == "active":
                return
            if spec["eng"] == "none":
                seams.reset_global_engine()
                return
            if e is not None:
                ctx.violation("engine_left", f"{say}: {type(e).__name__} is still active")
            lk = plat.leaks()
            if lk:
                ctx.violation("engine_left", f"{say}: open pools {lk}")

        def judge(got, say):
            ctx.evals += 1
            for k in ("farm", "points"):
                if k in R and got.get(k) is not None:
                    dd = refs.compare(R[k], got[k], rtol, atol)
                    if dd:
                        ctx.violation("differs", f"{k}, {say}: " + common.short(dd))
            dd = differ(R["outs"], got["outs"], max(rtol, 1e-6), atol, "outputs") if "outs" in got else []
            if dd:
                ctx.violation("outputs", f"{say}: " + common.short(dd))

        def call(d, kw):
            if spec["eng"] == "dict":
                d["engine"] = {k: v for k, v in ek.items() if v is not None}
            elif spec["eng"] == "pars":
                kw["engine_pars"] = {k: v for k, v in ek.items() if v is not None}
            kw = dict(kw, input_dir=root, output_dir=odir, verbosity=spec["verb"])
            D = Dict(d, name="test")
            snap = frozen(D)
            kws = frozen({k: v for k, v in kw.items()})
            if spec["eng"] == "active":
                def active():
                    with seams.make_engine(spec["engine"], plat) as e:
                        r = common.attempt(run_dict, D, **kw)
                        now = ce.get_engine(error=False, default=False)
                        if now is not e:
                            ctx.violation("engine_lost", f"{what}: the active engine of the caller is replaced by {type(now).__name__}, {r.show()}")
                        return r

                o = common.attempt(active)
                o = o.res if o.ok else o
                seams.reset_global_engine()
            else:
                o = common.attempt(run_dict, D, **kw)
            engines(f"{what}, {o.show()}, faults {dict(sim.fired)}")
            ch = changed(snap, frozen(D)) + changed(kws, frozen({k: v for k, v in kw.items()}), "args")
            if ch:
                ctx.violation("modified", f"{what}, {o.show()}: " + common.short(ch))
            return o, D, kw

        def got(res):
            g = dict(farm=refs.to_plain(res[0]))
            if p is not None:
                g["points"] = refs.to_plain(res[1])
            if len(res) != 2 + (p is not None):
                ctx.violation("returns", f"{what}: {len(res)} results")
            if spec["outs"]:
                g["outs"] = canon([x[1] for x in res[-1]])
            return g

        def by_dict(d, kw):
            o, D, kw = call(d, kw)
            if o.ok:
                judge(got(o.res), f"{what}, faults {dict(sim.fired)}")
            return o, (D, kw)

        def again(D, kw):
            kw = dict(kw)
            if kw.get("algo") is not None:
                kw["algo"] = worlds.World(w, root).algo()

            def f():
                if spec["eng"] == "active":
                    with seams.make_engine(spec["engine"], plat):
                        return run_dict(D, **kw)
                return run_dict(D, **kw)

            return common.attempt(f)

        def by_cli(d, kw, tag):
            import yaml

            for k in spec["pars"]:
                if k in d["algorithm"]:
                    pass
            f = os.path.join(root, f"input{tag}.yaml")
            d = copy.deepcopy(d)
            args = ["foxes_yaml", f, "-o", odir, "-nf"]
            flag = dict(rotor_model="-r", wake_frame="-f", wake_models="-w", partial_wakes="-p")
            for k in spec["pars"]:
                if k in kw:
                    v = kw[k]
                    if v == [] or isinstance(v, dict):
                        d["algorithm"][k] = v
                        continue
                    args += [flag[k]] + (list(v) if isinstance(v, list) else [v])
            if kw.get("iterative"):
                args.append("-it")
            if spec["verb"] is not None:
                args += ["-v", str(spec["verb"])]
            if spec["eng"] == "dict":
                d["engine"] = {k: v for k, v in ek.items() if v is not None}
            elif spec["eng"] == "pars":
                if not (spec["nname"] and spec["engine"]["kind"] == "default"):
                    args += ["-e", ek["engine_type"]]
                for o, k in (("-n", "n_procs"), ("-c", "chunk_size_states"), ("-C", "chunk_size_points")):
                    if ek.get(k) is not None:
                        args += [o, str(ek[k])]
            d.setdefault("outputs", []).append(
                dict(output_type="StateTurbineTable", functions=[dict(function="get_dataset", variables=w.get("outputs") or (["AMB_REWS", "AMB_P"] if w.get("ambient") else ["REWS", "P", "AMB_REWS"]), to_file="cli.nc")])
            )
            with open(f, "w") as h:
                yaml.safe_dump(plain(d), h, sort_keys=False)
            argv, sys.argv = sys.argv, args
            try:
                from foxes.input.yaml.yaml import foxes_yaml

                for x in os.listdir(odir):
                    os.remove(os.path.join(odir, x))
                return common.attempt(foxes_yaml)
            finally:
                sys.argv = argv

        def cli_file(say):
            import xarray as xr

            q = os.path.join(odir, "cli.nc")
            if not os.path.exists(q):
                ctx.violation("file", f"{say}: no output file, {os.listdir(odir)}")
            with xr.open_dataset(q) as ds:
                ds = ds.load()
            R0 = {}
            for v in list(ds.data_vars):
                a = R["farm"]["vars"][v] if "vars" in R["farm"] else R["farm"][v]
                R0[v] = a
                x, y = np.asarray(a[1] if isinstance(a, (tuple, list)) else a, dtype=float), ds[v].values.astype(float)
                if x.shape != y.shape or not np.allclose(x, y, rtol=1e-5, atol=1e-4 * max(1.0, np.nanmax(np.abs(x))), equal_nan=True):
                    ctx.violation("file", f"{say}: {v}: {y.ravel()[:4]} instead of {x.ravel()[:4]}")
            if not R0:
                ctx.violation("file", f"{say}: empty file")
            ctx.evals += 1

        fired = 0
        try:
            with seams.installed(plat), open(os.devnull, "w") as nul, contextlib.redirect_stdout(nul):
                ek.update(seams.engine_kwargs(spec["engine"], plat))
                b = self.build(spec, root)
                if b is None:
                    ctx.skip("farm")
                d, kw = b
                if mode == "yaml":
                    import yaml

                    f = os.path.join(root, "input.yaml")
                    with open(f, "w") as h:
                        yaml.safe_dump(plain(d), h, sort_keys=False)
                    d = Dict.from_yaml(f, verbosity=0)
                sim.faults = [dict(f, _seen=0, _fired=0) for f in spec["faults"]]
                if mode == "cli":
                    o = by_cli(d, kw, 0)
                    engines(f"{what}, {o.show()}, faults {dict(sim.fired)}")
                else:
                    o, (D, kw2) = by_dict(d, kw)
                sim.faults = []
                fired = sum(sim.fired.values())
                ctx.count("failed" if not o.ok else "ok_with_fault" if fired else "ok")
                if not o.ok and not fired:
                    ctx.violation("raises", f"{what}: {o.show()}")
                if mode == "cli" and o.ok:
                    cli_file(what)
                # once more
                say = f"{what}, again after {o.show()} with faults {dict(sim.fired)}"
                if mode == "cli":
                    o2 = by_cli(d, kw, 1)
                    if o2.ok:
                        cli_file(say)
                else:
                    o2 = again(D, kw2)
                    if o2.ok:
                        judge(got(o2.res), say)
                if not o2.ok:
                    ctx.violation("again_raises", f"{say}: {o2.show()}")
                engines(say)
        finally:
            seams.reset_global_engine()
            config.clear()
            config.update(old)
        ctx.count("mode_" + mode)
        ctx.count("eng_" + spec["eng"])
        if fired or (spec["engine"].get("css") or 99) < worlds.true_n_states(w):
            ctx.count("nontrivial")


CHECK = C16()
