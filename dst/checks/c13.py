"""C13: written files hold the results, a failed write is an error"""

import builtins
import contextlib
import copy
import csv
import errno
import gzip
import bz2
import io
import json
import math
import os
import resource
import shutil
import signal
import zipfile

import numpy as np
import pandas as pd

from .. import common, refs, seams, worlds

DIGITS = dict(WD=3, WS=4, REWS=4, REWS2=4, REWS3=4, TI=6, RHO=5, P=3, CT=6, T=3, YLD=3, CAP=5, EFF=5)
FMT = ["csv", "csv", "csv", "csv.gz", "csv.bz2", "csv.zip"]
COLS = ["WS", "REWS", "P", "CT", "TI", "AMB_REWS", "AMB_TI", "AMB_P", "X", "Y", "H", "D", "WD", "YAW", "RHO", "weight", "EFF", "AMB_WD"]


def digits(v):
    return DIGITS.get(v[4:] if v.startswith("AMB_") else v)


class Limit:
    """A file system with room for n bytes per file"""

    def __init__(self, n):
        self.n = n

    def set(self, n):
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))

    @contextlib.contextmanager
    def on(self):
        import xarray as xr

        old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        orig = xr.Dataset.to_netcdf

        def to_netcdf(ds, path=None, *a, **k):
            # the HDF5 library does not survive such errors: stub
            self.set(resource.RLIM_INFINITY)
            try:
                tmp = str(path) + ".part"
                try:
                    r = orig(ds, tmp, *a, **k)
                    with open(tmp, "rb") as f:
                        b = f.read()
                finally:
                    if os.path.exists(tmp):
                        os.remove(tmp)
                with open(path, "wb") as f:
                    f.write(b[: self.n])
                if len(b) > self.n:
                    raise OSError(errno.EFBIG, "file too large", str(path))
                return r
            finally:
                self.set(self.n)

        xr.Dataset.to_netcdf = to_netcdf
        self.set(self.n)
        try:
            yield
        finally:
            self.set(resource.RLIM_INFINITY)
            xr.Dataset.to_netcdf = orig
            signal.signal(signal.SIGXFSZ, old)


@contextlib.contextmanager
def refuse(root, kind):
    """Files below root cannot be opened for writing"""
    import xarray as xr

    op, nc = builtins.open, xr.Dataset.to_netcdf

    def err(p):
        return OSError(getattr(errno, kind.upper()), kind, str(p))

    def my_open(file, mode="r", *a, **k):
        if not isinstance(file, int) and any(c in mode for c in "wax+"):
            if os.path.realpath(os.fspath(file)).startswith(root):
                raise err(file)
        return op(file, mode, *a, **k)

    def to_netcdf(ds, path=None, *a, **k):
        raise err(path)

    builtins.open, xr.Dataset.to_netcdf = my_open, to_netcdf
    io_open, io.open = io.open, my_open
    try:
        yield
    finally:
        builtins.open, xr.Dataset.to_netcdf = op, nc
        io.open = io_open


class C13:
    ID = "C13"
    N = dict(quick=420, thorough=30000)
    TIMEOUT = 60
    RULE = (
        "a history of 2 to 7 writes (csv, compressed csv, netCDF, json, xyh; all writers, options and formats) of the results of a "
        "random world, by objects that are used again and again, with full disks, refused and missing folders, and crashes within the "
        "write; each write is judged on the file it leaves; non-trivial: a fault, or an object that writes for the second time"
    )

    def gen_op(self, rng, w):
        vs = rng.sample(COLS, rng.randint(1, 5))
        k = rng.choice(["csv"] * 5 + ["nc"] * 4 + ["table"] * 2 + ["frame"] * 2 + ["points"] * 2 + ["layout"] * 2 + ["raw"])
        op = dict(op=k, file=rng.randrange(4))
        if k in ("csv", "nc"):
            r = rng.random()
            if r < 0.3:
                op["vars"] = None
            elif r < 0.65:
                op["vars"] = vs
            else:
                op["vars"] = {v: rng.choice([v, "c_" + v.lower()]) for v in vs}
                for s in ("state", "turbine"):
                    if rng.random() < 0.3:
                        op["vars"][s] = "n_" + s
            op["names"] = rng.random() < 0.3
        if k == "csv":
            op["fmt"] = rng.choice(FMT)
            if rng.random() < 0.3:
                op["table"] = True
                v = rng.choice(vs)
                if isinstance(op["vars"], dict):
                    op["vars"] = {a: b for a, b in op["vars"].items() if a in ("state", "turbine")} | {v: op["vars"].get(v, v)}
                else:
                    op["vars"] = [v]
        if k in ("csv", "frame"):
            if rng.random() < 0.4:
                op["fdict"] = {v: "{:." + str(rng.randint(0, 9)) + "f}" for v in rng.sample(COLS, 4)}
            kw = {}
            if rng.random() < 0.3:
                kw["sep"] = rng.choice([";", "\t"])
            if rng.random() < 0.2:
                kw["na_rep"] = "NIL"
            if rng.random() < 0.2:
                kw["index_label"] = None
            op["kw"] = kw
        if k == "frame":
            op["vars"], op["fmt"] = vs, rng.choice(FMT)
            op["col2var"] = rng.random() < 0.4
        if k in ("nc", "table", "points", "raw"):
            kw = {}
            if rng.random() < 0.4:
                kw["complevel"] = rng.choice([None, 0, 1, 9])
            if rng.random() < 0.5:
                kw["round"] = rng.choice([None, {v: rng.randint(0, 7) for v in rng.sample(COLS, 4)}])
            if rng.random() < 0.2:
                kw["format"] = "NETCDF4"
            op["kw"] = kw
        if k == "table":
            op["vars"] = vs
            op["map"] = {v: "m_" + v for v in vs + ["state", "turbine"] if rng.random() < 0.3}
            if rng.random() < 0.3:
                op["isel"] = True
        if k == "points":
            op["mean"] = rng.random() < 0.4
            op["pvars"] = rng.choice([None, ["WS"], ["WS", "AMB_TI"]])
            op["vary"] = rng.random() < 0.5
        if k == "layout":
            op["kind"] = rng.choice(["csv", "json", "xyh"])
            op["tcol"] = rng.random() < 0.4
        r = rng.random()
        if r < 0.3:
            f = rng.choice(["limit", "limit", "limit", "crash", "enospc", "eacces", "emfile", "nodir"])
            op["fault"] = dict(kind=f)
            if f in ("limit", "crash"):
                op["fault"]["bytes"] = int(math.exp(rng.uniform(0, math.log(20000)))) - 1
        return op

    def gen(self, rng, tier, i):
        w = worlds.gen_world(rng, nmax=9, frames=["rotor_wd"], algo="Downwind")
        w.pop("moving", None)
        w["n_turbines"] = min(w["n_turbines"], 4)
        for k in ("outputs", "ambient"):
            w.pop(k, None)
        p = common.gen_points(rng, w, nmax=4)
        p.pop("isel", None)
        p.pop("outputs", None)
        p["vary"] = False
        ops = [self.gen_op(rng, w) for _ in range(rng.randint(2, 7))]
        if rng.random() < 0.3:
            ops.insert(rng.randrange(len(ops)), copy.deepcopy(rng.choice(ops)))
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            points=p,
            ops=ops,
            fun=rng.random() < 0.15,
            data=rng.random() < 0.2,
            engine=seams.gen_engine(rng, n_states=worlds.true_n_states(w), n_points=p["n"]),
            platform=seams.gen_platform(rng),
        )

    # -- oracles ----------------------------------------------------------
    def read_csv(self, path, sep=","):
        with open(path, "rb") as f:
            b = f.read()
        n = os.path.basename(path)
        if n.endswith(".gz"):
            b = gzip.decompress(b)
        elif n.endswith(".bz2"):
            b = bz2.decompress(b)
        elif n.endswith(".zip"):
            with zipfile.ZipFile(io.BytesIO(b)) as z:
                b = z.read(z.namelist()[0])
        return list(csv.reader(io.StringIO(b.decode(), newline=""), delimiter=sep))

    def cell(self, got, want, d, na=""):
        """None, or what is wrong with the text of a cell"""
        if isinstance(want, (str, np.str_)):
            return None if got == str(want) else f"{got!r} instead of {want!r}"
        if isinstance(want, (np.datetime64, pd.Timestamp)):
            return None if pd.Timestamp(got) == pd.Timestamp(want) else f"{got!r} instead of {want!r}"
        want = float(want)
        if math.isnan(want):
            return None if got in (na, "nan") else f"{got!r} instead of nan"
        try:
            x = float(got)
        except ValueError:
            return f"{got!r} instead of {want!r}"
        tol = 1e-9 * abs(want) + (0 if d is None else 0.50001 * 10.0**-d)
        return None if abs(x - want) <= tol else f"{got!r} instead of {want!r}"

    def check_csv(self, path, index, cols, sep, na):
        """index: [(name, values)], cols: {name: (values, digits)}"""
        rows = self.read_csv(path, sep)
        head = [n for n, _ in index] + list(cols)
        if not rows or sorted(rows[0]) != sorted(head) or rows[0][: len(index)] != [n for n, _ in index]:
            return f"columns {rows[0] if rows else None} instead of {head}"
        n = len(index[0][1])
        if len(rows) != n + 1:
            return f"{len(rows) - 1} rows instead of {n}"
        at = {c: i for i, c in enumerate(rows[0])}
        for r, row in enumerate(rows[1:]):
            if len(row) != len(head):
                return f"row {r} has {len(row)} cells"
            for k, (c, v) in enumerate(index):
                e = self.cell(row[k], v[r], None, na)
                if e:
                    return f"row {r} index {c}: {e}"
            for c, (v, d) in cols.items():
                e = self.cell(row[at[c]], v[r], d, na)
                if e:
                    return f"row {r} column {c}: {e}"
        return None

    def check_nc(self, path, coords, dvars, rnd, free=()):
        """coords: {dim: values or None}, dvars: {name: (dims, values)}"""
        import xarray as xr

        with xr.open_dataset(path, engine="h5netcdf") as ds:
            ds = ds.load()
        # per state or per state and point, by definition
        ds = ds.drop_vars([v for v in free if v in ds])
        if sorted(map(str, ds.data_vars)) != sorted(dvars):
            return f"variables {sorted(map(str, ds.data_vars))} instead of {sorted(dvars)}"

        def dg(v):
            return None if rnd is None else rnd.get(v, digits(v))

        def diff(v, a, b):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return f"{v}: shape {b.shape} instead of {a.shape}"
            if a.dtype.kind in "OUSM":
                ok = [str(x) == str(y) if a.dtype.kind != "M" else pd.Timestamp(x) == pd.Timestamp(y) for x, y in zip(a.ravel(), b.ravel())]
                return None if all(ok) else f"{v}: {b.ravel().tolist()[:4]} instead of {a.ravel().tolist()[:4]}"
            d = dg(v)
            a, b = a.astype(float), b.astype(float)
            tol = 1e-12 * np.abs(a) + (0 if d is None else 0.50001 * 10.0**-d)
            with np.errstate(invalid="ignore"):
                bad = ~((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol))
            if bad.any():
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                return f"{v}{list(i)}: {b[i]!r} instead of {a[i]!r} ({int(bad.sum())} of {a.size} values)"
            return None

        for c, a in coords.items():
            if a is None:
                continue
            if c not in ds.coords:
                return f"coordinate {c} is missing"
            e = diff(c, a, ds[c].values)
            if e:
                return e
        for v, (dims, a) in dvars.items():
            if tuple(ds[v].dims) != tuple(dims):
                return f"{v}: dimensions {ds[v].dims} instead of {dims}"
            e = diff(v, a, ds[v].values)
            if e:
                return e
        return None

    # -- operations -------------------------------------------------------
    def make_op(self, op, X):
        """(call, file name, check(path))"""
        import foxes
        import foxes.constants as FC

        R = X["plain"]
        st, ns, nt = R["state"], R["n"], R["nt"]
        k = op["op"]
        kw = copy.deepcopy(op.get("kw", {}))
        use = []  # dicts and lists of the caller
        name = f"f{op['file']}"
        ix_s, ix_t = np.repeat(np.arange(ns), nt), np.tile(np.arange(nt), ns)

        def col(v):
            return R["vars"][v].reshape(ns * nt) if v != "tname" else np.array(R["names"], dtype=object)[ix_t]

        def fdig(c, v, fd):
            f = fd.get(v)
            if f is not None:
                return int(f[3:-2])
            return 3 if v in ("YAW", "AMB_YAW") else digits(v)

        if k in ("csv", "nc"):
            vs = op["vars"]
            if isinstance(vs, dict):
                vs = {a: b for a, b in vs.items() if a in R["vars"] or a in ("state", "turbine")}
            elif vs is not None:
                vs = [v for v in vs if v in R["vars"]]
            vars_ = copy.deepcopy(vs)
            use.append((vars_, copy.deepcopy(vars_)))
            sname = vs.get("state", "state") if isinstance(vs, dict) else "state"
            tname = vs.get("turbine", "turbine") if isinstance(vs, dict) else "turbine"
            if vs is None:
                cm = {v: v for v in R["vars"]}
                if not X["data"]:
                    cm["tname"] = "tname"
            elif isinstance(vs, dict):
                cm = {a: b for a, b in vs.items() if a not in ("state", "turbine")}
                if not cm:
                    cm = {v: v for v in R["vars"]}
                    if not X["data"]:
                        cm["tname"] = "tname"
            else:
                cm = {v: v for v in vs}
            if not cm:
                return None
            names = op["names"] and not X["data"]
        if k == "csv":
            fd = copy.deepcopy(op.get("fdict", {}))
            use.append((fd, copy.deepcopy(fd)))
            c2v = {b: a for a, b in cm.items() if a != b}
            use.append((c2v, copy.deepcopy(c2v)))
            if op.get("table") and len(cm) != 1:
                return None
            if op.get("table"):
                kw.pop("index_label", None)
            name = f"{name}.{op['fmt']}"
            lab = "index_label" in kw
            kw.pop("index_label", None)

            def call():
                X["writer"].write_csv(
                    name, variables=vars_, turbine_names=names, state_turbine_table=bool(op.get("table")), verbosity=0, format_dict=fd, format_col2var=c2v, **kw
                )

            sep, na = kw.get("sep", ","), kw.get("na_rep", "")

            def check(path):
                if op.get("table"):
                    ((v, c),) = cm.items()
                    a = R["vars"][v]
                    cols = {}
                    for t in range(nt):
                        cols[f"{c}_{R['names'][t]}" if names else f"{c}_T{t:04d}"] = (a[:, t], fdig(c, v, fd))
                    return self.check_csv(path, [(sname, st)], cols, sep, na)
                index = [(sname, st[ix_s])]
                cols = {c: (col(v), fdig(c, v, fd)) for v, c in cm.items()}
                if names:
                    tix = "tname" if tname == "turbine" else tname
                    index.append((tix, np.array(R["names"], dtype=object)[ix_t]))
                    cols.pop("tname", None)
                    rows = self.read_csv(path, sep)
                    if rows and "turbine" in rows[0]:
                        cols["turbine"] = (ix_t, None)
                    if tname != "turbine" and rows and "tname" in rows[0]:
                        cols["tname"] = (col("tname"), None)
                else:
                    index.append((tname, ix_t))
                return self.check_csv(path, index, cols, sep, na)

        elif k == "nc":
            name += ".nc"
            use.append((kw, copy.deepcopy(kw)))

            def call():
                X["writer"].write_nc(name, variables=vars_, turbine_names=names, verbosity=0, **kw)

            def check(path):
                co = {sname: st, tname: R["names"] if names else None}
                dv = {c: ((sname, tname), col(v).reshape(ns, nt)) for v, c in cm.items()}
                return self.check_nc(path, co, dv, kw.get("round", {}))

        elif k == "table":
            name += ".nc"
            vs = [v for v in op["vars"] if v in R["vars"]]
            if not vs:
                return None
            m = dict(op["map"])
            use += [(vs, list(vs)), (m, dict(m)), (kw, copy.deepcopy(kw))]
            sn, tn = m.get("state", "state"), m.get("turbine", "turbine")
            isel = {sn: [ns - 1, 0]} if op.get("isel") else None
            pick = [ns - 1, 0] if op.get("isel") else list(range(ns))
            want = {m.get(v, v): ((sn, tn), R["vars"][v][pick]) for v in vs}
            if "weight" in vs and X["wdims"] == ("state",):
                want[m.get("weight", "weight")] = ((sn,), R["vars"]["weight"][pick, 0])

            def call():
                ds = X["table"].get_dataset(vs, name_map=m, to_file=name, isel=isel, verbosity=0, **kw)
                d = refs.compare(dict(vars=want, coords={}, sizes={}), refs.to_plain(ds), 0, 0, coords=False)
                if d:
                    X["bad"] = "returned table: " + common.short(d)

            def check(path):
                return self.check_nc(path, {sn: st[pick], tn: np.arange(nt)}, want, kw.get("round", {}))

        elif k == "raw":
            name += ".nc"
            use.append((kw, copy.deepcopy(kw)))

            def call():
                foxes.utils.write_nc(X["fres"], X["out"].get_fpath(name), verbosity=0, **kw)

            def check(path):
                co = {"state": st}
                dv = {v: (("state", "turbine"), a) for v, a in R["vars"].items()}
                dv["tname"] = (("turbine",), R["names"])
                if X["wdims"] == ("state",):
                    dv["weight"] = (("state",), R["vars"]["weight"][:, 0])
                return self.check_nc(path, co, dv, kw.get("round", {}))

        elif k == "frame":
            vs = [v for v in op["vars"] if v in R["vars"]]
            if not vs:
                return None
            name = f"{name}.{op['fmt']}"
            fd = copy.deepcopy(op.get("fdict", {}))
            cn = {v: ("q_" + v if op["col2var"] else v) for v in vs}
            c2v = {c: v for v, c in cn.items() if c != v}
            use += [(fd, copy.deepcopy(fd)), (c2v, dict(c2v))]
            kw.pop("index_label", None)
            df = pd.DataFrame({cn[v]: R["vars"][v][:, 0].copy() for v in vs}, index=pd.Index(np.arange(ns) * 2, name="no"))
            df0 = df.copy(deep=True)

            def call():
                X["out"].write(name, df, format_col2var=c2v, format_dict=fd, **kw)
                if not df.equals(df0):
                    X["bad"] = "the data frame was modified"

            def check(path):
                return self.check_csv(
                    path, [("no", np.arange(ns) * 2)], {cn[v]: (R["vars"][v][:, 0], fdig(cn[v], v, fd)) for v in vs}, kw.get("sep", ","), kw.get("na_rep", "")
                )

        elif k == "points":
            name += ".nc"
            pl = X["points"]
            pts = X["pts"][0].copy() if not op["vary"] else X["pts"].copy()
            vs = list(op["pvars"]) if op["pvars"] else None
            if vs is not None and any(v not in pl for v in vs):
                return None
            use.append((kw, copy.deepcopy(kw)))
            pts0 = pts.copy()
            if op["mean"] and X["w0"] is None:
                return None

            def call():
                with seams.make_engine(X["engine"], X["plat"]):
                    X["pcalc"].calculate(pts, states_mean=op["mean"], to_file=name, write_vars=vs, write_pars=dict(kw, verbosity=0))
                if not np.array_equal(pts, pts0):
                    X["bad"] = "the points were modified"

            def check(path):
                dv = {}
                for v, (dims, a) in pl.items():
                    if (vs is None or v in vs) and (dims == ("state", "point") or not op["mean"]):
                        dv[v] = (dims, a)
                P = {c: (("state", "point"), X["pts"][..., i]) for i, c in enumerate("xyz")}
                if op["mean"]:
                    dv = {v: (("point",), np.einsum("s,sp->p", X["w0"], a)) for v, (_, a) in dv.items()}
                    P = {c: (("point",), np.einsum("s,sp->p", X["w0"], a)) for c, (_, a) in P.items()}
                if not op["vary"]:
                    P = {c: (("point",), X["pts"][0, :, i]) for i, c in enumerate("xyz")}
                dv.update(P)
                dv.pop("weight", None)
                return self.check_nc(path, {} if op["mean"] else {"state": st}, dv, kw.get("round", {}), free=["weight"])

        else:
            name = f"{name}.{op['kind']}"
            farm = X["farm"]
            T = X["turbines"]

            def call():
                if op["kind"] == "csv":
                    if op["tcol"]:
                        X["layout"].write_csv(name, type_col="tt", algo=X["algo"])
                    else:
                        X["layout"].write_csv(name)
                elif op["kind"] == "json":
                    X["layout"].write_json(name)
                else:
                    X["layout"].write_xyh(name)

            def check(path):
                if op["kind"] == "csv":
                    cols = dict(
                        name=([t["name"] for t in T], None),
                        x=([t["x"] for t in T], 4),
                        y=([t["y"] for t in T], 4),
                        h=([np.nan if t["h"] is None else t["h"] for t in T], 4),
                        D=([np.nan if t["D"] is None else t["D"] for t in T], None),
                    )
                    if op["tcol"]:
                        cols["tt"] = ([t["type"] for t in T], None)
                    return self.check_csv(path, [("index", np.arange(nt))], cols, ",", "")
                if op["kind"] == "json":
                    with open(path) as f:
                        d = json.load(f)
                    want = {farm.name: {t["name"]: dict(id=t["index"], name=t["name"], UTMX=t["x"], UTMY=t["y"]) for t in T}}
                    return None if d == want else f"{d} instead of {want}"
                a = np.loadtxt(path, ndmin=2)
                b = np.array([[t["x"], t["y"], np.nan if t["h"] is None else t["h"]] for t in T])
                return None if a.shape == b.shape and np.allclose(a, b, rtol=1e-12, equal_nan=True) else f"{a.tolist()} instead of {b.tolist()}"

        return call, name, check, use

    def run(self, spec, ctx):
        import foxes
        import foxes.constants as FC
        import foxes.output as fo

        w, p = spec["world"], spec["points"]
        sim = ctx.sim()
        plat = seams.Platform(sim, dict(spec["platform"], fork=False))
        root = os.path.realpath(os.path.join(ctx.scratch, "out"))
        W = worlds.World(w, ctx.scratch)
        X = dict(engine=spec["engine"], plat=plat, data=spec["data"])

        def start():
            with common.single():
                a = W.algo()
                r = common.calc_farm_with(a, w)
                X["pts"] = common.ref_points_array(w, p)
                pr = a.calc_points(r, X["pts"].copy())
            X.update(algo=a, fres=r, points=refs.to_plain(pr)["vars"])

        out = common.attempt(start)
        if not out.ok:
            ctx.skip("start: " + out.show()[:80])
        fr = refs.to_plain(X["fres"])
        vs = {v: a for v, (d, a) in fr["vars"].items() if d == ("state", "turbine") and a.dtype.kind == "f"}
        wd = fr["vars"].get("weight", (("state", "turbine"), None))
        if wd[0] == ("state",):
            vs["weight"] = np.repeat(wd[1][:, None], fr["sizes"]["turbine"], axis=1)
        if any(d not in (("state", "turbine"), ("turbine",)) for v, (d, _) in fr["vars"].items() if v != "weight"):
            ctx.skip(f"other dimensions {set((v,d) for v,(d, _) in fr['vars'].items() if len(d)!=2)}")
        rest = [v for v, (d, a) in fr["vars"].items() if v not in vs and v != FC.TNAME]
        X["wdims"] = wd[0]
        if rest:
            X["fres"] = X["fres"].drop_vars(rest)
            fr = refs.to_plain(X["fres"])
        n, nt = fr["sizes"]["state"], fr["sizes"]["turbine"]
        if len(set(map(str, fr["coords"]["state"]))) < n:
            ctx.skip("states without unique index")
        X["plain"] = dict(vars=vs, state=fr["coords"]["state"], n=n, nt=nt, names=[str(x) for x in fr["vars"][FC.TNAME][1]])
        X["w0"] = vs["weight"][:, 0] if "weight" in vs else None
        farm = X["farm"] = W.farm
        types = X["algo"].farm_controller.turbine_types
        X["turbines"] = [
            dict(name=t.name, x=float(t.xy[0]), y=float(t.xy[1]), h=t.H, D=t.D, index=int(t.index), type=types[i].name) for i, t in enumerate(farm.turbines)
        ]
        okw = dict(out_dir=root)
        if spec["fun"]:
            okw["out_fname_fun"] = lambda f: f.with_name("pre_" + f.name)
        if spec["data"]:
            df = pd.DataFrame(
                {v: a.reshape(n * nt) for v, a in vs.items()},
                index=pd.MultiIndex.from_product([fr["coords"]["state"], range(nt)], names=["state", "turbine"]),
            )
            X["writer"] = fo.ResultsWriter(data=df, **okw)
        else:
            X["writer"] = fo.ResultsWriter(X["fres"], **okw)
        X["table"] = fo.StateTurbineTable(X["fres"], **okw)
        X["out"] = fo.Output(**okw)
        X["pcalc"] = fo.PointCalculator(X["algo"], X["fres"], **okw)
        X["layout"] = fo.FarmLayoutOutput(farm, **okw)
        files = {}
        used = set()

        def content():
            return {f: open(os.path.join(root, f), "rb").read() for f in sorted(os.listdir(root))} if os.path.isdir(root) else {}

        def intact(what):
            d = refs.compare(fr, refs.to_plain(X["fres"]), 0, 0)
            if d:
                ctx.violation("results", f"{what} modified the results: " + common.short(d))
            if spec["data"]:
                for v, a in vs.items():
                    if v not in df.columns or not np.array_equal(df[v].to_numpy(), a.reshape(-1), equal_nan=True) or list(df.columns) != list(vs):
                        ctx.violation("results", f"{what} modified the given data frame: {list(df.columns)}")

        with seams.installed(plat):
            for i, op in enumerate(spec["ops"]):
                m = self.make_op(op, X)
                if m is None:
                    continue
                call, name, check, use = m
                fname = "pre_" + name if spec["fun"] else name
                path = os.path.join(root, fname)
                what = f"write {i} {({k: v for k, v in op.items() if v not in (None, False)})}" + (f" after {[o['op'] for o in spec['ops'][:i]]}" if i else "")
                os.makedirs(root, exist_ok=True)
                before = content()
                f = op.get("fault")
                died = False
                if f:
                    sim.ev("FAULT", "write", f["kind"], f.get("bytes", ""))
                    sim.fired["write/" + f["kind"]] += 1
                    k = f["kind"]
                    if k == "crash":
                        died = True
                        pid = os.fork()
                        if pid == 0:
                            try:
                                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                                resource.setrlimit(resource.RLIMIT_FSIZE, (f["bytes"], f["bytes"]))
                                call()
                            except BaseException:
                                os._exit(3)
                            os._exit(0)
                        _, status = os.waitpid(pid, 0)
                        res = None
                        done = status == 0
                    elif k == "nodir":
                        shutil.rmtree(root)
                        before = {}
                        res = common.attempt(call)
                    elif k == "limit":
                        with Limit(f["bytes"]).on():
                            res = common.attempt(call)
                    else:
                        with refuse(root, k):
                            res = common.attempt(call)
                else:
                    res = common.attempt(call)
                seams.reset_global_engine()
                if res is not None:
                    done = res.ok
                    if not done and not f:
                        ctx.violation("raises", f"{what}: {res.show()}")
                sim.ev("write", i, op["op"], int(done))
                intact(what)
                for a, b in use:
                    if not _same(a, b):
                        ctx.violation("arguments", f"{what} modified an argument: {a} instead of {b}")
                if X.pop("bad", None):
                    ctx.violation("wrong", what)
                os.makedirs(root, exist_ok=True)
                after = content()
                for g, b in before.items():
                    if g != fname and after.get(g) != b:
                        ctx.violation("other_file", f"{what}: file {g} was changed or removed")
                extra = [g for g in after if g not in before and g != fname]
                if extra and not (died or not done):
                    ctx.violation("other_file", f"{what}: additional files {extra}")
                for g in extra:
                    os.remove(os.path.join(root, g))
                if done:
                    self.judge(ctx, path, check, f"{what} ({'with fault' if f else 'no fault'})")
                ctx.evals += 1
                ctx.count("op_" + op["op"])
                if f:
                    ctx.count("failed" if not done else "written_with_fault")
                if f and not done:
                    # the disk is fine again
                    res = common.attempt(call)
                    seams.reset_global_engine()
                    if not res.ok:
                        ctx.violation("again_raises", f"{what}, again: {res.show()}")
                    self.judge(ctx, path, check, f"{what}, again")
                    intact(what)
                if f or op["op"] in used:
                    ctx.count("nontrivial")
                used.add(op["op"])

    def judge(self, ctx, path, check, what):
        if not os.path.exists(path):
            ctx.violation("no_file", f"{what}: returned, but there is no file")
        out = common.attempt(check, path)
        if not out.ok:
            ctx.violation("unreadable", f"{what}: returned, but the file is not readable: {out.show()}")
        if out.res:
            ctx.violation("content", f"{what}: {out.res}")


def _same(a, b):
    return type(a) is type(b) and a == b


CHECK = C13()
