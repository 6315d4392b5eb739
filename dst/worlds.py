"""
World specs: JSON descriptions of a wind farm, its inflow, models and
algorithm, plus their construction through the public foxes API.

All numbers follow from integers in the spec through numpy generators that are
private to this module, hence are not affected by the simulated platform.
"""

import os
import warnings

import numpy as np
import pandas as pd

warnings.filterwarnings("ignore")

STATE_KINDS = [
    "timeseries",
    "timeseries",
    "table",
    "abl",
    "shear",
    "scan",
    "single",
    "tab",
    "tabfile",
    "multiheight",
    "multiheight_nc",
    "opf",
    "opf_mh",
    "field",
    "fieldfile",
    "wrg",
]
# states kinds with a time index
TIME_KINDS = ["timeseries", "multiheight_ts", "field"]

UNIFORM_KINDS = ["timeseries", "table", "abl", "shear", "multiheight", "multiheight_nc", "multiheight_ts"]

WIND_WAKES = [
    "Jensen_linear_k007",
    "Jensen_max_k0075",
    "Jensen_quadratic_loc_k004",
    "Bastankhah2014_linear_k004",
    "Bastankhah2014_linear_loc_lim_ka02",
    "Bastankhah2014B_quadratic_ambka04",
    "Bastankhah2014_product_ka02",
    "Bastankhah025_cubic_k003",
    "Bastankhah025B_max_amb_ka04",
    "Bastankhah2016_linear_lim_k004",
    "Bastankhah2016_linear_ka02",
    "TurbOPark_quadratic_amb_ka04",
    "TurbOParkB_linear_k004",
    "TurbOParkIX_linear_k004_dx50",
]
TI_WAKES = [
    None,
    None,
    None,
    "CrespoHernandez_quadratic_k004",
    "CrespoHernandez_max_ka02",
    "IECTI2019_max",
    "IECTI2019k_linear_k004",
    "IECTI2005_quadratic",
]
INDUCTIONS = [None] * 8 + [
    "RHB",
    "Rathmann",
    "SelfSimilar",
    "SelfSimilar2020",
    "VortexSheet",
]
ROTORS = ["centre", "centre", "centre", "grid4", "grid9", "level3", "level5_raw", "grid4_raw"]
PWAKES = [None, None, None, "rotor_points", "centre", "axiwake4", "grid9", "top_hat"]
GROUND = [None] * 8 + ["ground_mirror", "blh_mirror_h500"]
FRAMES_STEADY = ["rotor_wd"] * 4 + [
    "rotor_wd_farmo",
    "yawed_k004",
    "streamlines_short",
    "streamlines_500",
]
FRAMES_DYN = ["dyn_wakes", "dyn_wakes_4km", "timelines", "timelines_1min", "dyn_wakes", "dyn_wakes_2km"]
TTYPES = ["NREL5MW", "DTU10MW", "IEA15MW", "IWT7.5MW"]
CUSTOM_TTYPES = ["lookup_type", "pct2_type"]
TMODELS = [
    [],
    [],
    [],
    ["kTI_02"],
    ["kTI_amb_04"],
    ["kTI_02_001"],
    ["setmaxp", "PMask"],
    ["hubh_data"],
    ["sector"],
    ["setyawm", "yawm2yaw"],
    ["lookup_k"],
    ["calc_k"],
    ["setk_once"],
]


# models that may act in some states only
PART = ["PMask", "sector", "yawm2yaw", "calc_k"]


def gen_world(
    rng,
    kinds=None,
    frames=None,
    algo="Downwind",
    nmin=2,
    nmax=14,
    tmax=6,
    extra=True,
    tmodels=True,
):
    """A random world spec"""
    w = dict(
        algo=algo,
        seed=rng.randrange(1 << 30),
        states=rng.choice(kinds or STATE_KINDS),
        n_states=rng.randint(nmin, nmax),
        n_turbines=rng.choice([1, 2, 2, 3, 3, 4, 5, tmax]),
        layout=rng.choice(["random", "random", "row", "grid", "dense"]),
        ttype=rng.choice(TTYPES),
        mixed=rng.random() < 0.15,
        wakes=[rng.choice(WIND_WAKES)],
        frame=rng.choice(frames or FRAMES_STEADY),
        rotor="centre",
        pwake=None,
        ground=None,
        tmodels=[],
        uniform_h=rng.random() < 0.7,
        weights=rng.random() < 0.3,
    )
    if extra:
        ti = rng.choice(TI_WAKES)
        if ti is not None:
            w["wakes"].append(ti)
        ind = rng.choice(INDUCTIONS)
        if ind is not None:
            w["wakes"].append(ind)
        w["rotor"] = rng.choice(ROTORS)
        w["pwake"] = rng.choice(PWAKES)
        w["ground"] = rng.choice(GROUND)
    if tmodels:
        w["tmodels"] = list(rng.choice(TMODELS))
        if rng.random() < 0.08:
            w["ttype"] = rng.choice(CUSTOM_TTYPES)
    if rng.random() < 0.05:
        w["wakes"] = []
    if rng.random() < 0.1:
        w["ambient"] = True
    if rng.random() < 0.2:
        w["index"] = rng.choice(["int", "offset", "str", "float"])
    if rng.random() < 0.3:
        w["irregular"] = True
    if rng.random() < 0.08 and w["states"] in UNIFORM_KINDS and w["frame"] in FRAMES_STEADY:
        w["moving"] = True
    if w["states"] == "fieldfile":
        w["load_mode"] = rng.choice(["preload", "lazy", "fly"])
        w["n_files"] = rng.choice([1, 2, 3, 4])
        if rng.random() < 0.25:
            w["nans"] = True
    _constrain(w)
    return w


def _constrain(w):
    """Keeps combinations that foxes supports"""
    if any("_ka" in x or "_ambka" in x for x in w["wakes"]) is False:
        pass
    # the k-variable based models need no turbine model; plain kTI turbine
    # models are only used by wakes without explicit k, they are harmless
    if w["pwake"] == "top_hat" and not all(
        x.startswith(("Jensen", "Crespo", "IEC")) for x in w["wakes"]
    ):
        w["pwake"] = None
    if w["pwake"] and w["pwake"].startswith("axiwake") and any(
        x in INDUCTIONS or x.startswith(("Bastankhah2016",)) for x in w["wakes"]
    ):
        w["pwake"] = None
    if w["frame"].startswith(("yawed",)) and not any(
        t == "setyawm" for t in w["tmodels"]
    ):
        w["tmodels"] = ["setyawm", "yawm2yaw"]
    if any(x.startswith("Bastankhah2016") for x in w["wakes"]) and not any(
        t == "setyawm" for t in w["tmodels"]
    ):
        w["tmodels"] = ["setyawm", "yawm2yaw"]
    if w["algo"] == "Iterative":
        w.pop("ambient", None)
    if w["frame"].startswith("timelines") and "TurbOParkIX" in str(w["wakes"]):
        # long integrals along centrelines are slow
        w["wakes"] = ["TurbOParkIX_linear_k004_dx2000"] + w["wakes"][1:]
        w["n_turbines"], w["n_states"] = min(w["n_turbines"], 3), min(w["n_states"], 6)
    elif w["frame"] in FRAMES_DYN and "TurbOParkIX" in str(w["wakes"]):
        w["wakes"] = ["TurbOPark_quadratic_amb_ka04"] + w["wakes"][1:]
    if w["algo"] == "Downwind":
        w["wakes"] = [x for x in w["wakes"] if x not in INDUCTIONS]
    if w["states"] == "single":
        w["n_states"] = 1
    if w["frame"] in FRAMES_DYN or w["frame"].startswith("seq_dyn"):
        if w["states"] not in TIME_KINDS:
            w["states"] = "timeseries"
        w["n_states"] = max(2, w["n_states"])
        w.pop("index", None)
        w["weights"] = False
    if w["frame"].startswith("dyn_wakes") and w["algo"] == "Iterative":
        # known finding KF4: wakes advance one chunk per iteration, and the
        # default limit 2 + n_turbines**2 does not know the number of chunks
        w["max_it"] = 200
    if w["frame"].startswith("timelines"):
        w["states"] = "timeseries"
    if w["states"].startswith("opf"):
        w.pop("index", None)
    if "TurbOParkIX" in str(w["wakes"]) and not any(
        x.startswith(("Crespo", "IEC")) for x in w["wakes"]
    ):
        w["wakes"].append("CrespoHernandez_max_ka02")
    if w["states"] == "wrg":
        # WRGStates need WS in tdata and finite points
        if w["frame"].startswith("streamlines"):
            w["frame"] = "rotor_wd"
        if "TurbOParkIX" in str(w["wakes"]):
            w["wakes"] = ["TurbOPark_quadratic_amb_ka04"] + w["wakes"][1:]
    if w["ground"] and w["states"].startswith(("multiheight", "opf_mh")):
        w["ground"] = None
    if w["frame"].startswith("streamlines"):
        # costly
        w.pop("load_mode", None)
        it = w["algo"] == "Iterative"
        w["n_states"] = min(w["n_states"], 5 if it else 14)
        w["n_turbines"] = min(w["n_turbines"], 3 if it else 6)
        if w["states"].startswith("opf"):
            w["frame"] = "streamlines_short"
            w["n_states"] = min(w["n_states"], 3)
            w["n_turbines"] = min(w["n_turbines"], 2 if it else 3)
    if w["ttype"] in CUSTOM_TTYPES or w["rotor"].endswith("_raw"):
        w["mixed"] = False


# -- construction -------------------------------------------------------------
GIVEN = None


# replaces data in memory by files, see checks/c12.py
SOURCE = None


def given(x):
    """Keeps track of the inputs that are handed to foxes"""
    if SOURCE is not None:
        x = SOURCE(x)
    if GIVEN is not None:
        GIVEN.append(x)
    return x


def source_kwargs():
    return SOURCE.kwargs() if SOURCE is not None else {}


def _times(n, w=None):
    if w and w.get("irregular"):
        dt = np.random.default_rng([w["seed"], 8]).choice([30, 60, 60, 90, 120], n)
        return pd.Timestamp("2023-05-01 00:10") + pd.to_timedelta(np.cumsum(dt), unit="s")
    return pd.date_range("2023-05-01 00:10", periods=n, freq="1min")


def _index(w, n, rng):
    k = w.get("index")
    if k == "int":
        return np.arange(n)
    if k == "offset":
        return 100 + 7 * np.arange(n)
    if k == "str":
        return np.array([f"s{i:04d}" for i in rng.permutation(n)])
    if k == "float":
        return 0.5 + 0.25 * np.arange(n)
    return None


def pick_states(w, a):
    """Applies the order or selection of states that checks/c18.py requests"""
    ps = w.get("pick_s")
    if ps is None:
        return a
    if isinstance(a, pd.DataFrame):
        return a.iloc[ps]
    if hasattr(a, "data_vars"):
        return a.isel({next(d for d in a.dims if d in ("state", "Time")): ps})
    return a[ps]


def pick(w, a):
    """Applies the order of states and turbines to (state, turbine) data"""
    a = pick_states(w, a)
    return a if w.get("pick_t") is None else a[:, w["pick_t"]]


def make_states(w, scratch=None):
    import foxes
    import foxes.constants as FC
    import foxes.variables as FV
    import xarray as xr

    S = foxes.input.states
    n = w["n_states"]
    rng = np.random.default_rng([w["seed"], 1])
    kind = w["states"]
    smooth = w.get("smooth") or w["frame"] in FRAMES_DYN or w["frame"].startswith("seq_dyn")
    if smooth or kind.startswith("opf"):
        wd = (rng.uniform(0, 360) + np.cumsum(rng.uniform(-4, 4, n))) % 360
        ws = 7 + np.abs(np.cumsum(rng.uniform(-0.4, 0.4, n)))
    else:
        wd = rng.uniform(0, 360, n)
        ws = rng.uniform(4.5, 16.0, n)
    ti = rng.uniform(0.03, 0.15, n)
    if w.get("steady"):
        wd, ws, ti = (np.full(n, x[0]) for x in (wd, ws, ti))
    base = {"WSc": ws, "WDc": wd, "TIc": ti}
    v2c = {FV.WS: "WSc", FV.WD: "WDc", FV.TI: "TIc"}
    ovars = [FV.WS, FV.WD, FV.TI, FV.RHO]
    fixed = {FV.RHO: 1.225}
    idx = _index(w, n, rng)
    weight = rng.uniform(0.5, 2.0, n)
    weight /= weight.sum()

    if kind in ("timeseries", "table", "abl", "shear"):
        df = pd.DataFrame(base)
        if kind == "timeseries":
            df.index = _times(n, w) if idx is None else pd.Index(idx)
        elif idx is not None:
            df.index = pd.Index(idx)
        df.index.name = "state"
        profs = {}
        if kind == "abl":
            df["mol"] = rng.choice([0.0, 300.0, -300.0, 800.0, -50.0], n)
            v2c = {**v2c, FV.MOL: "mol"}
            fixed = {**fixed, FV.Z0: 0.05, FV.H: 100.0}
            ovars = [FV.WS, FV.WD, FV.TI, FV.RHO]
            profs = {FV.WS: {"type": "ABLLogWsProfile", "ws_ref": FV.WS}}
            profs = {FV.WS: "ABLLogWsProfile"}
        elif kind == "shear":
            df["alpha"] = rng.uniform(0.05, 0.3, n)
            v2c = {**v2c, FV.SHEAR: "alpha"}
            fixed = {**fixed, FV.H: 100.0}
            profs = {FV.WS: "ShearedProfile"}
        if w.get("weights"):
            df["wgt"] = weight
            v2c = {**v2c, FV.WEIGHT: "wgt"}
        df = pick_states(w, df)
        cls = S.Timeseries if kind == "timeseries" else S.StatesTable
        return cls(
            given(df),
            output_vars=given(ovars),
            var2col=given(v2c),
            fixed_vars=given(fixed),
            profiles=given(profs),
            **source_kwargs(),
        )
    if kind == "scan":
        nw = max(1, min(n, 3))
        nd = max(1, n // nw)
        return S.ScanStates(
            given(
                {
                    FV.WS: ws[:nw],
                    FV.WD: wd[:nd],
                    FV.TI: [0.08],
                    FV.RHO: [1.225],
                }
            )
        )
    if kind == "single":
        return S.SingleStateStates(
            ws=float(ws[0]), wd=float(wd[0]), ti=float(ti[0]), rho=1.225
        )
    if kind in ("tab", "tabfile"):
        ns = 4
        nw = max(2, n // ns)
        wsb = np.arange(4, 4 + nw, dtype=float) * 1.0
        fr = rng.uniform(1, 100, (nw, ns))
        sf = rng.uniform(10, 30, ns)
        if kind == "tab":
            ds = xr.Dataset(
                coords={"ws": wsb, "wd": np.arange(0, 360.0, 360 / ns)},
                data_vars={
                    "wd_freq": (("wd",), 100 * sf / sf.sum()),
                    "ws_freq": (
                        ("ws", "wd"),
                        1000 * fr / fr.sum(axis=0)[None, :],
                    ),
                },
                attrs=dict(
                    description="x",
                    latitude=0.0,
                    longitude=0.0,
                    height=100.0,
                    factor_ws=1.0,
                    shift_wd=0.0,
                ),
            )
        else:
            ds = os.path.join(scratch, f"w{w['seed']}.tab")
            with open(ds, "w") as f:
                f.write("world\n 55.0 14.0 100.0\n")
                f.write(f" {ns} 1.00 0.00\n")
                f.write(" ".join(f"{x:.6f}" for x in sf) + "\n")
                for i in range(nw):
                    f.write(
                        f"{wsb[i]:.3f} " + " ".join(f"{x:.6f}" for x in fr[i]) + "\n"
                    )
        return S.TabStates(
            given(ds),
            output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
            fixed_vars={FV.TI: 0.07, FV.RHO: 1.225},
        )
    if kind in ("multiheight", "multiheight_ts"):
        hs = [1, 60, 150, 400]
        d = {}
        for i, h in enumerate(hs):
            d[f"WS-{h}"] = ws * (1 + 0.04 * i)
            d[f"WD-{h}"] = (wd + 3.0 * i) % 360
            d[f"TI-{h}"] = ti * (1 - 0.05 * i)
        df = pd.DataFrame(d)
        if kind == "multiheight_ts":
            df.index = _times(n, w)
            cls = S.MultiHeightTimeseries
        else:
            if idx is not None:
                df.index = pd.Index(idx)
            cls = S.MultiHeightStates
        df = pick_states(w, df)
        return cls(
            given(df),
            output_vars=given([FV.WS, FV.WD, FV.TI, FV.RHO]),
            heights=given(hs),
            fixed_vars=given({FV.RHO: 1.225}),
            **source_kwargs(),
        )
    if kind == "multiheight_nc":
        hs = np.array([1.0, 60.0, 150.0, 400.0])
        f = np.arange(4)
        ds = xr.Dataset(
            coords={FC.STATE: np.arange(n), FV.H: hs},
            data_vars={
                FV.WS: ((FC.STATE, FV.H), ws[:, None] * (1 + 0.04 * f[None])),
                FV.WD: ((FC.STATE, FV.H), (wd[:, None] + 3.0 * f[None]) % 360),
                FV.TI: ((FC.STATE, FV.H), ti[:, None] * (1 - 0.05 * f[None])),
            },
        )
        ds = pick_states(w, ds)
        return S.MultiHeightNCStates(
            given(ds),
            output_vars=given([FV.WS, FV.WD, FV.TI, FV.RHO]),
            fixed_vars=given({FV.RHO: 1.225}),
            format_times_func=None,
            **source_kwargs(),
        )
    if kind in ("opf", "opf_mh"):
        if kind == "opf":
            df = pd.DataFrame(base, index=_times(n, w))
            df.index.name = "Time"
            return S.OnePointFlowTimeseries(
                [0.0, 0.0, 100.0],
                data_source=given(df),
                output_vars=given(ovars),
                var2col=given(v2c),
                fixed_vars=given(fixed),
            )
        hs = [1, 60, 150, 400]
        d = {}
        for i, h in enumerate(hs):
            d[f"WS-{h}"] = ws * (1 + 0.04 * i)
            d[f"WD-{h}"] = (wd + 1.0 * i) % 360
            d[f"TI-{h}"] = ti * (1 - 0.05 * i)
        df = pd.DataFrame(d, index=_times(n, w))
        df.index.name = "Time"
        return S.OnePointFlowMultiHeightTimeseries(
            [0.0, 0.0],
            data_source=given(df),
            output_vars=given(ovars),
            heights=given(hs),
            fixed_vars=given(fixed),
            tl_heights=given([1.0, 60.0, 150.0, 400.0]),
        )
    if kind in ("field", "fieldfile"):
        return make_field(w, scratch, wd, ws, ti)
    if kind == "wrg":
        return make_wrg(w, scratch, rng)
    raise ValueError(kind)


def field_dataset(w, wd, ws, ti):
    import xarray as xr

    n = w["n_states"]
    rng = np.random.default_rng([w["seed"], 2])
    hov = 0 if w.get("uniform_h", True) else 1
    x = np.linspace(-6000.0, 9000.0, 4)
    y = np.linspace(-6000.0, 9000.0, 5)
    sm = 0.6 * rng.uniform(-1, 1, (n, len(y), len(x)))
    WS = ws[:, None, None] + sm
    WD = (wd[:, None, None] + 4 * rng.uniform(-1, 1, (n, len(y), len(x)))) % 360
    TI = ti[:, None, None] + 0 * sm
    if hov:
        h = np.array([10.0, 100.0, 300.0])
        f = np.array([0.9, 1.0, 1.1])
        WS = WS[:, None] * f[None, :, None, None]
        WD = np.repeat(WD[:, None], 3, axis=1)
        TI = np.repeat(TI[:, None], 3, axis=1)
        dims = ("Time", "height", "UTMY", "UTMX")
    else:
        h = None
        dims = ("Time", "UTMY", "UTMX")
    coords = {"Time": _times(n, w).values, "UTMY": y, "UTMX": x}
    if h is not None:
        coords["height"] = h
    ds = xr.Dataset(
        coords=coords,
        data_vars={"WS": (dims, WS), "WD": (dims, WD), "TI": (dims, TI)},
    )
    return ds


def field_source(w, wd, ws, ti):
    """The data in the form that is written to files"""
    import xarray as xr

    ds = field_dataset(w, wd, ws, ti)
    o = w.get("fopts") or {}
    n = w["n_states"]
    rng = np.random.default_rng([w["seed"], 6])
    pad = o.get("pad")
    if pad:
        # states before and after those that are selected
        t0 = ds["Time"].values
        dt = np.timedelta64(1, "m")
        parts = []
        for k, ts in ((pad[0], t0[0] - dt * np.arange(pad[0], 0, -1)), (pad[1], t0[-1] + dt * np.arange(1, pad[1] + 1))):
            x = ds.isel(Time=rng.integers(0, n, k)).assign_coords(Time=ts)
            parts.append(x * rng.uniform(0.7, 0.9))
        ds = xr.concat([parts[0], ds, parts[1]], dim="Time")
    if w.get("nans"):
        # missing data, e.g. at the first and last nodes
        m = np.random.default_rng([w["seed"], 11]).random((ds.sizes["Time"], ds.sizes["UTMY"], ds.sizes["UTMX"])) < 0.2
        # some value for each state (a state without any is filled from its neighbors in the same chunk)
        m[:, 2, 2] = m[:, 0, 0] = False
        for v in ("WS", "WD", "TI"):
            mm = m[:, None] if "height" in ds[v].dims else m
            ds[v] = ds[v].where(~np.broadcast_to(mm, ds[v].shape))
    if o.get("weights"):
        wg = rng.uniform(0.5, 2.0, ds.sizes["Time"])
        ds["wgt"] = (("Time",), wg / wg.sum())
    if o.get("order") == "xy":
        ds = ds.transpose(..., "UTMX", "UTMY")
    if o.get("solo"):
        # no dependence on the place
        ds["TI"] = ds["TI"].isel({d: 0 for d in ds["TI"].dims if d != "Time"}, drop=True)
    return ds


def make_field(w, scratch, wd, ws, ti):
    import foxes
    import foxes.variables as FV

    o = w.get("fopts") or {}
    ds = pick_states(w, field_source(w, wd, ws, ti))
    n = ds.sizes["Time"]
    nf = max(1, min(w.get("n_files", 3), n))
    d = os.path.join(scratch, f"nc{w['seed']}" + ("" if w.get("pick_s") is None else "p"))
    os.makedirs(d, exist_ok=True)
    cuts = np.linspace(0, n, nf + 1).astype(int)
    for i in range(nf):
        p = os.path.join(d, f"part_{i:03d}.nc")
        if not os.path.exists(p):
            tmp = p + ".tmp"
            ds.isel(Time=slice(cuts[i], cuts[i + 1])).to_netcdf(tmp)
            os.replace(tmp, p)
    mode = w.get("load_mode", "preload")
    kw = {}
    if o.get("pad"):
        a, b = o["pad"][0], n - o["pad"][1]
        kw["sel"] = given({"Time": slice(ds["Time"].values[a], ds["Time"].values[b - 1])})
        if nf == 1 and o.get("isel"):
            kw = {"isel": given({"Time": slice(a, b)})}
    if o.get("weights"):
        kw["weight_ncvar"] = "wgt"
    path = os.path.join(d, "part_*.nc") if nf > 1 else os.path.join(d, "part_000.nc")
    if o.get("rel"):
        path = os.path.relpath(path, scratch)
    return foxes.input.states.FieldDataNC(
        path,
        output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
        var2ncvar=given({FV.WS: "WS", FV.WD: "WD", FV.TI: "TI"}),
        fixed_vars=given({FV.RHO: 1.225}),
        load_mode=mode,
        h_coord="height" if "height" in ds.dims else None,
        time_format=None,
        bounds_extra_space=20000.0 if w.get("nans") else w.get("field_space", 3900.0),
        bounds_error=False,
        interp_nans=bool(w.get("nans")),
        **kw,
    )


def make_wrg(w, scratch, rng):
    import foxes
    import foxes.variables as FV

    p = os.path.join(scratch, f"w{w['seed']}.wrg")
    nx, ny, res, ns = 6, 5, 3000, 4
    with open(p, "w") as f:
        f.write(f"{nx} {ny} -6000 -6000 {res}\n")
        for j in range(ny):
            for i in range(nx):
                r = [f"p{j}_{i}", -6000 + i * res, -6000 + j * res, 0, 100, 9.5, 2.1, 500, ns]
                fs = rng.uniform(100, 300, ns)
                fs = 1000 * fs / fs.sum()
                for s in range(ns):
                    r += [
                        int(round(fs[s])),
                        int(rng.integers(85, 120)),
                        int(rng.integers(180, 240)),
                    ]
                f.write(" ".join(map(str, r)) + "\n")
    nb = max(1, w["n_states"] // ns)
    return foxes.input.states.WRGStates(
        p,
        ws_bins=np.linspace(4.0, 16.0, nb + 1),
        fixed_vars={FV.TI: 0.07, FV.RHO: 1.225},
        bounds_extra_space=None,
    )


def layout(w):
    rng = np.random.default_rng([w["seed"], 3])
    n = w["n_turbines"]
    k = w["layout"]
    if k == "row":
        a = rng.uniform(0, 2 * np.pi)
        s = np.array([np.cos(a), np.sin(a)])
        return np.arange(n)[:, None] * 631.7 * s[None] + 0.37
    if k == "grid":
        m = int(np.ceil(np.sqrt(n)))
        xy = np.array([[i, j] for i in range(m) for j in range(m)], dtype=float)[:n]
        return xy * np.array([713.3, 829.9]) + rng.uniform(0, 30, (n, 2))
    if k == "dense":
        return rng.uniform(0, 1200, (n, 2))
    return rng.uniform(0, 2800, (n, 2))


def make_mbook(w):
    import foxes
    import foxes.variables as FV

    mb = foxes.ModelBook()
    mb.wake_frames["streamlines_short"] = foxes.models.wake_frames.Streamlines2D(
        step=150.0, max_length_km=4.5
    )
    mb.wake_frames["streamlines_long"] = foxes.models.wake_frames.Streamlines2D(
        step=137.0, max_length_km=8
    )
    mb.wake_frames["streamlines_fine"] = foxes.models.wake_frames.Streamlines2D(
        step=60.0, max_length_km=7, cl_ipars=dict(method="linear")
    )
    rng = np.random.default_rng([w["seed"], 4] + ([w["mver"]] if w.get("mver") else []))
    T = foxes.models.turbine_models
    n, nt = true_n_states(w), w["n_turbines"]
    need = set(w["tmodels"])
    trng = np.random.default_rng([w["seed"], 77])

    def texture(a):
        """Data of some states is the same for all turbines"""
        k = w["seed"] % 3
        if k == 1:
            a[: 1 + int(trng.integers(0, max(1, n // 2)))] = a[0, 0]
        elif k == 2:
            rows = trng.random(n) < 0.6
            a[rows] = a[rows][:, :1]
        return a

    if "setmaxp" in need:
        m = mb.turbine_models["setmaxp"] = T.SetFarmVars()
        m.add_var(FV.MAX_P, pick(w, texture(rng.uniform(800.0, 6000.0, (n, nt)))))
    if "setyawm" in need:
        m = mb.turbine_models["setyawm"] = T.SetFarmVars()
        m.add_var(FV.YAWM, pick(w, texture(rng.uniform(-20.0, 20.0, (n, nt)))))
    if "setk_once" in need:
        m = mb.turbine_models["setk_once"] = T.SetFarmVars(
            once=bool(w.get("once", False))
        )
        m.add_var(FV.K, pick(w, texture(rng.uniform(0.02, 0.06, (n, nt)))))
    if "sector" in need:
        i = np.arange(nt)
        lo = rng.uniform(0, 300, nt)
        df = pd.DataFrame(
            dict(
                ti=i,
                a=lo,
                b=lo + 60,
                c=np.full(nt, 0.0),
                d=np.full(nt, 11.0),
                k=rng.uniform(0.5, 0.9, nt),
            )
        )
        if w.get("pick_t") is not None:
            df = df.iloc[w["pick_t"]]
            df["ti"] = i
        mb.turbine_models["sector"] = T.SectorManagement(
            given(df),
            range_vars=given([FV.WD, FV.REWS]),
            target_vars=given(["xsec"]),
            col_tinds="ti",
            colmap={
                f"min_{FV.WD}": "a",
                f"max_{FV.WD}": "b",
                f"{FV.WD}_min": "a",
                f"{FV.WD}_max": "b",
                f"min_{FV.REWS}": "c",
                f"max_{FV.REWS}": "d",
                f"{FV.REWS}_min": "c",
                f"{FV.REWS}_max": "d",
                "xsec": "k",
            },
        )
    if "lookup_k" in need:
        wsv = np.arange(0.0, 60.0, 2.0)
        tiv = np.linspace(0.0, 2.0, 4)
        a, b = np.meshgrid(wsv, tiv, indexing="ij")
        df = pd.DataFrame(
            {
                FV.REWS: a.ravel(),
                FV.TI: b.ravel(),
                FV.K: (0.02 + 0.2 * b + 0.0005 * a).ravel(),
            }
        )
        mb.turbine_models["lookup_k"] = T.LookupTable(
            given(df), input_vars=[FV.REWS, FV.TI], output_vars=[FV.K]
        )
    if "calc_k" in need:
        mb.turbine_models["calc_k"] = T.Calculator(
            in_vars=[FV.REWS, FV.TI, FV.K] if False else [FV.REWS, FV.TI],
            out_vars=["xcalc"],
            func=calc_func,
        )
    if "lookup_type" in (w["ttype"], *w.get("custom", [])):
        wsv = np.arange(0.0, 40.0, 1.0)
        tiv = np.array([0.0, 0.1, 0.5, 2.0])
        a, b = np.meshgrid(wsv, tiv, indexing="ij")
        P = 5000 * np.clip((a - 3) / 9, 0, 1) ** 2 * (1 - 0.1 * b)
        ct = np.clip(0.85 - 0.02 * a, 0.05, 0.85) * np.where(a < 3, 0.0, 1.0)
        df = pd.DataFrame(
            {FV.REWS: a.ravel(), FV.TI: b.ravel(), FV.P: P.ravel(), FV.CT: ct.ravel()}
        )
        mb.turbine_types["lookup_type"] = foxes.models.turbine_types.FromLookupTable(
            given(df), input_vars=[FV.REWS, FV.TI], D=126.0, H=90.0, P_nominal=5000.0
        )
    if "pct2_type" in (w["ttype"], *w.get("custom", [])):
        wsv = np.arange(0.0, 30.0, 1.0)
        mb.turbine_types["pct2_type"] = foxes.models.turbine_types.PCtFromTwo(
            given(pd.DataFrame({"ws": wsv, "P": 5000 * np.clip((wsv - 3) / 9, 0, 1) ** 2})),
            given(pd.DataFrame({"ws": wsv, "ct": np.clip(0.85 - 0.02 * wsv, 0.05, 0.85)})),
            rho=1.225,
            D=126.0,
            H=90.0,
            P_nominal=5000.0,
        )
    return mb


def calc_func(rews, ti, st_sel):
    return (rews * (1 + ti),)


def true_n_states(w):
    n = w["n_states"]
    k = w["states"]
    if k == "scan":
        nw = max(1, min(n, 3))
        return nw * max(1, n // nw)
    if k in ("tab", "tabfile"):
        return 4 * max(2, n // 4)
    if k == "wrg":
        return 4 * max(1, n // 4)
    return n


def make_farm(w):
    import foxes

    farm = foxes.WindFarm()
    xy = layout(w) + np.array(w.get("shift", [0.0, 0.0]))
    order = w.get("pick_t") or range(len(xy))
    shared = {}
    for i, p in zip(order, xy[list(order)]):
        tt = w["ttype"]
        if w.get("mixed"):
            tt = TTYPES[(TTYPES.index(tt) + i) % len(TTYPES)]
        tm = list(w["tmodels"])
        # models that set variables run before the turbine type
        pre = [m for m in tm if m.startswith(("set", "yawm2yaw"))]
        post = [m for m in tm if m not in pre]
        if w.get("moving"):
            n = true_n_states(w)
            p = p[None] + np.random.default_rng([w["seed"], 9, i]).uniform(-150, 150, (n, 2))
            p = pick_states(w, p)
        kw = {}
        if not w.get("uniform_h", True) and i % 2:
            kw = dict(H=110.0)
        models = pre + [tt] + post
        if w.get("active") is not None:
            # models that act in some states only, or what is left of them in one state
            n = true_n_states(w)
            sel = [np.random.default_rng([w["seed"], 12, w["active"], i, k]).random(n) < 0.6 if m in PART else None for k, m in enumerate(models)]
            if w.get("state") is None:
                kw["models_state_sel"] = [x if x is None else pick_states(w, x) for x in sel]
            else:
                models = [m for m, x in zip(models, sel) if x is None or x[w["state"]]]
        if w.get("added"):
            # the same models, step by step, from one list for all turbines of a type
            sel = kw.pop("models_state_sel", [None] * len(models))
            t = foxes.Turbine(xy=p, turbine_models=shared.setdefault(tt, [tt]), **kw)
            for k, m in enumerate(pre):
                t.insert_model(k, m, states_sel=sel[k])
            for k, m in enumerate(post):
                t.add_model(m, states_sel=sel[len(pre) + 1 + k])
        else:
            t = foxes.Turbine(xy=p, turbine_models=models, **kw)
        farm.add_turbine(t, verbosity=0)
    return farm


class World:
    """The objects of one world"""

    def __init__(self, w, scratch=None, states=None, mbook=None, farm=None):
        self.w = w
        self.states = make_states(w, scratch) if states is None else states
        self.mbook = make_mbook(w) if mbook is None else mbook
        self.farm = make_farm(w) if farm is None else farm

    def algo_kwargs(self):
        w = self.w
        kw = dict(
            wake_models=list(w["wakes"]),
            wake_frame=w["frame"],
            rotor_model=w["rotor"],
            mbook=self.mbook,
            verbosity=0,
        )
        if w.get("pwake"):
            kw["partial_wakes"] = w["pwake"]
        if w.get("ground"):
            kw["ground_models"] = w["ground"]
        if w["algo"] == "Iterative":
            for k in ("max_it", "mod_cutin"):
                if k in w:
                    kw[k] = w[k]
        return kw

    def algo(self, **over):
        import foxes

        kw = self.algo_kwargs()
        kw.update(over)
        return getattr(foxes.algorithms, self.w["algo"])(self.farm, self.states, **kw)


def make_points(p):
    """Point spec: dict(n, seed, states, near)"""
    rng = np.random.default_rng([p["seed"], 5])
    n = p["n"]
    pts = np.zeros((p["n_states"], n, 3))
    xy = rng.uniform(-500, 3500, (n, 2))
    pts[..., :2] = xy[None]
    if p.get("vary"):
        pts[..., :2] += rng.uniform(-200, 200, (p["n_states"], n, 2))
    pts[..., 2] = rng.choice([60.0, 90.0, 100.0, 130.0], n)[None]
    return pts
