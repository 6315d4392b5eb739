"""
Oracles: comparison of result datasets, snapshots of user inputs.
"""

import numpy as np

ANGLES = {"WD", "AMB_WD", "YAW", "YAWM"}
# state indices relative to the chunk, by definition
CHUNK_LOCAL = {"order_ssel"}


def to_plain(ds):
    """Dataset -> {name: (dims, array)} plus coords"""
    out = {}
    for v in ds.data_vars:
        out[str(v)] = (tuple(map(str, ds[v].dims)), np.array(ds[v].values))
    co = {str(c): np.array(ds.coords[c].values) for c in ds.coords}
    return dict(vars=out, coords=co, sizes={str(k): int(v) for k, v in ds.sizes.items()})


def isel_plain(r, i, dim="state"):
    """One entry of a dimension of a to_plain dict"""
    out = {}
    for v, (d, a) in r["vars"].items():
        if dim in d:
            a = np.take(a, [i], axis=d.index(dim))
        out[v] = (d, a)
    co = {c: (a[i : i + 1] if c == dim else a) for c, a in r["coords"].items()}
    return dict(vars=out, coords=co, sizes={**r["sizes"], dim: 1})


def _cmp(name, a, b, rtol, atol):
    if a.shape != b.shape:
        return f"{name}: shape {b.shape} instead of {a.shape}"
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        try:
            a = a.astype(float)
            b = b.astype(float)
        except (TypeError, ValueError):
            return None if np.array_equal(a, b) else f"{name}: values differ"
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            i = tuple(int(x) for x in np.argwhere(na != nb)[0])
            return f"{name}{list(i)}: nan pattern differs, {b[i]} instead of {a[i]}"
        d = np.abs(a - b)
        if name in ANGLES or name.startswith(("WD", "AMB_WD")):
            d = np.minimum(d, np.abs(360.0 - d))
        with np.errstate(invalid="ignore"):
            same = a == b
            tol = atol + rtol * np.abs(a)
            bad = ~(na | same | (d <= tol))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            return (
                f"{name}{list(i)}: {b[i]!r} instead of {a[i]!r} "
                f"({int(bad.sum())} of {bad.size} values differ)"
            )
        return None
    if not np.array_equal(a, b):
        return f"{name}: values differ"
    return None


def compare(ref, got, rtol=1e-7, atol=1e-7, ignore=(), coords=True, strict_vars=True):
    """
    Compares two datasets (or to_plain dicts); returns a list of differences.
    """
    if not isinstance(ref, dict):
        ref = to_plain(ref)
    if not isinstance(got, dict):
        got = to_plain(got)
    out = []
    ignore = set(ignore) | CHUNK_LOCAL
    rv, gv = ref["vars"], got["vars"]
    miss = [v for v in rv if v not in gv and v not in ignore]
    more = [v for v in gv if v not in rv and v not in ignore]
    if miss:
        out.append(f"missing variables {miss}")
    if more and strict_vars:
        out.append(f"additional variables {more}")
    for v, (dims, a) in rv.items():
        if v in ignore or v not in gv:
            continue
        gd, b = gv[v]
        if gd != dims:
            if sorted(gd) == sorted(dims):
                b = np.transpose(b, [gd.index(d) for d in dims])
            elif v == "weight" and set(gd) > set(dims):
                # the weight may come per state or per state and turbine
                ax = tuple(i for i, d in enumerate(gd) if d not in dims)
                lo, hi = b.min(axis=ax), b.max(axis=ax)
                if not np.array_equal(lo, hi, equal_nan=True):
                    out.append(f"{v}: varies along {set(gd) - set(dims)}")
                    continue
                b = lo
            elif v == "weight" and set(gd) < set(dims):
                ix = tuple(slice(None) if d in gd else None for d in dims)
                b = np.broadcast_to(
                    np.transpose(b, [gd.index(d) for d in dims if d in gd])[ix], a.shape
                )
            else:
                out.append(f"{v}: dims {gd} instead of {dims}")
                continue
        r = _cmp(v, a, b, rtol, atol)
        if r:
            out.append(r)
    if coords:
        for c, a in ref["coords"].items():
            if c in ignore:
                continue
            if c not in got["coords"]:
                out.append(f"missing coordinate {c}")
                continue
            b = got["coords"][c]
            if a.shape != b.shape or not np.array_equal(a, b):
                out.append(f"coordinate {c} differs")
    return out


def snapshot(obj, depth=0):
    """A comparable deep snapshot of user-supplied plain inputs"""
    import pandas as pd
    import xarray as xr

    if isinstance(obj, np.ndarray):
        return ("nd", obj.shape, str(obj.dtype), obj.tobytes() if obj.dtype != object else repr(obj.tolist()))
    if isinstance(obj, pd.DataFrame):
        return (
            "df",
            [str(c) for c in obj.columns],
            repr(list(obj.index)),
            [repr(obj[c].tolist()) for c in obj.columns],
        )
    if isinstance(obj, (xr.Dataset, xr.DataArray)):
        ds = obj if isinstance(obj, xr.Dataset) else obj.to_dataset(name="_x")
        p = to_plain(ds)
        return (
            "ds",
            {k: (d, snapshot(a)) for k, (d, a) in p["vars"].items()},
            {k: snapshot(a) for k, a in p["coords"].items()},
        )
    if isinstance(obj, dict):
        return ("dict", [(repr(k), snapshot(v, depth + 1)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [snapshot(v, depth + 1) for v in obj])
    return repr(obj)
