"""
Simulated faults of the storage that input files are read from.

The injection points are the opening of a file below the given folder (Python's
open, pandas, the netCDF back ends of xarray) and the reading of netCDF data.
A fault raises an error of the operating system, or changes the file before it
is opened: it disappears, is cut short, or is replaced by one with fewer states.
"""

import builtins
import contextlib
import functools
import os
import shutil

from .kernel import make_exc


class Disk:
    def __init__(self, sim, root, backup):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.backup = backup
        self.busy = False
        self.changed = []
        self.opened = set()

    def files(self):
        out = []
        for d, _, fs in sorted(os.walk(self.root)):
            out += [os.path.join(d, f) for f in sorted(fs)]
        return out

    def save(self):
        shutil.copytree(self.root, self.backup)

    def restore(self):
        shutil.rmtree(self.root)
        shutil.copytree(self.backup, self.root)
        self.changed = []

    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            return None
        return p if p.startswith(self.root + os.sep) else None

    def reading(self, path):
        """A file below root is about to be opened"""
        if self.busy:
            return
        p = self.mine(path)
        if p is None:
            return
        name = os.path.relpath(p, self.root)
        self.sim.ev("open", name)
        f = self.sim.fault("read.open", file=name)
        if f is None or f["kind"] != "fewer":
            self.opened.add(p)
        if f is None:
            return
        k = f["kind"]
        if k in ("eio", "emfile", "eacces", "memory"):
            raise make_exc(k, name)
        fl = self.files()
        if "file" in f and fl:
            p = fl[f["file"] % len(fl)]
        if k == "fewer" and p not in self.opened:
            # its length is not known yet
            return
        self.busy = True
        try:
            self.change(p, k, f.get("frac", 0.5))
        finally:
            self.busy = False

    def data(self):
        """Data of an open netCDF file is about to be read"""
        if not self.busy:
            f = self.sim.fault("read.data")
            if f is not None:
                raise make_exc(f["kind"], "read")

    def change(self, p, kind, frac):
        if not os.path.exists(p):
            return
        self.changed.append((kind, os.path.basename(p)))
        if kind == "vanish":
            os.remove(p)
        elif kind == "cut":
            n = int(os.path.getsize(p) * frac)
            with open(p, "rb") as f:
                b = f.read(n)
            self._put(p, b)
        elif kind == "fewer":
            import xarray as xr

            with xr.open_dataset(p) as ds:
                ds = ds.load()
            c = "Time" if "Time" in ds.dims else list(ds.dims)[0]
            m = int(ds.sizes[c] * frac)
            ds = ds.isel({c: slice(0, m)})
            ds.to_netcdf(p + ".tmp")
            os.replace(p + ".tmp", p)
        else:
            raise ValueError(kind)

    def _put(self, p, b):
        with open(p + ".tmp", "wb") as f:
            f.write(b)
        os.replace(p + ".tmp", p)

    @contextlib.contextmanager
    def installed(self):
        import pandas.io.parsers.readers as pr
        import xarray.backends.netCDF4_ as n4

        try:
            import xarray.backends.h5netcdf_ as h5
        except ImportError:
            h5 = None
        saved = []

        def patch(o, k, fn):
            saved.append((o, k, getattr(o, k)))
            setattr(o, k, fn)

        op = builtins.open

        def sim_open(file, mode="r", *a, **k):
            if not isinstance(file, int) and "r" in mode and "+" not in mode:
                self.reading(file)
            return op(file, mode, *a, **k)

        gh = pr.get_handle

        def get_handle(path, *a, **k):
            if isinstance(path, (str, os.PathLike)):
                self.reading(path)
                b, self.busy = self.busy, True
                try:
                    return gh(path, *a, **k)
                finally:
                    self.busy = b
            return gh(path, *a, **k)

        patch(builtins, "open", sim_open)
        patch(pr, "get_handle", get_handle)

        def entry(cls):
            o = cls.open_dataset

            @functools.wraps(o)
            def open_dataset(s, filename_or_obj, **k):
                if isinstance(filename_or_obj, (str, os.PathLike)):
                    self.reading(filename_or_obj)
                return o(s, filename_or_obj, **k)

            patch(cls, "open_dataset", open_dataset)

        def wrapper(cls):
            o = cls._getitem

            def _getitem(s, key):
                self.data()
                return o(s, key)

            patch(cls, "_getitem", _getitem)

        entry(n4.NetCDF4BackendEntrypoint)
        wrapper(n4.NetCDF4ArrayWrapper)
        if h5 is not None:
            entry(h5.H5netcdfBackendEntrypoint)
            wrapper(h5.H5NetCDFArrayWrapper)
        try:
            yield self
        finally:
            for o, k, v in reversed(saved):
                setattr(o, k, v)
