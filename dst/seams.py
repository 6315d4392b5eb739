"""
Installs the simulated platform into the seams of foxes, and creates engines.

No source of foxes is changed: the seams are the module attributes through
which foxes reaches executors, pools, dask and distributed.
"""

import contextlib
import sys
import types

from . import daskshim, lines, pools

POOL_KINDS = ["threads", "process", "multiprocess", "ray", "mpi"]
DASK_KINDS = ["dask", "xarray", "local_cluster"]
SERIAL_KINDS = ["single", "numpy"]
ALL_KINDS = SERIAL_KINDS + POOL_KINDS + DASK_KINDS + ["default"]
ISOLATED = ["process", "multiprocess", "ray", "mpi"]


class Platform:
    """What the simulated machine looks like for one run"""

    def __init__(self, sim, spec=None):
        spec = spec or {}
        self.sim = sim
        self.fork = bool(spec.get("fork", False))
        self.preempt = int(spec.get("preempt", 150))
        self.gaps = spec.get("gaps")
        self.wthreads = int(spec.get("wthreads", 1))
        self.dthreads = bool(spec.get("dthreads", True))
        self.cpus = int(spec.get("cpus", 4))
        sim.lead = int(spec.get("lead", 0))
        sim.focus = spec.get("focus")  # [m, k, budget], see threads.Baton
        self.registry = []

    # executor factories
    def thread_pool(self, max_workers=None, *a, **k):
        return pools.SimThreadPool(
            self.sim,
            max_workers or self.cpus,
            preempt=self.preempt,
            gaps=self.gaps,
            registry=self.registry,
        )

    def process_pool(self, max_workers=None, *a, **k):
        return pools.SimProcPool(
            self.sim,
            max_workers or self.cpus,
            kind="futures",
            fork=self.fork,
            registry=self.registry,
        )

    def mpi_pool(self, max_workers=None, *a, **k):
        return pools.SimProcPool(
            self.sim,
            max_workers or self.cpus,
            kind="mpi",
            fork=self.fork,
            registry=self.registry,
        )

    def mp_pool(self, processes=None, *a, **k):
        return pools.SimMpPool(
            self.sim,
            processes or self.cpus,
            kind="mp",
            fork=self.fork,
            registry=self.registry,
        )

    def dask_get(self):
        return daskshim.make_get(
            self.sim, threads=self.dthreads, preempt=self.preempt, gaps=self.gaps
        )

    def leaks(self):
        return [type(p).__name__ for p in self.registry if p.leaked()]

    def kill(self):
        for p in self.registry:
            if hasattr(p, "_kill_workers"):
                p._kill_workers()


_MISSING = object()


@contextlib.contextmanager
def installed(platform):
    """Context: foxes runs on the simulated platform"""
    import concurrent.futures as cf
    import os

    import foxes.engines.futures as ff
    import foxes.engines.ray as fr
    import foxes.engines.dask as fd
    import dask

    sim = platform.sim
    saved = []

    def put(obj, name, val):
        saved.append((obj, name, getattr(obj, name, _MISSING)))
        setattr(obj, name, val)

    saved_mods = {}

    def putmod(name, mod):
        saved_mods[name] = sys.modules.get(name, _MISSING)
        sys.modules[name] = mod

    put(cf, "ThreadPoolExecutor", platform.thread_pool)
    put(cf, "ProcessPoolExecutor", platform.process_pool)
    if hasattr(ff, "ThreadPoolExecutor"):
        put(ff, "ThreadPoolExecutor", platform.thread_pool)
    if hasattr(ff, "ProcessPoolExecutor"):
        put(ff, "ProcessPoolExecutor", platform.process_pool)

    mp = types.ModuleType("multiprocess")
    mp.Pool = platform.mp_pool
    putmod("multiprocess", mp)
    mpi = types.ModuleType("mpi4py")
    mpif = types.ModuleType("mpi4py.futures")
    mpif.MPIPoolExecutor = platform.mpi_pool
    mpi.futures = mpif
    putmod("mpi4py", mpi)
    putmod("mpi4py.futures", mpif)

    sray = pools.SimRay(sim, fork=platform.fork, registry=platform.registry)
    putmod("ray", sray)
    put(fr, "ray", sray)

    if fd.dask is None:
        fd.load_dask()
    put(
        fd,
        "distributed",
        daskshim.SimDistributed(
            sim,
            threads=platform.wthreads,
            preempt=platform.preempt,
            gaps=platform.gaps,
            registry=platform.registry,
        ),
    )
    import dask.base as db

    if hasattr(db, "_get_distributed_client"):
        put(db, "_distributed_available", lambda: True)
        put(db, "_DistributedClient", daskshim.NestedClient)
        put(db, "_get_distributed_client", lambda *a, **k: daskshim.NestedClient)
    cpus = platform.cpus
    put(os, "cpu_count", lambda: cpus)
    if hasattr(os, "process_cpu_count"):
        put(os, "process_cpu_count", lambda: cpus)
    get = platform.dask_get()
    dask.config.set(scheduler=get)
    platform.get = get
    try:
        yield platform
    finally:
        lines.stop()
        for obj, name, val in reversed(saved):
            if val is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, val)
        for name, mod in saved_mods.items():
            if mod is _MISSING:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = mod
        dask.config.refresh()
        platform.kill()


def engine_kwargs(spec, platform=None):
    kw = dict(
        n_procs=spec.get("n_procs"),
        chunk_size_states=spec.get("css"),
        chunk_size_points=spec.get("csp"),
        verbosity=0,
    )
    if spec["kind"] in DASK_KINDS:
        kw["progress_bar"] = bool(spec.get("pbar", False))
        if platform is not None:
            kw["dask_config"] = {"scheduler": platform.get}
    return kw


def make_engine(spec, platform=None):
    import foxes

    return foxes.Engine.new(spec["kind"], **engine_kwargs(spec, platform))


def reset_global_engine():
    import foxes.core.engine as ce

    d = ce.__dict__.get("__global_engine_data__")
    if isinstance(d, dict) and "engine" in d:
        d["engine"] = None
    elif ce.get_engine(error=False, default=False) is not None:
        ce.reset_engine()


def gen_engine(rng, kinds=None, n_states=10, n_points=0, multi=True):
    """A random engine spec; multi: prefer more than one chunk"""
    kind = rng.choice(kinds or ALL_KINDS)
    spec = dict(kind=kind)
    if kind == "single":
        return spec
    spec["n_procs"] = rng.choice([1, 2, 2, 3, 3, 4, 5, 8])
    r = rng.random()
    if r < 0.2:
        spec["css"] = None
    else:
        spec["css"] = rng.randint(1, max(1, n_states if r > 0.9 else n_states // 2))
    if n_points:
        spec["csp"] = (
            None if rng.random() < 0.25 else rng.randint(1, max(1, n_points))
        )
    return spec


def gen_platform(rng):
    return dict(
        fork=rng.random() < 0.25,
        preempt=rng.choice([0, 10, 60, 200, 600]),
        gaps=rng.choice(
            [None, [1, 2, 3, 5], [5, 20, 80], [50, 200, 800], [300, 1000, 4000]]
        ),
        wthreads=rng.choice([1, 1, 2, 3]),
        dthreads=rng.random() < 0.7,
        cpus=rng.choice([1, 2, 3, 4, 8]),
    )


def fit_engine(e, w):
    """Dynamic wakes exchange data between the chunks: few chunks only, for cost"""
    if w["frame"].startswith("dyn_wakes") and e.get("kind") != "single":
        from . import worlds

        n = worlds.true_n_states(w)
        least = -(-n // 4)
        if e.get("css") is not None:
            e["css"] = max(e["css"], least)
        else:
            e["n_procs"] = min(e["n_procs"], 4)
    return e
