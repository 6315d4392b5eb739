"""
Simulated dask: a scheduler `get` for the xarray/dask engines and a stand-in
for the `distributed` module (LocalCluster, Client).

The distributed stand-in keeps what matters for the code under test: scattered
objects live once per worker and are handed to every task on that worker by
reference; tasks run one or several at a time per worker (threads); failed
tasks are retried (retries=N), tasks of a dead worker are re-scheduled, data
that lived only on a dead worker is lost.
"""

import concurrent.futures as cf
import pickle
from collections.abc import Iterator

import dask

from . import lines
from .kernel import SimDeadlock, make_exc
from .pools import execute, dumps, inside, loads
from .threads import Baton


def _refs(x, dsk, out):
    """Keys that are referred to by the arguments of a node, in order"""
    if isinstance(x, (str, bytes, int, float)) or x is None:
        return
    key = getattr(x, "key", None)
    if type(x).__name__ in ("TaskRef", "Alias") and key is not None:
        for k in (getattr(x, "target", None), key):
            if k is not None:
                k = getattr(k, "key", k)
                if k in dsk:
                    out.append(k)
        return
    if isinstance(x, dict):
        for v in x.values():
            _refs(v, dsk, out)
        return
    if isinstance(x, (list, tuple)):
        for v in x:
            _refs(v, dsk, out)
        return
    for a in ("args", "kwargs"):
        v = getattr(x, a, None)
        if isinstance(v, (list, tuple, dict)) and type(x).__module__.startswith("dask"):
            _refs(v, dsk, out)


def _plain(k):
    """A key without its random token"""
    t = k if isinstance(k, tuple) else (k,)
    n = str(t[0])
    return (n.rsplit("-", 1)[0], tuple(map(str, t[1:])))


def canonical_order(dsk, keys):
    """
    An order of the graph's nodes that does not depend on the random tokens
    in the names of the nodes: depth first, along the arguments
    """
    out, seen = [], set()
    stack = [(k, False) for k in reversed(keys)]
    while stack:
        k, done = stack.pop()
        if done:
            out.append(k)
            continue
        if k in seen or k not in dsk:
            continue
        seen.add(k)
        stack.append((k, True))
        n = dsk[k]
        found = []
        _refs(n, dsk, found)
        for a in ("args", "kwargs"):
            _refs(getattr(n, a, None), dsk, found)
        deps = [d for d in dict.fromkeys(found) if d in n.dependencies]
        deps += sorted(set(n.dependencies).difference(deps), key=_plain)
        for d in reversed(deps):
            stack.append((d, False))
    for k in sorted(set(dsk).difference(seen), key=_plain):
        out.append(k)
    return out


def make_get(sim, threads=True, preempt=200, gaps=None):
    """
    A dask scheduler: runs the graph's tasks in a seed-chosen topological
    order, on baton threads (threads=True) or one after the other.
    """
    from dask._task_spec import convert_legacy_graph, DataNode

    def get(dsk, keys, num_workers=None, **kw):
        if getattr(inside, "depth", 0):
            # data that a task loads
            return dask.get(dsk, keys)
        if hasattr(dsk, "__dask_graph__") and not isinstance(dsk, dict):
            dsk = dsk.__dask_graph__()
        dsk = dict(dsk)
        dsk = convert_legacy_graph(dsk)
        flat = []

        def collect(k):
            if isinstance(k, list):
                for x in k:
                    collect(x)
            else:
                flat.append(k)

        collect(keys)
        cache = {}
        waiting = {k: set(n.dependencies) for k, n in dsk.items()}
        order = canonical_order(dsk, flat)
        index = {k: i for i, k in enumerate(order)}
        running = set()
        err = []

        def ready():
            return [
                k
                for k in order
                if k not in cache
                and k not in running
                and all(d in cache for d in waiting[k])
            ]

        def runtask(k):
            node = dsk[k]
            tf = None
            if not isinstance(node, DataNode):
                tf = sim.fault("task", task=str(len(cache)))
            sim.ev("start", index[k])
            ok, r, where = execute(
                lambda: node({d: cache[d] for d in waiting[k]}), (), {}, tf
            )
            sim.ev("done", index[k], ok)
            if not ok:
                err.append(r)
                return
            cache[k] = r

        def remaining():
            return [k for k in order if k not in cache and k not in running]

        nw = max(1, int(num_workers or 4))
        if threads:
            baton = Baton(sim, preempt=preempt, gaps=gaps)

            def worker():
                while not err:
                    rd = ready()
                    if not rd:
                        if not remaining():
                            return
                        baton.wait(lambda: err or ready() or not remaining())
                        continue
                    k = rd[sim.choose(min(len(rd), 4), "ready")]
                    running.add(k)
                    try:
                        runtask(k)
                    finally:
                        running.discard(k)

            for i in range(min(nw, 6)):
                baton.spawn(f"d{i}", worker)
            baton.wait(lambda: baton.live == 0)
            baton._hook_off()
            for a in baton.actors:
                if a.exc is not None:
                    raise a.exc
        else:
            while not err:
                rd = ready()
                if not rd:
                    break
                k = rd[sim.choose(len(rd), "ready")]
                runtask(k)
        if err:
            raise err[0]

        def out(k):
            if isinstance(k, list):
                return [out(x) for x in k]
            return cache[k]

        return out(keys)

    return get


# -- distributed -----------------------------------------------------------------
class NestedClient:
    """What get_client() gives to tasks: computes in the task"""

    asynchronous = False

    @staticmethod
    def current(allow_global=True):
        return NestedClient

    @staticmethod
    def get(dsk, keys, **kw):
        return dask.get(dsk, keys)


class DFuture:
    def __init__(self, client, key):
        self.client = client
        self.key = key
        self.status = "pending"
        self.error = None
        self.value = None
        self.blob = None
        self.where = set()

    def done(self):
        return self.status != "pending"

    def result(self, timeout=None):
        self.client._drive(self)
        if self.status == "error":
            raise self.error
        if self.status == "cancelled":
            raise cf.CancelledError(self.key)
        return self.client._fetch(self)

    def exception(self, timeout=None):
        self.client._drive(self)
        return self.error

    def cancel(self, **kw):
        self.status = "cancelled"

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("futures are not serialised in this stand-in")


class KilledWorker(Exception):
    """distributed.scheduler.KilledWorker"""


class DTask:
    def __init__(self, id, blobfn, args, kwargs, retries, fut):
        self.id = id
        self.fn = blobfn
        self.args = args
        self.kwargs = kwargs
        self.retries = retries
        self.fut = fut
        self.suspicious = 0
        self.end = None
        self.worker = None


class Worker:
    def __init__(self, i):
        self.i = i
        self.data = {}
        self.alive = True
        self.running = []


class Cluster:
    def __init__(self, sim, n_workers, threads, registry=None):
        self.sim = sim
        f = sim.fault("pool.start", kind="cluster")
        if f is not None:
            raise make_exc(f.get("kind", "emfile"), "cluster start")
        self.workers = [Worker(i) for i in range(max(1, n_workers or 1))]
        self.nthreads = threads
        self.closed = False
        if registry is not None:
            registry.append(self)
        sim.ev("cluster", len(self.workers), threads)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self, *a):
        if self.closed:
            return
        self.closed = True
        f = self.sim.fault("pool.stop", kind="cluster")
        if f is not None:
            raise make_exc(f.get("kind", "error"), "cluster stop")

    def __del__(self):
        pass

    def leaked(self):
        return not self.closed

    def __repr__(self):
        return "SimCluster"


class Client:
    """distributed.Client for one driver"""

    dashboard_link = "sim://"

    def __init__(self, sim, cluster, preempt=200, gaps=None, registry=None, **kw):
        self.sim = sim
        f = sim.fault("client.start", kind="cluster")
        if f is not None:
            raise make_exc(f.get("kind", "error"), "client start")
        self.cluster = cluster
        self.queue = []
        self.nk = 0
        self.closed = False
        self.preempt = preempt
        self.gaps = gaps
        self.nt = 0
        if registry is not None:
            registry.append(self)
        # as the real client does
        self._set = dask.config.set(scheduler="dask.distributed")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self, *a, **k):
        if self.closed:
            return
        self.closed = True
        self._set.__exit__(None, None, None)
        f = self.sim.fault("client.stop", kind="cluster")
        if f is not None:
            raise make_exc(f.get("kind", "error"), "client stop")

    def leaked(self):
        return not self.closed

    def __del__(self):
        pass

    def _key(self, p):
        self.nk += 1
        return f"{p}-{self.nk}"

    # -- data -----------------------------------------------------------------
    def _alive(self):
        w = [w for w in self.cluster.workers if w.alive]
        if not w:
            raise make_exc("error", "no workers left")
        return w

    def scatter(self, data, workers=None, broadcast=False, direct=None, hash=True, **k):
        if type(data) in (list, tuple, set, frozenset):
            return type(data)(
                self._scatter1(x, broadcast) for x in data
            )
        if type(data) is dict:
            return type(data)(
                {k: self._scatter1(x, broadcast) for k, x in data.items()}
            )
        if isinstance(data, Iterator):
            raise TypeError(
                "Dask no longer supports mapping over Iterators or Queues."
            )
        return self._scatter1(data, broadcast)

    def _scatter1(self, x, broadcast):
        f = self.sim.fault("scatter", kind="cluster")
        if f is not None:
            raise make_exc(f.get("kind", "error"), "scatter")
        fut = DFuture(self, self._key("data"))
        blob = dumps("ray", x)
        ws = self._alive()
        if not broadcast:
            ws = [ws[self.sim.choose(len(ws), "place")]]
        for w in ws:
            w.data[fut.key] = loads("ray", blob)
            fut.where.add(w.i)
        fut.status = "finished"
        return fut

    def _on(self, fut, w):
        """The value of a future on worker w, by reference"""
        if fut.key not in w.data:
            src = [
                x
                for x in self.cluster.workers
                if x.alive and fut.key in x.data
            ]
            if not src:
                raise KeyError(fut.key)
            s = src[self.sim.choose(len(src), "peer")]
            w.data[fut.key] = loads("ray", dumps("ray", s.data[fut.key]))
            fut.where.add(w.i)
        return w.data[fut.key]

    def _fetch(self, fut):
        src = [x for x in self.cluster.workers if x.alive and fut.key in x.data]
        if not src:
            raise cf.CancelledError(fut.key)
        return loads("ray", dumps("ray", src[0].data[fut.key]))

    def gather(self, futs):
        if isinstance(futs, dict):
            return {k: self.gather(f) for k, f in futs.items()}
        if isinstance(futs, (list, tuple)):
            return [self.gather(f) for f in futs]
        return futs.result()

    def cancel(self, futs, **kw):
        pass

    def persist(self, x, **kw):
        return x

    def map(self, fn, *its, **kw):
        return [self.submit(fn, *a, **kw) for a in zip(*its)]

    # -- tasks ----------------------------------------------------------------
    def submit(
        self, fn, *args, retries=0, key=None, workers=None, pure=True, priority=0, **kwargs
    ):
        sim = self.sim
        f = sim.fault("submit", kind="cluster")
        if f is not None:
            raise make_exc(f.get("kind", "error"), "submit")
        fut = DFuture(self, self._key("task"))
        t = DTask(self.nt, fn, args, kwargs, int(retries or 0), fut)
        self.nt += 1
        # plain arguments are serialised at submission
        t.args, t.kwargs = self._freeze(args), self._freeze(kwargs)
        self.queue.append(t)
        sim.ev("submit", t.id)
        return fut

    def _freeze(self, x):
        if isinstance(x, DFuture):
            return x
        if type(x) in (list, tuple, set):
            return type(x)(self._freeze(y) for y in x)
        if type(x) is dict:
            return {k: self._freeze(y) for k, y in x.items()}
        return loads("ray", dumps("ray", x))

    def _thaw(self, x, w, lost):
        if isinstance(x, DFuture):
            try:
                return self._on(x, w)
            except KeyError:
                lost.append(x)
                return None
        if type(x) in (list, tuple, set):
            return type(x)(self._thaw(y, w, lost) for y in x)
        if type(x) is dict:
            return {k: self._thaw(y, w, lost) for k, y in x.items()}
        # a private copy per execution
        return loads("ray", dumps("ray", x))

    def _exec(self, t, w, tf, when=None):
        """Runs the task on worker w; returns outcome"""
        lost = []
        args = self._thaw(t.args, w, lost)
        kwargs = self._thaw(t.kwargs, w, lost)
        if lost:
            t.fut.status = "error"
            t.fut.error = cf.CancelledError(
                f"lost dependencies: {len(lost)} of {t.fut.key}"
            )
            return None
        with lines.in_worker():
            return execute(t.fn, args, kwargs, tf)

    def _settle(self, t, w, out, crash=False):
        sim = self.sim
        if out is None:
            return
        ok, r, where = out
        if where:
            sim.ev("raised", where)
        if crash:
            sim.ev("crash", t.id, w.i)
            w.alive = False
            w.data.clear()
            nw = Worker(len(self.cluster.workers))
            self.cluster.workers.append(nw)
            t.suspicious += 1
            if t.suspicious > 3:
                t.fut.status = "error"
                t.fut.error = KilledWorker(t.fut.key)
            else:
                self.queue.append(t)
            return
        if not ok:
            if t.retries > 0:
                t.retries -= 1
                sim.probes["dask_retry"] += 1
                self.queue.append(t)
                sim.ev("retry", t.id, w.i)
            else:
                t.fut.status = "error"
                t.fut.error = r
            return
        sim.ev("done", t.id, w.i)
        try:
            w.data[t.fut.key] = r
            t.fut.where.add(w.i)
            t.fut.status = "finished"
        except Exception as e:  # pragma: no cover
            t.fut.status = "error"
            t.fut.error = e

    def _drive(self, fut):
        sim = self.sim
        while not fut.done():
            if not self.queue:
                raise SimDeadlock("distributed: the awaited task never finishes")
            sim.step()
            ws = self._alive()
            if self.cluster.nthreads > 1 and len(self.queue) > 1:
                self._batch(ws)
            else:
                t = self.queue.pop(sim.choose(min(len(self.queue), 6), "next"))
                w = ws[sim.choose(len(ws), "worker")]
                sim.advance(sim.now + sim.duration("dur"))
                f = sim.fault("worker.crash", task=t.id)
                tf = None if f is not None else sim.fault("task", task=t.id)
                sim.ev("start", t.id, w.i)
                if f is not None and f.get("when", "before") == "before":
                    self._settle(t, w, (False, None, None), crash=True)
                    continue
                out = self._exec(t, w, tf)
                dup = sim.fault("task.dup", task=t.id)
                if dup is not None and out is not None:
                    # work stealing race: the task is executed once more
                    sim.ev("dup", t.id)
                    out = self._exec(t, w, None)
                self._settle(t, w, out, crash=f is not None)

    def _batch(self, ws):
        """Several tasks at once on the threads of one worker"""
        sim = self.sim
        w = ws[sim.choose(len(ws), "worker")]
        n = min(self.cluster.nthreads, len(self.queue))
        ts = [
            self.queue.pop(sim.choose(min(len(self.queue), 6), "next"))
            for _ in range(n)
        ]
        baton = Baton(sim, preempt=self.preempt, gaps=self.gaps)
        outs = {}

        def body(t):
            def run():
                sim.ev("start", t.id, w.i)
                tf = sim.fault("task", task=t.id)
                if tf is not None and tf.get("at", -1) >= 0:
                    me = baton.cur
                    me.fault = [
                        tf["at"] + 1,
                        lambda: make_exc(tf.get("kind", "error")),
                        None,
                    ]
                    outs[t.id] = self._exec(t, w, None)
                    me.fault = None
                else:
                    outs[t.id] = self._exec(t, w, tf)
                if sim.fault("task.dup", task=t.id) is not None and outs[t.id] is not None:
                    sim.ev("dup", t.id)
                    outs[t.id] = self._exec(t, w, None)

            return run

        for t in ts:
            baton.spawn(f"t{t.id}", body(t))
        baton.wait(lambda: baton.live == 0)
        baton._hook_off()
        for a in baton.actors:
            if a.exc is not None:
                raise a.exc
        sim.advance(sim.now + 1e-3)
        for t in ts:
            self._settle(t, w, outs[t.id])


class SimDistributed:
    """A stand-in for the distributed module"""

    KilledWorker = KilledWorker
    CancelledError = cf.CancelledError

    def __init__(self, sim, threads=1, preempt=200, gaps=None, registry=None):
        self.sim = sim
        self.threads = threads
        self.preempt = preempt
        self.gaps = gaps
        self.registry = registry

    def LocalCluster(self, n_workers=None, threads_per_worker=None, **kw):
        return Cluster(
            self.sim, n_workers, threads_per_worker or self.threads, self.registry
        )

    def Client(self, cluster=None, **kw):
        return Client(
            self.sim, cluster, preempt=self.preempt, gaps=self.gaps, registry=self.registry
        )


def number_tokens():
    """
    Replaces the tokens of dask by those of their order of appearance: tokens
    contain random numbers, paths and times of files, and the fusion and order of
    tasks depends on them. Replaces random identifiers by pseudo random ones.
    """
    import dask.tokenize as dt
    import random
    import uuid
    from hashlib import md5

    rnd = random.Random("uuid")
    uuid.uuid4 = lambda: uuid.UUID(int=rnd.getrandbits(128), version=4)

    real = getattr(dt, "_tokenize", None)
    if real is None:
        return
    real = getattr(real, "real", real)
    seen = {}

    def _tokenize(*a, **k):
        t = real(*a, **k)
        return seen.setdefault(t, md5(b"%d" % len(seen)).hexdigest())

    _tokenize.real = real
    dt._tokenize = _tokenize
