"""
Simulated executors and pools, stand-ins for

  concurrent.futures.ProcessPoolExecutor, mpi4py.futures.MPIPoolExecutor,
  multiprocess.Pool, ray, concurrent.futures.ThreadPoolExecutor

Process-like pools isolate through pickling, optionally in real forked worker
processes that are stepped synchronously (one request, one answer), such that
worker processes keep their own module state. Thread pools share objects and
are preempted at foxes lines (see threads.py).
"""

import concurrent.futures as cf
import os
import pickle
import signal
import struct
import threading
import sys
from concurrent.futures.process import BrokenProcessPool

from . import lines
from .kernel import SimDeadlock, make_exc
from .threads import Baton

try:
    import cloudpickle
except ImportError:  # pragma: no cover
    cloudpickle = None
try:
    import dill
except ImportError:  # pragma: no cover
    dill = None


def dumps(kind, obj):
    if kind == "mp" and dill is not None:
        return dill.dumps(obj)
    if kind == "ray" and cloudpickle is not None:
        return cloudpickle.dumps(obj)
    return pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)


def loads(kind, blob):
    if kind == "mp" and dill is not None:
        return dill.loads(blob)
    return pickle.loads(blob)


inside = threading.local()


def execute(fn, args, kwargs, fault=None):
    """
    Executes a task, optionally with an in-task fault.

    Returns (ok, result or exception, where)
    """
    where = None
    inside.depth = getattr(inside, "depth", 0) + 1
    try:
        if fault is not None and fault.get("at", -1) >= 0 and not lines.active():
            with lines.RaiseAt(
                fault["at"] + 1, lambda: make_exc(fault.get("kind", "error"))
            ) as ra:
                try:
                    r = fn(*args, **kwargs)
                finally:
                    where = ra.where
            # a swallowed injected error is legal, the result must be right
            return True, r, where
        if fault is not None and fault.get("kind") in (
            "error",
            "memory",
            "interrupt",
            "eio",
        ):
            raise make_exc(fault["kind"])
        return True, fn(*args, **kwargs), where
    except BaseException as e:
        if isinstance(e, (SimDeadlock,)):
            raise
        return False, e, where
    finally:
        inside.depth -= 1


# -- forked workers --------------------------------------------------------
def _send(fd, b):
    b = struct.pack("<Q", len(b)) + b
    v = memoryview(b)
    while len(v):
        n = os.write(fd, v)
        v = v[n:]


def _recv(fd):
    def rd(n):
        out = bytearray()
        while len(out) < n:
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return bytes(out)

    return rd(struct.unpack("<Q", rd(8))[0])


class ForkWorker:
    """A real forked process, stepped synchronously by the simulator"""

    def __init__(self, kind):
        self.kind = kind
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w0)
                os.close(r1)
                while True:
                    try:
                        blob = _recv(r0)
                    except EOFError:
                        break
                    payload, fault = pickle.loads(blob)
                    _send(w1, run_payload(kind, payload, fault))
            finally:
                os._exit(0)
        os.close(r0)
        os.close(w1)
        self.w, self.r = w0, r1
        self.alive = True

    def run(self, payload, fault):
        _send(self.w, pickle.dumps((payload, fault)))
        return _recv(self.r)

    def kill(self):
        if self.alive:
            self.alive = False
            os.close(self.w)
            os.close(self.r)
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass


def run_payload(kind, payload, fault):
    """Runs a pickled task, returns the pickled outcome"""
    with lines.in_worker():
        return _run_payload(kind, payload, fault)


def _run_payload(kind, payload, fault):
    try:
        fn, args, kwargs = loads(kind, payload)
    except BaseException as e:
        return _pack_exc(kind, e)
    ok, r, where = execute(fn, args, kwargs, fault)
    if not ok:
        return _pack_exc(kind, r, where)
    try:
        return dumps(kind, (True, r, where))
    except BaseException as e:
        return _pack_exc(kind, e)


def _pack_exc(kind, e, where=None):
    try:
        return dumps(kind, (False, e, where))
    except BaseException:
        return dumps(kind, (False, RuntimeError(f"{type(e).__name__}: {e}"), where))


class Task:
    __slots__ = (
        "id fn args kwargs payload future state worker end tries stage".split()
    )

    def __init__(self, id, fn, args, kwargs, future):
        self.id = id
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self.payload = None
        self.future = future
        self.state = "queued"
        self.worker = None
        self.end = None
        self.tries = 0


class SimFuture(cf.Future):
    """A future whose waiting drives the simulation"""

    def __init__(self, pool):
        super().__init__()
        self._pool = pool

    def result(self, timeout=None):
        self._pool._drive(self)
        return super().result(0)

    def exception(self, timeout=None):
        self._pool._drive(self)
        return super().exception(0)

    # multiprocess.pool.AsyncResult interface
    def get(self, timeout=None):
        return self.result()

    def wait(self, timeout=None):
        self._pool._drive(self)

    def ready(self):
        return self.done()

    def successful(self):
        return self.done() and super().exception(0) is None


class SimProcPool:
    """
    kind: "futures" (a worker's death breaks the pool), "mp" (the task is
    lost, the worker is replaced), "ray" (the task is retried)
    """

    def __init__(self, sim, n, kind="futures", fork=False, registry=None):
        self.sim = sim
        self.kind = kind
        self.fork = fork
        self.n = max(1, int(n or 1))
        self.tasks = []
        self.queue = []
        self.running = {}
        self.broken = None
        self.closed = False
        self.max_retries = 3
        self.nt = 0
        f = sim.fault("pool.start", kind=kind)
        if f is not None:
            raise make_exc(f.get("kind", "emfile"), "pool start")
        self.workers = [self._new_worker(i) for i in range(self.n)]
        # per-run speed of workers: stalled nodes
        self.speed = [[1, 1, 1, 50][sim.choose(4, "speed")] for _ in range(self.n)]
        self.registry = registry
        if registry is not None:
            registry.append(self)
        sim.ev("pool", kind, self.n)

    def _new_worker(self, i):
        return ForkWorker(self.kind) if self.fork else None

    # -- client side ------------------------------------------------------
    def submit(self, fn, /, *args, **kwargs):
        sim = self.sim
        if self.broken is not None:
            raise BrokenProcessPool(self.broken)
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = sim.fault("submit", kind=self.kind)
        if f is not None:
            if f.get("kind") == "broken" and self.kind == "futures":
                self._break("worker died while idle")
                raise BrokenProcessPool(self.broken)
            raise make_exc(f.get("kind", "error"), "submit")
        fut = SimFuture(self)
        t = Task(self.nt, fn, args, kwargs, fut)
        self.nt += 1
        self.queue.append(t)
        sim.ev("submit", t.id)
        if self.kind in ("ray", "mpi"):
            # arguments are serialised at submission
            self._pickle(t)
        # the pool makes some progress while the client continues
        for _ in range(sim.choose(4, "progress")):
            if not self._tick():
                break
        return fut

    def _pickle(self, t):
        try:
            t.payload = dumps(self.kind, (t.fn, t.args, t.kwargs))
        except Exception as e:
            if t in self.queue:
                self.queue.remove(t)
            t.state = "done"
            if self.kind in ("ray",):
                raise
            t.future.set_exception(e)
            return
        t.fn = t.args = t.kwargs = None
        self.sim.ev("pickle", t.id)

    # -- transitions ------------------------------------------------------
    def _tick(self):
        """One transition; False if nothing is possible"""
        sim = self.sim
        sim.step()
        opts = []
        unp = [t for t in self.queue if t.payload is None]
        inq = [t for t in self.queue if t.payload is not None]
        if unp and (self.kind == "mp" or len(inq) < self.n + 1):
            opts.append("pickle")
        idle = [w for w in range(self.n) if w not in self.running]
        if inq and idle:
            opts.append("start")
        if self.running:
            opts.append("finish")
        if not opts:
            return False
        o = opts[sim.choose(len(opts), "tick")]
        if o == "pickle":
            self._pickle(unp[0])
        elif o == "start":
            t = inq[0]
            self.queue.remove(t)
            w = idle[sim.choose(len(idle), "worker")]
            t.worker = w
            t.tries += 1
            t.end = sim.now + sim.duration("dur") * self.speed[w]
            self.running[w] = t
            sim.ev("start", t.id, w)
        else:
            w = min(self.running, key=lambda w: (self.running[w].end, w))
            self._finish(w)
        return True

    def _finish(self, w):
        sim = self.sim
        t = self.running.pop(w)
        sim.advance(t.end)
        f = sim.fault("worker.crash", task=t.id)
        if f is not None and f.get("when", "before") == "before":
            return self._crash(t, w)
        tf = None if f is not None else sim.fault("task", task=t.id)
        dup = sim.fault("task.dup", task=t.id)
        runs = 1 + (1 if dup is not None else 0)
        for _ in range(runs):
            if self.fork:
                blob = self.workers[w].run(t.payload, tf)
            else:
                blob = run_payload(self.kind, t.payload, tf)
        if f is not None:
            return self._crash(t, w)
        rf = sim.fault("result.lost", task=t.id)
        if rf is not None and self.kind == "ray":
            # the object store lost the result: task is re-executed
            self._requeue(t)
            return
        ok, r, where = loads(self.kind, blob)
        if where:
            sim.ev("raised", where)
        t.state = "done"
        sim.ev("done", t.id, w, ok)
        if ok:
            t.future.set_result(r)
        else:
            if self.kind == "ray" and isinstance(r, Exception):
                pass
            if not isinstance(r, Exception) and self.kind in ("mp",):
                # BaseException kills a multiprocessing worker
                return self._crash(t, w, already=True)
            t.future.set_exception(r)

    def _requeue(self, t):
        t.state = "queued"
        self.queue.append(t)
        self.sim.ev("requeue", t.id)

    def _crash(self, t, w, already=False):
        sim = self.sim
        sim.ev("crash", t.id, w)
        if self.fork and self.workers[w] is not None:
            self.workers[w].kill()
        if self.kind == "ray":
            if t.tries <= self.max_retries:
                self._requeue(t)
            else:
                t.state = "done"
                t.future.set_exception(WorkerCrashedError("worker died"))
            if self.fork:
                self.workers[w] = self._new_worker(w)
        elif self.kind == "mp":
            t.state = "lost"  # nobody will ever set this result
            sim.probes["mp_task_lost"] += 1
            if self.fork:
                self.workers[w] = self._new_worker(w)
        else:
            self.running[w] = t
            self._break("A process in the process pool was terminated abruptly")

    def _break(self, msg):
        self.broken = msg
        out = list(self.running.values()) + self.queue
        self.running.clear()
        self.queue = []
        for t in out:
            t.state = "done"
            t.future.set_exception(BrokenProcessPool(msg))
        self._kill_workers()

    def _drive(self, fut):
        """The client waits for fut"""
        while not fut.done():
            if not self._tick():
                raise SimDeadlock(
                    f"{self.kind} pool: the awaited result can never arrive"
                )

    def drain(self):
        while self._tick():
            pass

    def _kill_workers(self):
        for w in self.workers:
            if w is not None:
                w.kill()

    def terminate(self):
        """Drops all queued and running work"""
        self.closed = True
        self.queue = []
        self.running.clear()
        self._kill_workers()
        self.sim.ev("terminate", self.kind)

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self.closed:
            return
        f = self.sim.fault("pool.stop", kind=self.kind)
        if cancel_futures:
            for t in self.queue:
                t.future.cancel()
            self.queue = []
        if not wait and (self.queue or self.running):
            # the work continues after the return
            self.closed = True
            self.unfinished = True
            self.sim.ev("shutdown", self.kind, "nowait")
            return
        if self.broken is None:
            self.drain()
        self.closed = True
        self._kill_workers()
        self.sim.ev("shutdown", self.kind)
        if f is not None:
            raise make_exc(f.get("kind", "error"), "pool stop")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in fs)

    unfinished = False

    def leaked(self):
        return (not self.closed and self.broken is None) or self.unfinished


class WorkerCrashedError(RuntimeError):
    """ray.exceptions.WorkerCrashedError"""


class RayTaskError(RuntimeError):
    """ray.exceptions.RayTaskError"""


class SimMpPool(SimProcPool):
    """multiprocess.Pool"""

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        return self.submit(func, *args, **dict(kwds))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, iterable, chunksize=None):
        return [f.get() for f in [self.submit(func, x) for x in iterable]]

    def map_async(self, func, iterable, chunksize=None, **kw):
        pool = self
        fs = [self.submit(func, x) for x in iterable]

        class R:
            def get(self, timeout=None):
                return [f.get() for f in fs]

            def ready(self):
                return all(f.done() for f in fs)

            def wait(self, timeout=None):
                for f in fs:
                    pool._drive(f)

        return R()

    def starmap(self, func, iterable, chunksize=None):
        return [f.get() for f in [self.submit(func, *x) for x in iterable]]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    imap_unordered = imap

    def close(self):
        self.sim.ev("close", self.kind)
        self._closing = True

    def terminate(self):
        was = self.closed
        super().terminate()
        f = None if was else self.sim.fault("pool.stop", kind=self.kind)
        if f is not None:
            raise make_exc(f.get("kind", "error"), "pool stop")

    def join(self):
        if not self.closed:
            if not getattr(self, "_closing", False):
                raise ValueError("Pool is still running")
            if any(t.state == "lost" for t in self.tasks):
                raise SimDeadlock("join waits for a lost task")
            self.drain()
            self.closed = True
            self._kill_workers()

    def __exit__(self, *a):
        self.terminate()
        return False


class SimRay:
    """A stand-in for the ray module: one driver, isolated task workers"""

    class exceptions:
        WorkerCrashedError = WorkerCrashedError
        RayTaskError = RayTaskError

    def __init__(self, sim, fork=False, registry=None):
        self.sim = sim
        self.fork = fork
        self.pool = None
        self.registry = registry

    def init(self, num_cpus=None, **kw):
        if self.pool is not None:
            raise RuntimeError(
                "Maybe you called ray.init twice by accident? "
                "Call ray.shutdown() first."
            )
        self.pool = SimProcPool(
            self.sim, num_cpus, kind="ray", fork=self.fork, registry=self.registry
        )

    def is_initialized(self):
        return self.pool is not None

    def shutdown(self):
        if self.pool is not None:
            p = self.pool
            self.pool = None
            p.terminate()
            f = self.sim.fault("pool.stop", kind="ray")
            if f is not None:
                raise make_exc(f.get("kind", "error"), "pool stop")

    def remote(self, f):
        ray = self

        class RemoteFunction:
            def remote(self, *args, **kwargs):
                if ray.pool is None:
                    raise RuntimeError("ray is not initialised")
                return ray.pool.submit(f, *args, **kwargs)

        return RemoteFunction()

    def put(self, obj):
        f = SimFuture(self.pool)
        f.set_result(loads("ray", dumps("ray", obj)))
        return f

    def get(self, fut, timeout=None):
        if isinstance(fut, (list, tuple)):
            return [self.get(f) for f in fut]
        return fut.result()

    def wait(self, futs, num_returns=1, timeout=None):
        done = [f for f in futs if f.done()]
        while len(done) < num_returns:
            if not self.pool._tick():
                raise SimDeadlock("ray.wait")
            done = [f for f in futs if f.done()]
        return done, [f for f in futs if f not in done]


# -- thread pool -------------------------------------------------------------
class ThreadFuture(cf.Future):
    def __init__(self, pool):
        super().__init__()
        self._pool = pool

    def result(self, timeout=None):
        if not self.done():
            self._pool.baton.wait(self.done)
        return super().result(0)

    def exception(self, timeout=None):
        if not self.done():
            self._pool.baton.wait(self.done)
        return super().exception(0)


class SimThreadPool:
    """ThreadPoolExecutor on baton threads"""

    def __init__(self, sim, n, preempt=200, gaps=None, registry=None):
        f = sim.fault("pool.start", kind="threads")
        if f is not None:
            raise make_exc(f.get("kind", "emfile"), "can't start new thread")
        self.sim = sim
        self.n = max(1, int(n or 1))
        self.baton = Baton(sim, preempt=preempt, gaps=gaps)
        self.queue = []
        self.nworkers = 0
        self.idle = 0
        self.closed = False
        self.nt = 0
        self.registry = registry
        if registry is not None:
            registry.append(self)
        sim.ev("pool", "threads", self.n)

    def submit(self, fn, /, *args, **kwargs):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        sim = self.sim
        f = sim.fault("submit", kind="threads")
        if f is not None:
            raise make_exc(f.get("kind", "error"), "submit")
        fut = ThreadFuture(self)
        self.queue.append((self.nt, fn, args, kwargs, fut))
        sim.ev("submit", self.nt)
        self.nt += 1
        if self.idle == 0 and self.nworkers < self.n:
            i = self.nworkers
            self.nworkers += 1
            self.baton.spawn(f"w{i}", self._worker)
        if sim.choose(3, "submit-switch") == 0:
            self.baton.switch("submit")
        return fut

    def _worker(self):
        sim = self.sim
        while True:
            if not self.queue:
                if self.closed:
                    return
                self.idle += 1
                try:
                    self.baton.wait(lambda: self.queue or self.closed)
                finally:
                    self.idle -= 1
                if not self.queue:
                    return
            tid, fn, args, kwargs, fut = self.queue.pop(0)
            if not fut.set_running_or_notify_cancel():
                continue
            sim.ev("start", tid)
            tf = sim.fault("task", task=tid)
            if tf is not None and tf.get("at", -1) >= 0:
                me = self.baton.cur
                me.fault = [tf["at"] + 1, lambda: make_exc(tf.get("kind", "error")), None]
                ok, r, where = execute(fn, args, kwargs)
                if me.fault[2]:
                    sim.ev("raised", me.fault[2])
                me.fault = None
            else:
                ok, r, where = execute(fn, args, kwargs, tf)
            sim.ev("done", tid, ok)
            sim.advance(sim.now + 1e-3)
            if ok:
                fut.set_result(r)
            else:
                fut.set_exception(r)
            del fn, args, kwargs, r

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self.closed:
            return
        f = self.sim.fault("pool.stop", kind="threads")
        if cancel_futures:
            for q in self.queue:
                q[-1].cancel()
            self.queue = []
        self.closed = True
        if wait:
            self.baton.wait(lambda: self.baton.live == 0)
        self.baton._hook_off()
        self.sim.ev("shutdown", "threads")
        if f is not None:
            raise make_exc(f.get("kind", "error"), "pool stop")

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in fs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def leaked(self):
        return not self.closed or bool(self.queue) or self.baton.live > self.idle
