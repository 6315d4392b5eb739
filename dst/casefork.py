"""
Executes one case in a forked child, with time limit and private scratch
directory. The child's answer is a JSON dict.
"""

import json
import os
import select
import shutil
import signal
import tempfile
import time
import traceback

OK, SKIP, VIOLATION, HARNESS, TIMEOUT = "ok", "skip", "violation", "harness", "timeout"


class Skip(Exception):
    """The case cannot be judged, e.g. foxes does not support the input"""


class Violation(Exception):
    """The property is violated"""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Ctx:
    """What a case may use"""

    def __init__(self, spec, scratch):
        self.spec = spec
        self.scratch = scratch
        self.main = None
        self.cov = {}
        self.evals = 0
        self.aux = []

    def sim(self, faults=None, main=True, max_steps=400000, tag=""):
        """The simulator; main=False: auxiliary run with its own stream"""
        from .kernel import Sim

        s = self.spec
        if main:
            assert self.main is None
            self.main = Sim(
                s["seed"],
                choices=s.get("choices"),
                faults=s.get("faults", ()) if faults is None else faults,
                max_steps=max_steps,
            )
            return self.main
        a = Sim(f"{s['seed']}-{tag}", faults=faults or (), max_steps=max_steps)
        self.aux.append(a)
        return a

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, cls, msg):
        raise Violation(cls, msg)

    def skip(self, msg=""):
        raise Skip(msg)


def _child(check, spec, scratch, wfd):
    from . import daskshim
    from .kernel import SimDeadlock, StepLimit

    daskshim.number_tokens()
    import random

    import numpy as np

    random.seed(spec.get("seed", 0))
    np.random.seed(spec.get("seed", 0) % (1 << 32))
    ctx = Ctx(spec, scratch)
    res = dict(status=OK)
    t0 = time.perf_counter()
    try:
        check.run(spec, ctx)
    except Violation as v:
        res = dict(status=VIOLATION, cls=v.cls, msg=str(v.msg)[:2000])
    except Skip as e:
        res = dict(status=SKIP, msg=str(e)[:300])
    except SimDeadlock as e:
        res = dict(status=VIOLATION, cls="hang", msg=f"deadlock: {e}"[:500])
    except StepLimit as e:
        res = dict(status=VIOLATION, cls="hang", msg=f"no progress: {e}"[:500])
    except BaseException as e:  # noqa
        res = dict(
            status=HARNESS,
            msg=f"{type(e).__name__}: {e}"[:500],
            tb=traceback.format_exc()[-4000:],
        )
    res["wall"] = time.perf_counter() - t0
    res["cov"] = ctx.cov
    res["evals"] = ctx.evals
    sims = ([ctx.main] if ctx.main is not None else []) + ctx.aux
    if ctx.main is not None:
        res["sim"] = ctx.main.summary()
        res["choices"] = ctx.main.choices
        res["trace"] = ctx.main.tail[-60:]
    res["simtime"] = sum(s.now for s in sims)
    res["steps"] = sum(s.steps for s in sims)
    fired, probes = {}, {}
    for s in sims:
        for k, v in s.fired.items():
            fired[k] = fired.get(k, 0) + v
        for k, v in s.probes.items():
            probes[k] = probes.get(k, 0) + v
    res["fired"] = fired
    res["probes"] = probes
    b = json.dumps(res, default=str).encode()
    v = memoryview(b)
    while len(v):
        n = os.write(wfd, v)
        v = v[n:]


def run_case(check, spec, timeout=None, root=None):
    """Forks, runs, returns the result dict"""
    timeout = timeout or check.TIMEOUT
    scratch = tempfile.mkdtemp(prefix="c", dir=root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            os.close(r)
            fd = os.open(
                os.path.join(scratch, "_out.txt"), os.O_WRONLY | os.O_CREAT | os.O_APPEND
            )
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.chdir(scratch)
            _child(check, spec, scratch, w)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    timed = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                timed = True
                break
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
    finally:
        os.close(r)
        for sig_to in (-pid, pid):
            try:
                os.kill(sig_to, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    try:
        _, st = os.waitpid(pid, 0)
    except ChildProcessError:
        st = 0
    tail = ""
    try:
        with open(os.path.join(scratch, "_out.txt"), errors="replace") as f:
            tail = f.read()[-1500:]
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timed:
        return dict(status=TIMEOUT, msg=f"no answer within {timeout} s", out=tail)
    try:
        res = json.loads(bytes(buf))
    except ValueError:
        return dict(status=HARNESS, msg=f"child died, status {st}", out=tail)
    if res["status"] == HARNESS:
        res["out"] = tail
    return res
