"""
One worker process: runs cases of one check. The cases with even index run with
hash seed 0, those with odd index with another one; the workers of each kind take
their next case from a common counter, so what a case does is independent of the
number of workers and their speed.

usage: python -m dst.worker CHECK TIER SEED K N_WORKERS OUT CAP N
"""

import json
import os
import random
import signal
import sys
import tempfile
import time

from . import casefork
from .casefork import run_case

RETRY = 2


def indices(path, parity, n):
    """The next indices to be processed, from a counter shared by workers"""
    import fcntl

    while True:
        fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX)
            j = int(os.read(fd, 32) or b"0")
            os.lseek(fd, 0, os.SEEK_SET)
            os.write(fd, str(j + 1).encode())
        finally:
            os.close(fd)
        if 2 * j + parity >= n:
            return
        yield 2 * j + parity


def load(cid):
    import importlib

    return importlib.import_module(f"dst.checks.{cid.lower()}").CHECK


def preload():
    import foxes  # noqa
    import foxes.output  # noqa
    import foxes.engines.dask as fd
    import dask  # noqa
    import distributed  # noqa

    if fd.dask is None:
        fd.load_dask()


def end(signum, frame):
    raise SystemExit(0)


def main():
    cid, tier, seed, k, nw, out, cap, n = sys.argv[1:9]
    seed, k, nw, n = int(seed), int(k), int(nw), int(n)
    cap = float(cap)
    t0 = time.monotonic()
    signal.signal(signal.SIGTERM, end)
    check = load(cid)
    preload()
    if hasattr(check, "warmup"):
        check.warmup()
    root = tempfile.mkdtemp(prefix=f"dst_{cid}_{k}_")
    stop = os.path.join(os.path.dirname(out), "stop")
    try:
        with open(out, "w") as f:
            for i in indices(os.path.join(os.path.dirname(out), f"next{k % 2}"), k % 2, n):
                if time.monotonic() - t0 > cap or os.path.exists(stop):
                    break
                try:
                    spec = check.gen(random.Random(f"{cid}-{seed}-{i}"), tier, i)
                except Exception as e:
                    import traceback

                    res = dict(
                        status=casefork.HARNESS, msg=f"gen: {e}", tb=traceback.format_exc()
                    )
                    f.write(json.dumps(dict(i=i, spec={}, res=res)) + "\n")
                    f.flush()
                    continue
                res = run_case(check, spec, root=root)
                if res["status"] == casefork.TIMEOUT:
                    # a slow machine or a hang? try again, with more time
                    res = run_case(check, spec, timeout=RETRY * check.TIMEOUT, root=root)
                    if res["status"] == casefork.TIMEOUT:
                        res = dict(
                            status=casefork.VIOLATION,
                            cls="hang",
                            msg=f"no answer within {RETRY * check.TIMEOUT} s",
                        )
                if res["status"] == "violation":
                    pass
                else:
                    res.pop("choices", None)
                    res.pop("trace", None)
                f.write(json.dumps(dict(i=i, spec=spec, res=res)) + "\n")
                f.flush()
    finally:
        import shutil

        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
