"""
Random fault plans for the simulated platform
"""

import math

POOLS = dict(process="futures", mpi="mpi", multiprocess="mp", ray="ray", threads="threads")


def at_line(rng, top=60000):
    """Number of the executed foxes line, log uniform"""
    return int(math.exp(rng.uniform(0, math.log(top))))


def task_fault(rng, kind, ntasks, times=None, interrupts=True):
    kinds = ["error", "error", "memory", "eio"]
    if interrupts and kind != "multiprocess":
        # an interrupt kills a worker of multiprocessing.Pool
        kinds.append("interrupt")
    f = dict(point="task", kind=rng.choice(kinds), nth=rng.randrange(max(1, ntasks)))
    if rng.random() < 0.8:
        f["at"] = at_line(rng)
    if kind == "local_cluster":
        f["times"] = rng.choice([1, 1, 5, 60])
    if kind == "ray" and rng.random() < 0.3:
        f["times"] = 10
    return f


def gen_faults(rng, engine, ntasks=6):
    """A list of one or two faults that suit the engine, and a main thread fault"""
    kind = engine["kind"]
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        if kind in ("single", "numpy", "default"):
            break
        opts = ["task", "task", "task"]
        if kind in ("process", "mpi"):
            opts += ["crash", "crash", "submit", "broken", "start", "stop"]
        elif kind == "ray":
            opts += ["crash", "crash", "lost", "lost", "submit", "start"]
        elif kind in ("threads", "multiprocess"):
            opts += ["submit", "start"]
        elif kind == "local_cluster":
            opts += ["crash", "crash", "submit", "scatter", "start", "client"]
        o = rng.choice(opts)
        nth = rng.randrange(max(1, ntasks))
        if o == "task":
            f = task_fault(rng, kind, ntasks)
        elif o == "crash":
            f = dict(point="worker.crash", kind="crash", when=rng.choice(["before", "after"]), nth=nth)
            if rng.random() < 0.3:
                f["times"] = rng.choice([2, 3, 8])
        elif o == "lost":
            f = dict(point="result.lost", kind="lost", nth=nth, times=rng.choice([1, 2]))
        elif o == "submit":
            f = dict(point="submit", kind=rng.choice(["error", "memory", "eio"]), nth=nth)
        elif o == "broken":
            f = dict(point="submit", kind="broken", nth=nth)
        elif o == "scatter":
            f = dict(point="scatter", kind="error", nth=nth)
        elif o == "start":
            f = dict(point="pool.start", kind=rng.choice(["emfile", "memory", "error"]))
        elif o == "client":
            f = dict(point="client.start", kind="error")
        elif o == "stop":
            f = dict(point="pool.stop", kind="error")
        out.append(f)
    if not out or (kind == "default" and rng.random() < 0.6) or rng.random() < 0.15:
        out.append(main_fault(rng))
    return out


def main_fault(rng, top=150000):
    return dict(
        point="main",
        kind=rng.choice(["error", "error", "memory", "interrupt", "eio"]),
        at=at_line(rng, top),
    )
