"""
Simulation kernel: one seed decides everything.

A :class:`Sim` owns
  * the stream of schedule choices (seeded PRNG, recorded; a replay feeds the
    recorded list back, an exhausted list yields 0),
  * the virtual clock,
  * the fault plan (explicit JSON list, so that it can be minimised),
  * the event log and its digest.

No other source of randomness may be used by anything that the simulated code
can observe.
"""

import hashlib
import random
from collections import Counter


class SimError(Exception):
    """Errors of the simulator itself (never a property violation)"""


class SimDeadlock(BaseException):
    """
    No actor can make progress: the simulated program hangs forever.

    Derives from BaseException, such that code under test does not swallow it.
    """


class StepLimit(BaseException):
    """The simulated run exceeded its step budget"""


class InjectedError(OSError):
    """Marker base class for injected errors that carry an errno"""


class InjectedRuntimeError(RuntimeError):
    """An injected task failure"""


class InjectedMemoryError(MemoryError):
    """An injected allocation failure"""


class InjectedInterrupt(KeyboardInterrupt):
    """An injected interrupt (ctrl-C)"""


DURATIONS = [1, 1, 2, 3, 5, 8, 21, 144]  # virtual milliseconds


class Sim:
    def __init__(self, seed, choices=None, faults=(), max_steps=400000):
        self.seed = seed
        self._rng = random.Random(f"sched-{seed}")
        self._replay = None if choices is None else list(choices)
        self._ri = 0
        self.choices = []
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f["_seen"] = 0
            f["_fired"] = 0
        self.counts = Counter()  # visits per injection point
        self.fired = Counter()  # fired faults per kind
        self.probes = Counter()  # rare conditions reached
        self._h = hashlib.sha256()
        self.nev = 0
        self.tail = []
        self._seq = 0
        self.switches = 0
        self.lead = 0
        self.focus = None

    # -- choices ----------------------------------------------------------
    def choose(self, n, tag=""):
        """Picks 0..n-1; the only source of schedule nondeterminism"""
        if n <= 1:
            return 0
        if self._replay is not None:
            if self._ri < len(self._replay):
                v = int(self._replay[self._ri]) % n
                self._ri += 1
            else:
                v = 0
        else:
            v = self._rng.randrange(n)
        self.choices.append(v)
        return v

    def pick(self, seq, tag=""):
        return seq[self.choose(len(seq), tag)]

    def duration(self, tag=""):
        return DURATIONS[self.choose(len(DURATIONS), tag)] * 1e-3

    # -- time and log -----------------------------------------------------
    def step(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise StepLimit(f"more than {self.max_steps} scheduler steps")

    def advance(self, t):
        if t > self.now:
            self.now = t

    def ev(self, kind, *info):
        """Logs an event. Never draws from the PRNG, never reads a clock"""
        self.nev += 1
        s = f"{kind}:{','.join(map(str, info))}"
        self._h.update(s.encode())
        self._h.update(b"\n")
        self.tail.append(s)
        if len(self.tail) > 400:
            del self.tail[:200]

    def digest(self):
        return self._h.hexdigest()[:16]

    # -- faults -----------------------------------------------------------
    def fault(self, point, **ctx):
        """
        An injection point is reached. Returns the fault dict that fires
        here, or None.
        """
        self.counts[point] += 1
        for f in self.faults:
            if f["point"] != point:
                continue
            m = f.get("match")
            if m is not None and any(
                str(ctx.get(k)) != str(v) for k, v in m.items()
            ):
                continue
            i = f["_seen"]
            f["_seen"] += 1
            nth = f.get("nth", 0)
            times = f.get("times", 1)
            if nth <= i < nth + times:
                f["_fired"] += 1
                self.fired[f"{point}/{f.get('kind', 'x')}"] += 1
                self.ev("FAULT", point, f.get("kind", ""), i)
                return f
        return None

    def planned(self, point):
        return [f for f in self.faults if f["point"] == point]

    def summary(self):
        return dict(
            digest=self.digest(),
            events=self.nev,
            steps=self.steps,
            simtime=round(self.now, 6),
            fired=dict(self.fired),
            probes=dict(self.probes),
            nchoices=len(self.choices),
            switches=self.switches,
        )


def make_exc(kind, msg="injected"):
    """Creates the exception object for an in-task fault"""
    if kind == "memory":
        return InjectedMemoryError(f"{msg}: cannot allocate memory")
    if kind == "interrupt":
        return InjectedInterrupt(msg)
    if kind in ("eio", "enospc", "emfile", "eacces"):
        import errno

        no = dict(
            eio=errno.EIO, enospc=errno.ENOSPC, emfile=errno.EMFILE, eacces=errno.EACCES
        )[kind]
        return InjectedError(no, f"{msg} {kind}")
    return InjectedRuntimeError(msg)
