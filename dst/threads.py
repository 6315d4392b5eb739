"""
Deterministic preemptive threads.

Real threads, exactly one of which runs at any time (the holder of the baton).
Switches happen
  * when the running actor blocks on a simulated future or finishes, and
  * at seed-chosen executed lines of foxes code (sys.monitoring LINE events),
and the actor that continues is chosen by Sim.choose.
"""

import os
import threading
import zlib

from . import lines
from .kernel import SimDeadlock

GAPS = [3, 7, 15, 40, 90, 200, 500, 1200, 3000, 8000]


class Actor:
    __slots__ = ("name", "sem", "thread", "cond", "done", "fn", "exc", "fault")

    def __init__(self, name, fn=None):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.cond = None  # None = runnable, else callable -> bool
        self.done = False
        self.fn = fn
        self.exc = None
        self.thread = None
        self.fault = None  # [lines left, exception factory, where]


class Baton:
    """
    The scheduler. `preempt` is the maximum number of preemptions per run;
    `gaps` the choices for the number of foxes lines between two of them.
    """

    def __init__(self, sim, preempt=200, gaps=None):
        self.sim = sim
        self.main = Actor("main")
        self.actors = [self.main]
        self.cur = self.main
        self.budget = preempt
        self.gaps = gaps or GAPS
        self.left = None
        self.lead = sim.lead  # lines before the first preemption
        self.live = 0  # started, unfinished worker actors
        self.hooked = False
        self.abort = False
        self.lines = 0
        # focused preemption: the functions of one of m classes are preempted at
        # each of their lines, for a limited number of times each
        self.focus = sim.focus
        self._fleft = {}
        self._main_ident = threading.get_ident()

    # -- preemption -------------------------------------------------------
    def _arm(self):
        if self.budget > 0:
            self.left = self.gaps[self.sim.choose(len(self.gaps), "gap")] + self.lead
            self.lead = 0
        else:
            self.left = None

    def _hook_on(self):
        if not self.hooked and not lines.active():
            lines.start(self._line)
            self.hooked = True
            self._arm()

    def _hook_off(self):
        if self.hooked:
            lines.stop()
            self.hooked = False

    def _line(self, code, line):
        a = self.cur
        if a.fault is not None and a.fault[0] > 0:
            a.fault[0] -= 1
            if a.fault[0] == 0:
                if code.co_name in ("<module>", "__del__"):
                    a.fault[0] = 1
                else:
                    a.fault[2] = f"{code.co_name}"
                    raise a.fault[1]()
        if self.focus is not None and self._focused(code, line):
            return
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        if code.co_name in ("<module>", "__del__"):
            self.left = 1
            return
        if threading.current_thread() is not self.cur.thread and not (
            self.cur is self.main and threading.get_ident() == self._main_ident
        ):
            return  # not one of ours (never expected)
        if len(self.runnable()) < 2:
            self.left = 25
            return
        self.budget -= 1
        self._arm()
        self.switch(f"{code.co_name}:{line}")

    def _focused(self, code, line):
        n = self._fleft.get(code)
        if n is None:
            m, k, b = self.focus
            h = zlib.crc32(f"{os.path.basename(code.co_filename)}:{code.co_qualname}".encode())
            ok = h % m == k and code.co_name not in ("<module>", "__del__")
            n = self._fleft[code] = b if ok else 0
        if n <= 0 or len(self.runnable()) < 2:
            return False
        if threading.get_ident() != (self.cur.thread.ident if self.cur.thread else self._main_ident):
            return False
        if self.sim.choose(4, "focus") == 0:
            return False
        self._fleft[code] = n - 1
        self.switch(f"{code.co_name}:{line}")
        return True

    # -- scheduling -------------------------------------------------------
    def spawn(self, name, fn):
        a = Actor(name, fn)
        a.thread = threading.Thread(target=self._body, args=(a,), daemon=True)
        self.actors.append(a)
        self.live += 1
        a.thread.start()
        self._hook_on()
        return a

    def _body(self, a):
        a.sem.acquire()
        try:
            if not self.abort:
                a.fn()
        except BaseException as e:  # noqa
            a.exc = e
        finally:
            a.done = True
            self.live -= 1
            if not self.abort:
                self._dispatch(a)

    def runnable(self):
        r = []
        for a in self.actors:
            if a.done:
                continue
            if a.cond is None or a.cond():
                r.append(a)
        return r

    def _dispatch(self, a):
        """Picks the next actor and hands over the baton"""
        self.sim.step()
        r = self.runnable()
        if not r:
            # deadlock: wake main with the news
            if a is self.main:
                raise SimDeadlock("no runnable thread")
            self.main.exc = SimDeadlock("no runnable thread")
            n = self.main
        else:
            n = r[self.sim.choose(len(r), "actor")]
        if n is a:
            return
        self.sim.switches += 1
        self.cur = n
        n.cond = None
        n.sem.release()
        if not a.done:
            a.sem.acquire()
            self._check(a)

    def _check(self, a):
        if a is self.main and isinstance(a.exc, SimDeadlock):
            e = a.exc
            a.exc = None
            raise e

    def switch(self, why=""):
        a = self.cur
        self.sim.ev("sw", a.name, why)
        self._dispatch(a)

    def wait(self, cond):
        """The current actor blocks until cond() holds"""
        a = self.cur
        while not cond():
            a.cond = cond
            self._dispatch(a)
        a.cond = None
        if self.live == 0:
            self._hook_off()

    def close(self):
        """Forget all workers (they must be finished or blocked for good)"""
        self.abort = True
        self._hook_off()
        for a in self.actors:
            if a is not self.main and not a.done:
                a.sem.release()
