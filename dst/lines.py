"""
Line-granular hooks into the code under test, via sys.monitoring (PEP 669).

One tool, shared by the fault injector (raise at the n-th executed foxes line)
and by the preemptive thread scheduler (switch at a foxes line). Only code
objects from the foxes package produce events; everything else is disabled at
the first event.
"""

import contextlib
import os
import sys
import threading

mon = sys.monitoring
TOOL = 3
# loops over sets of classes, whose order depends on memory addresses
UNORDERED = os.sep + "subclasses.py"
_state = dict(active=False, root=None, cb=None, worker=0)


def foxes_root():
    if _state["root"] is None:
        import foxes

        _state["root"] = os.path.dirname(os.path.abspath(foxes.__file__)) + os.sep
    return _state["root"]


def _on_line(code, line):
    fn = code.co_filename
    if not fn.startswith(_state["root"]) or fn.endswith(UNORDERED):
        return mon.DISABLE
    cb = _state["cb"]
    if cb is not None:
        cb(code, line)


def start(cb):
    """Starts calling cb(code, line) for each executed foxes line"""
    foxes_root()
    if _state["active"]:
        raise RuntimeError("line hook already active")
    _state["cb"] = cb
    _state["active"] = True
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    mon.restart_events()
    mon.set_events(TOOL, mon.events.LINE)


def stop():
    if _state["active"]:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        _state["cb"] = None
        _state["active"] = False


def active():
    return _state["active"]


@contextlib.contextmanager
def in_worker():
    """Marks the execution of a task that would be in another process"""
    _state["worker"] += 1
    try:
        yield
    finally:
        _state["worker"] -= 1


class Counter:
    """Counts executed foxes lines"""

    def __init__(self):
        self.n = 0

    def __call__(self, code, line):
        self.n += 1

    def __enter__(self):
        start(self)
        return self

    def __exit__(self, *a):
        stop()


class RaiseAt:
    """Raises an exception at the n-th executed foxes line (once)"""

    def __init__(self, n, make, main=False, skip=()):
        """
        main: count only lines of this thread, and none of simulated workers
        skip: base names of files that do not count
        """
        self.skip = skip
        self.left = n
        self.make = make
        self.fired = False
        self.where = None
        self.ident = threading.get_ident() if main else None

    def __call__(self, code, line):
        if self.fired:
            return
        if self.ident is not None and (
            _state["worker"] or threading.get_ident() != self.ident
        ):
            return
        if self.skip and os.path.basename(code.co_filename) in self.skip:
            return
        self.left -= 1
        if self.left <= 0:
            # never interrupt interpreter-internal clean-up, its exceptions
            # are swallowed (unraisable)
            if code.co_name in ("__del__", "<module>"):
                return
            self.fired = True
            self.where = f"{os.path.basename(code.co_filename)}:{code.co_name}"
            raise self.make()

    def __enter__(self):
        start(self)
        return self

    def __exit__(self, *a):
        stop()
