"""
Shared steps of the checks: reference calculations on the real single chunk
engine, candidate calculations on the simulated platform.
"""

import contextlib
import copy
import random
import warnings

import numpy as np
import pandas as pd

import foxes

from . import refs, seams, worlds
from .kernel import SimDeadlock, StepLimit

RTOL, ATOL = 1e-7, 1e-7
# iterations stop at differences of 1e-6 (REWS) and 1e-7 (CT, TI)
RTOL_IT, ATOL_IT = 1e-5, 1e-5


def tols(w):
    return (RTOL_IT, ATOL_IT) if w["algo"] == "Iterative" else (RTOL, ATOL)


class Outcome:
    """Result or exception of one calculation"""

    def __init__(self, res=None, exc=None):
        self.res = res
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def show(self):
        if self.ok:
            return "ok"
        return f"{type(self.exc).__name__}: {str(self.exc)[:200]}"


def attempt(fn, *a, **k):
    """Runs, keeps simulator verdicts, captures everything else"""
    try:
        return Outcome(res=fn(*a, **k))
    except (SimDeadlock, StepLimit):
        raise
    except BaseException as e:  # noqa
        from .casefork import Skip, Violation

        if isinstance(e, (Skip, Violation)):
            raise
        return Outcome(exc=e)


@contextlib.contextmanager
def single():
    """The real single chunk engine"""

    seams.reset_global_engine()
    e = foxes.Engine.new("single", verbosity=0)
    e.initialize()
    try:
        yield e
    finally:
        try:
            e.finalize()
        finally:
            seams.reset_global_engine()


def calc_farm(world, spec=None, **over):
    w = world.w
    kw = {}
    if w.get("ambient"):
        kw["ambient"] = True
    if w.get("outputs"):
        kw["outputs"] = w["outputs"]
    if w.get("normalize"):
        kw["normalize"] = True
    kw.update(over)
    a = world.algo()
    r = a.calc_farm(**kw)
    return a, r


def ref_farm(w, scratch, points=None, pkw=None):
    """Reference farm (and points) results, from private objects"""

    def run():
        W = worlds.World(w, scratch)
        with single():
            a, r = calc_farm(W)
            out = dict(farm=refs.to_plain(r))
            if points is not None:
                out["points"] = refs.to_plain(
                    calc_points(a, r, w, points, **(pkw or {}))
                )
        return out

    return attempt(run)


def ref_points_array(w, p, n_states=None):
    p = dict(p)
    p["n_states"] = n_states or worlds.true_n_states(w)
    return worlds.make_points(p)


def calc_points(algo, farm_results, w, p, n_states=None, **over):
    kw = {}
    if w.get("ambient"):
        kw["ambient"] = True
    if p.get("outputs"):
        kw["outputs"] = list(p["outputs"])
    if p.get("pmodels"):
        kw["point_models"] = point_models(p["pmodels"], worlds.true_n_states(w))
    n = worlds.true_n_states(w)
    if p.get("isel"):
        i = [j for j in p["isel"] if j < n] or [0]
        kw["states_isel"] = i
        n_states = n_states or len(i)
    pts = ref_points_array(w, p, n_states)
    kw.update(over)
    return algo.calc_points(farm_results, pts, **kw)


def engine_scope(spec, plat):
    """Context: engine of the spec on the platform, active"""
    return seams.make_engine(spec, plat)


def point_models(specs, n_states):
    """The additional point models of a points spec, as fresh objects"""
    out = []
    for m in specs:
        if isinstance(m, str):
            out.append(m)
        elif "deltas" in m:
            out.append(
                foxes.models.point_models.WakeDeltas(
                    list(m["deltas"]), normalize=m.get("norm", False)
                )
            )
        elif "table" in m:
            r = np.random.RandomState(m["seed"])
            df = pd.DataFrame({f"c_{v}": r.uniform(1, 2, n_states) for v in m["table"]})
            out.append(
                foxes.models.point_models.SetUniformData(
                    df,
                    output_vars=list(m["table"]),
                    var2col={v: f"c_{v}" for v in m["table"]},
                )
            )
        else:
            out.append(
                foxes.models.point_models.SetUniformData(
                    dict(m["uni"]), output_vars=list(m["uni"])
                )
            )
    return out


def gen_pmodels(seed):
    """Additional point models, from a stream of their own"""
    r = random.Random(seed)
    out = []
    if r.random() < 0.5:
        # a friction velocity that depends on the state, and the TI from it
        out.append({"table": ["USTAR", "Z0"], "seed": r.randrange(1 << 30)})
        if r.random() < 0.6:
            out.append("ustar2ti")
    elif r.random() < 0.6:
        out.append({"uni": {"TKE": round(r.uniform(0.3, 2), 3)}})
        if r.random() < 0.6:
            out.append("tke2ti")
    if not out or r.random() < 0.5:
        out.append(
            {
                "deltas": r.choice([["WS"], ["WS", "TI"], ["TI"]]),
                "norm": r.random() < 0.4,
            }
        )
    return out


def gen_points(rng, w, nmax=12, pmodels=False):
    n = worlds.true_n_states(w)
    p = dict(
        n=rng.randint(1, nmax), seed=rng.randrange(1 << 30), vary=rng.random() < 0.4
    )
    if rng.random() < 0.25 and w["states"] != "wrg":
        p["outputs"] = rng.choice(
            [["WS"], ["WS", "TI"], ["AMB_WS", "WS", "WD"], ["WD", "AMB_TI", "RHO"]]
        )
    if rng.random() < 0.15:
        k = rng.randint(1, n)
        p["isel"] = sorted(rng.sample(range(n), k))
    if pmodels and p["seed"] % 4 == 0 and "outputs" not in p and w["states"] != "wrg":
        p["pmodels"] = gen_pmodels(p["seed"])
    return p


def short(diffs, n=4):
    return "; ".join(diffs[:n]) + (f" (+{len(diffs) - n} more)" if len(diffs) > n else "")


def calc_farm_with(algo, w):
    """Farm calculation of a given algorithm object, as the world wants it"""
    kw = {}
    if w.get("ambient"):
        kw["ambient"] = True
    if w.get("outputs"):
        kw["outputs"] = w["outputs"]
    if w.get("normalize"):
        kw["normalize"] = True
    return algo.calc_farm(**kw)
