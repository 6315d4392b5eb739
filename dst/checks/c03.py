"""C03: a lost or failed task never leads to silently wrong or partial results"""

import contextlib

from .. import common, faults, lines, refs, seams, worlds
from ..kernel import make_exc
from .c01 import OUTPUTS


@contextlib.contextmanager
def main_line_fault(sim, plan):
    """Raises in the calling thread at the n-th executed foxes line"""
    f = next((f for f in plan if f["point"] == "main"), None)
    if f is None:
        yield None
        return
    with lines.RaiseAt(f["at"] + 1, lambda: make_exc(f["kind"]), main=True) as ra:
        try:
            yield ra
        finally:
            if ra.fired:
                sim.fired[f"main/{f['kind']}"] += 1
                sim.ev("FAULT", "main", f["kind"], ra.where)


class C03:
    ID = "C03"
    N = dict(quick=700, thorough=40000)
    TIMEOUT = 60
    RULE = (
        "a random world, farm and point calculation on a random engine of the simulated platform, "
        "with one or two faults (task errors at a line, worker crashes, lost results, failing starts, submissions, scatters "
        "and shutdowns, errors in the main thread); non-trivial: at least one fault has fired"
    )

    def gen(self, rng, tier, i):
        w = worlds.gen_world(rng, algo="Iterative" if rng.random() < 0.15 else "Downwind", nmax=9, nmin=2)
        w["n_turbines"] = min(w["n_turbines"], 4)
        if rng.random() < 0.1:
            w["outputs"] = rng.choice(OUTPUTS)
        n = worlds.true_n_states(w)
        p = common.gen_points(rng, w, nmax=10)
        p["vary"] = p["vary"] and not p.get("isel")
        if w["frame"].startswith(("dyn_wakes", "timelines")) or rng.random() < 0.5 or w.get("outputs"):
            p = None
        kinds = [k for k in seams.ALL_KINDS if k != "single"] + ["process", "ray", "local_cluster"]
        e = seams.gen_engine(rng, kinds=kinds, n_states=n, n_points=p["n"] if p else 0)
        nt = max(2, n // (e.get("css") or n))
        return dict(
            seed=rng.randrange(1 << 40),
            world=w,
            points=p,
            engine=e,
            platform=seams.gen_platform(rng),
            faults=faults.gen_faults(rng, e, ntasks=2 * nt),
        )

    def run(self, spec, ctx):
        w, p = spec["world"], spec["points"]
        ref = common.ref_farm({k: v for k, v in w.items() if k != "outputs"}, ctx.scratch, points=p)
        if not ref.ok:
            ctx.skip("reference: " + ref.show()[:80])
        sim = ctx.sim()
        plat = seams.Platform(sim, spec["platform"])
        got = {}

        def go():
            W = worlds.World(w, ctx.scratch)
            with main_line_fault(sim, spec["faults"]):
                with seams.make_engine(spec["engine"], plat):
                    a, r = common.calc_farm(W)
                    got["farm"] = refs.to_plain(r)
                    if p is not None:
                        got["points"] = refs.to_plain(common.calc_points(a, r, w, p))
            got["end"] = True

        with seams.installed(plat):
            res = common.attempt(go)
        seams.reset_global_engine()
        ctx.evals += 1
        ctx.count("engine_" + spec["engine"]["kind"])
        ctx.count("error" if not res.ok else "result")
        if sum(sim.fired.values()):
            ctx.count("nontrivial")
            ctx.count("fired_error" if not res.ok else "fired_result")
        want = dict(farm=ref.res["farm"], points=ref.res.get("points"))
        if w.get("outputs"):
            full = want["farm"]
            hv = set(w["outputs"] + ["tname"]).intersection(full["vars"])
            want["farm"] = dict(full, vars={v: full["vars"][v] for v in full["vars"] if v in hv})
        if res.ok and "end" not in got:
            ctx.violation("swallowed", f"engine {spec['engine']}: an error was suppressed, faults {spec['faults']}")
        for k in ("farm", "points"):
            if k in got:
                d = refs.compare(want[k], got[k], *common.tols(w))
                if d:
                    ctx.violation(
                        "differs", f"{k} results of engine {spec['engine']} with faults {dict(sim.fired)}: " + common.short(d)
                    )
        if not res.ok and not sum(sim.fired.values()):
            ctx.violation("raises", f"engine {spec['engine']} fails without a fault: {res.show()}")


CHECK = C03()
