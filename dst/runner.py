"""
Runs one check: python -m dst.runner CHECK [--tier quick|thorough] [--seed N]

exit 0: the property held on everything explored
exit 1: VIOLATION line
exit 2: error of the check
"""

import argparse
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NW = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
NW = max(2, NW)


def child_env(hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    for k in (
        "OMP_NUM_THREADS",
        "OPENBLAS_NUM_THREADS",
        "MKL_NUM_THREADS",
        "NUMEXPR_NUM_THREADS",
    ):
        env[k] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["MPLBACKEND"] = "Agg"
    env["PYTHONPATH"] = VERIF + os.pathsep + REPO + os.pathsep + env.get("PYTHONPATH", "")
    env["PYTHONWARNINGS"] = "ignore"
    env["DASK_DISTRIBUTED__DIAGNOSTICS__NVML"] = "False"
    return env


REPO = os.environ.get("DST_REPO", "/repo")


def hash_seed(k, seed):
    return 0 if k % 2 == 0 else (1000 + 17 * seed) % 4294967295


def known_findings(cid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("findings", []) if x["property"] == cid]


def get_path(d, path):
    for k in path.split("."):
        if not isinstance(d, dict):
            return None
        d = d.get(k)
    return d


def is_known(finding, spec, res):
    if res.get("cls") != finding["cls"]:
        return False
    if not re.search(finding.get("msg", ""), res.get("msg", "")):
        return False
    for path, val in finding.get("where", {}).items():
        got = get_path(spec, path)
        if isinstance(val, list):
            if got not in val:
                return False
        elif got != val:
            return False
    return True


def is_slow(res):
    return res.get("cls") == "hang" and "no answer" in res.get("msg", "")


def spec_hash(spec):
    s = {k: v for k, v in spec.items() if k not in ("seed", "choices")}
    return hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:12]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--deadline", type=float, help="seconds after which an answer is given")
    a = ap.parse_args()
    cid = a.check.upper()
    t0 = time.time()

    os.environ.update(child_env(0))
    sys.path.insert(0, VERIF)
    from dst.worker import load

    check = load(cid)
    n = a.n or check.N[a.tier]
    cap = a.cap or (check.CAP[a.tier] if hasattr(check, "CAP") else {"quick": 240, "thorough": 3000}[a.tier])
    tmp = tempfile.mkdtemp(prefix=f"dst_run_{cid}_")
    try:
        return _main(check, cid, a, n, cap, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(check, cid, a, n, cap, tmp, t0):
    from dst.casefork import run_case
    from dst.minimise import minimise
    from dst.worker import RETRY, preload

    procs, outs = [], []
    for k in range(NW):
        out = os.path.join(tmp, f"w{k}.jsonl")
        outs.append(out)
        procs.append(
            subprocess.Popen(
                [sys.executable, "-m", "dst.worker", cid, a.tier, str(a.seed), str(k), str(NW), out, str(cap), str(n)],
                env=child_env(hash_seed(k, a.seed)),
                cwd=tmp,
                stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(tmp, f"w{k}.err"), "w"),
            )
        )
    # the time by which the search, and by which the whole run has to end
    deadline = t0 + (a.deadline or {"quick": 780}.get(a.tier, 10 * cap))
    hard = min(t0 + cap + 3 * (RETRY + 1) * check.TIMEOUT, t0 + 0.7 * (deadline - t0))
    t_seen, killed = None, []
    kf = known_findings(cid)
    rows, pos = [], [0] * NW
    seen_violation = False
    stop = os.path.join(tmp, "stop")

    def poll():
        nonlocal seen_violation
        for k, out in enumerate(outs):
            if not os.path.exists(out):
                continue
            with open(out) as f:
                f.seek(pos[k])
                for line in f:
                    if not line.endswith("\n"):
                        break
                    pos[k] += len(line.encode())
                    r = json.loads(line)
                    r["k"] = k
                    rows.append(r)
                    if r["res"]["status"] == "violation" and not any(
                        is_known(x, r["spec"], r["res"]) for x in kf
                    ):
                        seen_violation = True

    # probes of the known findings, meanwhile
    kf_lines, probe_rows = [], []
    if kf:
        preload()
        if hasattr(check, "warmup"):
            check.warmup()
        for x in kf:
            res = run_case(check, x["probe"], root=tmp)
            probe_rows.append((x, res))
            if res["status"] == "violation":
                if is_known(x, x["probe"], res):
                    kf_lines.append(f"KNOWN-FINDING: property={cid} {x['what']}")
                else:
                    rows.append(dict(i=-1, k=0, spec=x["probe"], res=res))
                    seen_violation = True
    while True:
        alive = [p for p in procs if p.poll() is None]
        poll()
        if seen_violation and not os.path.exists(stop):
            open(stop, "w").close()
            t_seen = time.time()
        if not alive:
            break
        if time.time() > (hard if t_seen is None else min(hard, t_seen + 30)):
            # what still runs is not needed, or takes too long
            for p in alive:
                p.terminate()
                killed.append(p)
            for p in alive:
                p.wait()
            break
        time.sleep(0.2)
    poll()
    for l in kf_lines:
        print(l)
    bad_workers = [k for k, p in enumerate(procs) if p.returncode != 0 and p not in killed]
    if killed and not seen_violation:
        bad_workers += [k for k, p in enumerate(procs) if p in killed]
    rows.sort(key=lambda r: r["i"])

    # -- aggregate --------------------------------------------------------
    status = Counter(r["res"]["status"] for r in rows)
    cov, fired, probes, skips = Counter(), Counter(), Counter(), Counter()
    simtime, steps, evals, sw = 0.0, 0, 0, 0
    sched, nontriv, samples, known = set(), set(), [], Counter()
    viol, walls = [], []
    for r in rows:
        s = r["res"]
        for key, v in (s.get("cov") or {}).items():
            if isinstance(v, (int, float)):
                cov[key] += v
        fired.update(s.get("fired") or {})
        probes.update(s.get("probes") or {})
        simtime += s.get("simtime", 0)
        walls.append((round(s.get("wall", 0), 1), r["i"]))
        steps += s.get("steps", 0)
        evals += max(1, s.get("evals", 0))
        sm = s.get("sim") or {}
        sw += sm.get("switches", 0)
        if sm:
            sched.add(sm["digest"])
        if s["status"] == "ok" and (s.get("cov") or {}).get("nontrivial"):
            nontriv.add((spec_hash(r["spec"]), sm.get("digest")))
            if len(samples) < 3:
                samples.append(dict(spec=r["spec"], sim=sm, cov=s.get("cov")))
        if s["status"] == "skip":
            skips[s.get("msg", "")[:100]] += 1
        if s["status"] == "violation":
            m = [x for x in kf if is_known(x, r["spec"], s)]
            if m:
                known[m[0]["id"]] += 1
            else:
                viol.append(r)
    wall_search = time.time() - t0
    harness = [r for r in rows if r["res"]["status"] in ("harness", "timeout")]

    # -- report -----------------------------------------------------------
    code, replay = 0, None
    unrep = []
    if viol:
        preload()
        if hasattr(check, "warmup"):
            check.warmup()
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        # those that end first, those without an answer last
        viol.sort(key=lambda r: (is_slow(r["res"]), r["i"]))
        for r in viol[:4]:
            spec, res, nmin = dict(r["spec"]), r["res"], 0
            hs = hash_seed(r["k"], a.seed)
            cands = []
            left = deadline - time.time()
            if not a.no_min and not is_slow(res) and left > 150:
                mspec, mres, nmin = minimise(
                    check, spec, res, budget=min(60 if a.tier == "quick" else 240, left / 3), root=tmp
                )
                if nmin:
                    cands.append((mspec, mres))
            cands.append((spec, res))
            for cs, cr in cands:
                cs = dict(cs)
                rep = dict(
                    property=cid,
                    spec=cs,
                    hashseed=hs,
                    violation=dict(
                        cls=cr["cls"],
                        msg=cr["msg"],
                        digest=(cr.get("sim") or {}).get("digest"),
                    ),
                    trace=cr.get("trace", []),
                    found=dict(seed=a.seed, index=r["i"], tier=a.tier, shrink_runs=nmin),
                    original=dict(spec=spec, msg=res["msg"]),
                )
                h = hashlib.sha256(json.dumps(rep["spec"], sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(rdir, f"{cid}-{h}.json")
                with open(path, "w") as f:
                    json.dump(rep, f, indent=1)
                ok = False
                for h2 in (hs, 0):
                    if is_slow(res) and deadline - time.time() < 2.2 * RETRY * check.TIMEOUT:
                        # two runs without an answer, no time for a third one
                        ok = True
                        break
                    try:
                        p = subprocess.run(
                            [sys.executable, "-m", "dst.replay", path],
                            env=child_env(h2),
                            cwd=tmp,
                            stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL,
                            timeout=max(20, deadline - time.time()),
                        )
                    except subprocess.TimeoutExpired:
                        continue
                    if p.returncode == 1 and b"same class: True" in p.stdout:
                        rep["hashseed"] = h2
                        rep["replay_digest_equal"] = b"same digest: True" in p.stdout
                        with open(path, "w") as f:
                            json.dump(rep, f, indent=1)
                        ok = True
                        break
                if ok:
                    replay = path
                    print(f"[{cid}] {cr['cls']}: {cr['msg'][:600]}")
                    print(f"[{cid}] found with seed {a.seed} case {r['i']}; replay: {VERIF}/bin/replay {path}")
                    break
                os.unlink(path)
            if replay:
                break
            unrep.append(dict(i=r["i"], cls=res["cls"], msg=res["msg"][:300], spec=r["spec"]))
        if replay:
            code = 1
        else:
            # a failure that no fresh process reproduces is a defect of the
            # simulation, not an answer
            code = 2
            print(f"[{cid}] unreproducible: {json.dumps(unrep)[:3000]}")
    elif bad_workers:
        code = 2
        for k in bad_workers:
            print(f"[{cid}] worker {k} failed:")
            print(open(os.path.join(tmp, f"w{k}.err")).read()[-1500:])
    elif harness:
        code = 2
        r = harness[0]
        print(f"[{cid}] {len(harness)} harness errors, first: case {r['i']}: {r['res'].get('msg')}")
        print(r["res"].get("tb", "")[-2500:])
        print(r["res"].get("out", "")[-500:])
        print(json.dumps(r["spec"]))
    elif not rows or status.get("ok", 0) == 0:
        code = 2
        print(f"[{cid}] no case was judged: {dict(status)} {skips.most_common(3)}")

    # the same cases again, in another process: the event logs have to be equal
    determ = dict(cases=0, equal=0, differ=[])
    if code == 0:
        preload()
        if hasattr(check, "warmup"):
            check.warmup()
        end = time.time() + min(15, max(0, deadline - time.time()) / 4)
        good = [r for r in rows if r["i"] >= 0 and r["i"] % 2 == 0 and r["res"]["status"] == "ok" and r["res"].get("sim") and r["res"].get("wall", 9) < 3]
        for r in good[:: max(1, len(good) // 12)][:12]:
            if time.time() > end:
                break
            again = run_case(check, r["spec"], root=tmp)
            determ["cases"] += 1
            if (again.get("sim") or {}).get("digest") == r["res"]["sim"]["digest"] and again["status"] == "ok":
                determ["equal"] += 1
            else:
                determ["differ"].append(r["i"])

    wall = time.time() - t0
    hrs = max(wall_search, 1e-9) / 3600.0
    ev = dict(
        property=cid,
        tier=a.tier,
        seed=a.seed,
        level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(nontriv),
            rule=check.RULE,
            samples=samples or [dict(note="no non-trivial sample")],
            cases=len(rows),
            cases_planned=n,
            status=dict(status),
            skip_reasons=dict(skips.most_common(8)),
            simulated_runs_per_hour=round(evals / hrs),
            seeds_per_hour=round(len(rows) / hrs),
            simulated_time_s=round(simtime, 3),
            scheduler_steps=steps,
            thread_switches=sw,
            faults_fired=dict(fired),
            probes=dict(probes),
            distinct_schedules=len(sched),
            distinct_measure="sha256 digest of the complete event log (submissions, starts, completions, preemption points, faults) of a simulated run",
            counters=dict(cov),
            determinism=dict(determ, what="cases executed again by another process, with equal event digests"),
            real_components=getattr(check, "REAL", REAL_DEFAULT),
            stubbed_components=getattr(check, "STUB", STUB_DEFAULT),
            known_findings_seen=dict(known),
            known_finding_probes=[dict(id=x["id"], status=r["status"], msg=r.get("msg", "")[:200]) for x, r in probe_rows],
            workers=NW,
            slowest_cases=[dict(wall_s=x, case=i) for x, i in sorted(walls)[-4:]],
            hash_seeds=sorted({hash_seed(k, a.seed) for k in range(NW)}),
        ),
        assumptions=getattr(check, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(viol) if code == 1 else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{cid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"[{cid}] tier={a.tier} seed={a.seed} cases={len(rows)}/{n} {dict(status)} evals={evals} "
        f"nontrivial={len(nontriv)} schedules={len(sched)} faults={sum(fired.values())} wall={wall:.1f}s exit={code}"
    )
    if code == 1:
        print(f"VIOLATION property={cid} replay={replay}")
    sys.stdout.flush()
    return code


REAL_DEFAULT = [
    "all of foxes (imported from /repo's working tree, unmodified)",
    "numpy, xarray, pandas, pickle/dill/cloudpickle serialisation of tasks and results",
]
STUB_DEFAULT = [
    "executors and pools: concurrent.futures, multiprocess.Pool, mpi4py.futures, ray, dask scheduler, distributed (dst/pools.py, dst/threads.py, dst/daskshim.py)",
    "os.cpu_count, task durations (virtual clock)",
]

if __name__ == "__main__":
    sys.exit(main())
