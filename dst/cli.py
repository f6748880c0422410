"""Command line: run one property's check, replay a violation, run a single worker."""

from __future__ import annotations

import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child_env(hashseed: int, mpl: str) -> dict:
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["MPLCONFIGDIR"] = mpl
    env["HOME"] = mpl
    return env


def spawn(args: list[str], hashseed: int, mpl: str, **kw):
    return subprocess.Popen([sys.executable, "-m", "dst.cli", *args], cwd=ROOT, env=child_env(hashseed, mpl), **kw)


def make_mpl_dir(base: str) -> str:
    mpl = os.path.join(base, "mpl")
    os.makedirs(mpl)
    # Reuse an existing font cache: rebuilding it takes seconds in every worker
    for src in (os.environ.get("MPLCONFIGDIR", ""), "/opt/vp/mplconfig"):
        if src and os.path.isdir(src):
            for f in os.listdir(src):
                if f.startswith("fontlist"):
                    shutil.copy(os.path.join(src, f), mpl)
            break
    return mpl


def check(pid: str, tier: str) -> int:
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.monotonic()
    from dst.plan import PLAN

    plan = PLAN[pid]
    count, seconds = plan[tier]
    count = int(os.environ.get("DST_SESSIONS", count))
    seconds = float(os.environ.get("DST_SECONDS", seconds))
    shards = int(os.environ.get("DST_JOBS", "8"))
    work = tempfile.mkdtemp(prefix=f"ccdst-{pid}-")
    try:
        mpl = make_mpl_dir(work)
        procs = []
        for s in range(shards):
            out = os.path.join(work, f"w{s}.pkl")
            log = open(os.path.join(work, f"w{s}.log"), "w")
            hs = (seed * 1009 + s * 131) % 4294967295
            p = spawn(
                ["worker", pid, str(seed), tier, str(s), str(shards), str(count), str(seconds), out],
                hs, mpl, stdout=log, stderr=subprocess.STDOUT,
            )
            procs.append((p, out, hs, log))
        results = []
        for p, out, hs, log in procs:
            p.wait()
            log.close()
            if not os.path.exists(out):
                print(open(log.name).read()[-4000:], file=sys.stderr)
                print(f"HARNESS-ERROR property={pid} worker ended with {p.returncode}", file=sys.stderr)
                return 2
            with open(out, "rb") as f:
                r = pickle.load(f)
            r["hashseed"] = hs
            results.append(r)
        bad = [r for r in results if r["violation"]]
        err = [r for r in results if r["error"]]
        code, violation = 0, None
        if bad:
            violation = report(pid, bad[0], work, mpl, 60.0 if tier == "quick" else 120.0)
            code = 1
        elif err:
            e = err[0]["error"]
            print(e["detail"][-4000:], file=sys.stderr)
            print(f"HARNESS-ERROR property={pid} index={e['index']}", file=sys.stderr)
            code = 2
        known = {}
        for r in results:
            known |= r["known"]
        for key, detail in sorted(known.items()):
            print(f"KNOWN-FINDING: property={pid} {key}: {detail[:300]}")
        if code != 2:
            write_evidence(pid, tier, seed, results, time.monotonic() - start, violation, shards)
        if os.environ.get("DST_VERBOSE"):
            print("slowest (seconds, run):", sorted(r.get("slowest", (0, 0)) for r in results)[-3:])
        n = sum(r["sessions"] for r in results)
        claims = int(sum(r["stats"].get("claims", 0) + r["stats"].get("assertions", 0) for r in results))
        print(f"property={pid} tier={tier} seed={seed} runs={n} judgements={claims} wall={time.monotonic() - start:.1f}s exit={code}")
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(pid: str, bad: dict, work: str, mpl: str, seconds: float) -> dict:
    """Minimise, verify in a fresh process, write the replay file, print the VIOLATION line."""
    trace, viol, hs = bad["violation"]["trace"], bad["violation"]["violation"], bad["hashseed"]
    job, out = os.path.join(work, "job.json"), os.path.join(work, "min.json")
    with open(job, "w") as f:
        json.dump({"property": pid, "trace": trace, "cls": viol["cls"]}, f)
    try:
        spawn(["minimise", job, out, str(seconds)], hs, mpl).wait(timeout=seconds + 300)
        with open(out) as f:
            m = json.load(f)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        m = {"reproduced": False, "trace": trace}
    final = {
        "property": pid,
        "seed": trace["seed"],
        "index": trace["index"],
        "hashseed": hs,
        "violation": m.get("violation") or viol,
        "reproduced": m["reproduced"],
        "trace": m["trace"],
        "original_steps": len(trace.get("steps", [])),
    }
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{pid}-{trace['seed']}-{trace['index']}.json")
    with open(path, "w") as f:
        json.dump(final, f, indent=1)
    rc = spawn(["replay", path], hs, mpl, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).wait()
    print(f"violated: {final['violation']['cls']}: {final['violation']['detail'][:1500]}")
    print(
        f"seed={trace['seed']} run={trace['index']} steps={final['original_steps']}->{len(m['trace'].get('steps', []))} "
        f"replays={'yes' if rc == 1 else 'no'}"
    )
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return final


def write_evidence(pid, tier, seed, results, wall, violation, shards) -> None:
    from dst.plan import PLAN

    plan = PLAN[pid]
    stats: dict = {}
    states: set = set()
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        states |= r["states"]
    n = sum(r["sessions"] for r in results)
    logs = {v for r in results for v in r["logs"].values()}
    faults = {k[len("fault:"):]: int(v) for k, v in stats.items() if k.startswith("fault:")}
    offered = {k[len("offered:"):]: int(v) for k, v in stats.items() if k.startswith("offered:")}
    probes = {k[len("probe:"):]: int(v) for k, v in stats.items() if k.startswith("probe:")}
    other = {k: round(v, 3) for k, v in sorted(stats.items()) if ":" not in k}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": plan["level"],
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(states),
            "rule": plan["rule"],
            "samples": [r["samples"][0] for r in results if r["samples"]][:2],
            "runs_per_hour": round(n / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(n / max(wall, 1e-9) * 3600),
            "simulated_steps": int(stats.get("steps", 0)),
            "simulated_time": {
                "unit": "executed source lines of the package under the simulator's line clock",
                "lines": int(stats.get("lines", 0)),
            },
            "distinct_event_logs": len(logs),
            "distinct_states_measure": plan["measure"],
            "faults_injected": faults,
            "faults_offered": offered,
            "probes": probes,
            "counters": other,
            "determinism_rerun": {
                "runs": sum(r["rerun"] for r in results),
                "different": sum(r["rerun_mismatch"] for r in results),
            },
            "components": plan["components"],
            "worker_processes": shards,
            "hash_seeds": [r["hashseed"] for r in results],
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(argv: list[str]) -> int:
    cmd = argv[0]
    if cmd == "check":
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(argv[1], tier)
    if cmd == "setup":
        # Nothing to compile: only make sure that what the checks need is there
        import chainconsumer

        from dst import plan, runner  # noqa: F401

        print(f"python {sys.version.split()[0]}, package at {os.path.dirname(chainconsumer.__file__)}, {len(plan.PLAN)} checks")
        return 0
    from dst import runner

    if cmd == "worker":
        pid, seed, tier, shard, shards, count, seconds, out = argv[1:]
        runner.worker_main(pid, int(seed), tier, int(shard), int(shards), int(count), float(seconds), out)
        return 0
    if cmd == "minimise":
        runner.minimise_main(argv[1], argv[2], float(argv[3]))
        return 0
    if cmd == "replay":
        with open(argv[1]) as f:
            hs = json.load(f)["hashseed"]
        if os.environ.get("PYTHONHASHSEED") != str(hs):
            base = tempfile.mkdtemp(prefix="ccdst-replay-")
            try:
                return spawn(["replay", os.path.abspath(argv[1])], hs, make_mpl_dir(base)).wait()
            finally:
                shutil.rmtree(base, ignore_errors=True)
        return runner.replay_main(argv[1])
    if cmd == "one":
        # one PROPERTY SEED INDEX: run one generated session and print what it says
        pid, seed, index = argv[1], int(argv[2]), int(argv[3])
        runner.prepare()
        prop = runner.load_prop(pid)
        if hasattr(prop, "prepare"):
            prop.prepare()
        trace = runner.make_trace(prop, pid, seed, index, "quick")
        root = tempfile.mkdtemp(prefix="ccdst-one-")
        t = time.time()
        try:
            res = runner.run_session(prop, trace, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        print(json.dumps(trace)[:3000])
        res.pop("states", None)
        print(res)
        print(f"{time.time() - t:.2f}s")
        return 0
    print(f"unknown command {cmd}", file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
