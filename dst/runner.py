"""Runs simulated sessions: every session and every pristine evaluation lives in its own forked process.

The worker process (the *zygote*) has imported the package and never runs an operation of it.  A session is
executed in a child forked from it; the claims a session makes ("in this state this call returned that") are
re-evaluated in further children forked from the same clean zygote, so nothing a history left behind in module,
class or library state can be shared between the two.
"""

from __future__ import annotations

import contextlib
import gc
import importlib
import io
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import kernel
from .digest import diff

SESSION_TIMEOUT = 120.0
CLAIM_TIMEOUT = 90.0


class Ctx:
    """What a session reports."""

    def __init__(self, scratch: str):
        self.scratch = scratch
        self.violations: list[dict] = []
        self.claims: list[dict] = []
        self.stats: dict[str, float] = {}
        self.states: set[str] = set()
        self.events: list = []

    def violation(self, cls: str, detail: str = "", key: str | None = None) -> None:
        self.violations.append({"cls": cls, "detail": str(detail)[:2000], "key": key or cls})

    def check(self, ok: bool, cls: str, detail: str = "") -> bool:
        self.stat("assertions")
        if not ok:
            self.violation(cls, detail)
        return bool(ok)

    def same(self, expected, got, cls: str, detail: str = "", rtol: float = 1e-7) -> bool:
        self.stat("assertions")
        d = diff(expected, got, rtol)
        if d is not None:
            self.violation(cls, f"{detail} {d}")
        return d is None

    def claim(self, cls: str, payload, observed, detail: str = "", rtol: float = 1e-7) -> None:
        self.claims.append({"cls": cls, "payload": payload, "observed": observed, "detail": detail, "rtol": rtol})

    def stat(self, name: str, n: float = 1) -> None:
        self.stats[name] = self.stats.get(name, 0) + n

    def log(self, *event) -> None:
        self.events.append(event)

    def state(self, *parts) -> None:
        self.states.add(kernel.stable_hash(parts))


def prepare() -> None:
    """Imports and environment shared by all simulated processes."""
    import logging
    import warnings

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.integrate  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import statsmodels.regression.linear_model  # noqa: F401

    import chainconsumer  # noqa: F401

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    matplotlib.rcParams["svg.hashsalt"] = "dst"
    matplotlib.rcParams["figure.max_open_warning"] = 0


def in_child(fn, timeout: float):
    """Runs fn() in a forked child.  Returns (status, value): ok/exc/timeout/died."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            os.setpgid(0, 0)
            gc.disable()
            gc.freeze()
            gc.enable()
            try:
                out = ("ok", fn())
            except BaseException as exc:  # noqa: BLE001
                tb = traceback.extract_tb(exc.__traceback__)
                ours = any(f.filename.startswith(kernel.package_dir()) for f in tb)
                out = ("exc", {"package": ours, "trace": traceback.format_exc(), "type": type(exc).__name__})
            payload = pickle.dumps(out, protocol=5)
            with os.fdopen(w, "wb") as f:
                f.write(payload)
        except BaseException:  # noqa: BLE001
            with contextlib.suppress(BaseException):
                sys.__stderr__.write(traceback.format_exc())
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = io.BytesIO()
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf.write(chunk)
    os.close(r)
    if timed_out:
        for target in (-pid, pid):
            with contextlib.suppress(ProcessLookupError, PermissionError):
                os.kill(target, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ("timeout", None)
    _, status = os.waitpid(pid, 0)
    data = buf.getvalue()
    if not data:
        return ("died", status)
    return pickle.loads(data)


def load_prop(pid: str):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def run_session(prop, trace: dict, scratch_root: str, timeout: float = SESSION_TIMEOUT) -> dict:
    """One simulated run: execute the trace, then settle its claims.  Never raises for the code under test."""
    scratch = tempfile.mkdtemp(dir=scratch_root)

    def body():
        ctx = Ctx(scratch)
        cwd = os.getcwd()
        try:
            prop.execute(trace, ctx)
        finally:
            os.chdir(cwd)
        return {
            "violations": ctx.violations,
            "claims": ctx.claims,
            "stats": ctx.stats,
            "states": ctx.states,
            "log": kernel.stable_hash(ctx.events),
            "n_events": len(ctx.events),
        }

    status, res = in_child(body, timeout)
    if status == "timeout":
        status, res = in_child(body, timeout)
        if status == "timeout":
            res = _failed("no-progress", "the simulated run never finished")
            status = "ok"
    if status == "died":
        status, res = in_child(body, timeout)
        if status == "died":
            shutil.rmtree(scratch, ignore_errors=True)
            return {"error": f"simulated process died with status {res}"}
    if status == "exc":
        shutil.rmtree(scratch, ignore_errors=True)
        if res["package"]:
            return _failed("unexpected-exception:" + res["type"], res["trace"])
        return {"error": res["trace"]}
    if not res["violations"]:
        for c in res["claims"]:
            st, value = in_child(lambda: prop.evaluate(c["payload"], scratch), CLAIM_TIMEOUT)  # noqa: B023
            if st == "timeout":
                st, value = in_child(lambda: prop.evaluate(c["payload"], scratch), 2 * CLAIM_TIMEOUT)  # noqa: B023
            if st == "exc" and not value["package"]:
                shutil.rmtree(scratch, ignore_errors=True)
                return {"error": value["trace"]}
            if st == "ok":
                res["stats"]["claims"] = res["stats"].get("claims", 0) + 1
                kind = value[0] if isinstance(value, tuple) and value else "value"
                res["stats"][f"claims_{kind}"] = res["stats"].get(f"claims_{kind}", 0) + 1
                d = diff(value, c["observed"], c["rtol"])
            else:
                d = f"pristine evaluation {st}: {value}"
            if d is not None:
                res["violations"].append(
                    {"cls": c["cls"], "key": c["cls"], "detail": f"{c['detail']} expected (pristine) vs observed: {d}"}
                )
                break
    res["claims"] = len(res["claims"])
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def _failed(cls: str, detail: str) -> dict:
    return {
        "violations": [{"cls": cls, "key": cls, "detail": detail}],
        "claims": [],
        "stats": {},
        "states": set(),
        "log": "",
        "n_events": 0,
    }


def make_trace(prop, pid: str, seed: int, index: int, tier: str) -> dict:
    rng = kernel.rng_for(pid, seed, index)
    trace = prop.generate(rng, tier)
    trace = json.loads(json.dumps(trace))
    trace["property"], trace["seed"], trace["index"] = pid, seed, index
    return trace


def worker_main(pid: str, seed: int, tier: str, shard: int, shards: int, count: int, seconds: float, out_path: str):
    """Runs sessions shard, shard+shards, ... < count, until done, out of time or a violation."""
    prepare()
    prop = load_prop(pid)
    if hasattr(prop, "prepare"):
        prop.prepare()
    root = tempfile.mkdtemp(prefix=f"ccdst-{pid}-{shard}-")
    start = time.monotonic()
    known = known_keys(pid)
    total: dict = {"sessions": 0, "stats": {}, "states": set(), "logs": {}, "violation": None, "error": None,
                   "known": {}, "rerun": 0, "rerun_mismatch": 0, "samples": []}
    stop_flag = out_path + ".stop"
    shared_stop = os.path.join(os.path.dirname(out_path), "STOP")
    try:
        for index in range(shard, count, shards):
            if time.monotonic() - start > seconds or os.path.exists(shared_stop):
                break
            trace = make_trace(prop, pid, seed, index, tier)
            t0 = time.monotonic()
            res = run_session(prop, trace, root)
            total["slowest"] = max(total.get("slowest", (0, 0)), (round(time.monotonic() - t0, 1), index))
            total["sessions"] += 1
            if "error" in res:
                total["error"] = total["error"] or {"index": index, "trace": trace, "detail": res["error"]}
                total["errors"] = total.get("errors", 0) + 1
                if total["errors"] >= 10:
                    break
                continue  # another run may show what is wrong
            for k, v in res["stats"].items():
                total["stats"][k] = total["stats"].get(k, 0) + v
            total["states"] |= res["states"]
            total["logs"][index] = res["log"]
            if len(total["samples"]) < 1:
                total["samples"].append(trace)
            fresh = [v for v in res["violations"] if v["key"] not in known]
            for v in res["violations"]:
                if v["key"] in known:
                    total["known"][v["key"]] = v["detail"]
            if fresh:
                total["violation"] = {"trace": trace, "violation": fresh[0]}
                open(shared_stop, "w").close()
                break
            if (index // shards) % 20 == 1:
                again = run_session(prop, trace, root)
                total["rerun"] += 1
                if again.get("log") != res["log"]:
                    total["rerun_mismatch"] += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    total["wall"] = time.monotonic() - start
    with open(out_path, "wb") as f:
        pickle.dump(total, f)
    with contextlib.suppress(FileNotFoundError):
        os.remove(stop_flag)


def known_keys(pid: str) -> set[str]:
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
    with open(path) as f:
        data = json.load(f)
    return {e["key"] for e in data["known"] if e["property"] == pid}


# ------------------------------------------------------------------------------------------------ minimising


def minimise(prop, trace: dict, cls: str, root: str, seconds: float) -> dict:
    """Delta debugging over the lists named by prop.SHRINK, keeping the violation class."""
    deadline = time.monotonic() + seconds
    tried: dict[str, bool] = {}

    def fails(t: dict) -> bool:
        key = kernel.stable_hash(t)
        if key not in tried:
            res = run_session(prop, t, root, timeout=60.0)
            tried[key] = "error" not in res and any(v["cls"] == cls for v in res["violations"])
        return tried[key]

    def get(t, path):
        for p in path:
            t = t[p]
        return t

    def with_list(t, path, value):
        t = json.loads(json.dumps(t))
        node = t
        for p in path[:-1]:
            node = node[p]
        node[path[-1]] = value
        return t

    best = trace
    paths = [p.split("/") for p in getattr(prop, "SHRINK", ["steps"])]
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for path in paths:
            try:
                items = get(best, path)
            except (KeyError, TypeError):
                continue
            if not isinstance(items, list):
                continue
            size = max(1, len(items) // 2)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(get(best, path)) and time.monotonic() < deadline:
                    cur = get(best, path)
                    cand = with_list(best, path, cur[:i] + cur[i + size :])
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for simpler in getattr(prop, "simplify", lambda t: [])(best):
            if time.monotonic() > deadline:
                break
            if fails(simpler):
                best = simpler
                changed = True
                break
    return best


def minimise_main(in_path: str, out_path: str, seconds: float) -> None:
    prepare()
    with open(in_path) as f:
        job = json.load(f)
    prop = load_prop(job["property"])
    if hasattr(prop, "prepare"):
        prop.prepare()
    root = tempfile.mkdtemp(prefix="ccdst-min-")
    try:
        if job["cls"] == "no-progress":  # every attempt would take minutes
            best = job["trace"]
            with open(out_path, "w") as f:
                json.dump({"reproduced": True, "trace": best, "violation": None}, f)
            return
        res = run_session(prop, job["trace"], root)
        if "error" in res or not any(v["cls"] == job["cls"] for v in res["violations"]):
            out = {"reproduced": False, "trace": job["trace"]}
        else:
            best = minimise(prop, job["trace"], job["cls"], root, seconds)
            res = run_session(prop, best, root)
            match = [v for v in res["violations"] if v["cls"] == job["cls"]]
            if not match:
                best = job["trace"]
                res = run_session(prop, best, root)
                match = [v for v in res["violations"] if v["cls"] == job["cls"]]
            out = {"reproduced": bool(match), "trace": best, "violation": match[0] if match else None}
    finally:
        shutil.rmtree(root, ignore_errors=True)
    with open(out_path, "w") as f:
        json.dump(out, f)


def replay_main(path: str) -> int:
    """Re-executes a replay file.  1: the recorded violation happened again.  0: it did not."""
    with open(path) as f:
        job = json.load(f)
    prepare()
    prop = load_prop(job["property"])
    if hasattr(prop, "prepare"):
        prop.prepare()
    root = tempfile.mkdtemp(prefix="ccdst-replay-")
    try:
        res = run_session(prop, job["trace"], root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if "error" in res:
        print(res["error"], file=sys.stderr)
        return 2
    for v in res["violations"]:
        if v["cls"] == job["violation"]["cls"]:
            print(f"REPRODUCED property={job['property']} class={v['cls']}")
            print(v["detail"])
            return 1
    print(f"not reproduced: {[v['cls'] for v in res['violations']]}")
    return 0
