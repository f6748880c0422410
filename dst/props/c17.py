"""C17: results depend on the arguments alone, not on ambient state, and no call disturbs the ambient state."""

from __future__ import annotations

import copy
import hashlib
import os
import random
import warnings

import numpy as np
import pandas as pd

from dst import alien, world
from dst.digest import digest
from dst.kernel import Tracer, random_fault
from dst.sessions import fill_op, frozen, reset_rc
from dst.world import View, close_figures, prepare_read, run_read

SHRINK = ["steps", "state/chains", "state/truths"]

# The two settings of matplotlib the plotter is documented to change (what they do to figures is the subject of C10)
DOCUMENTED = {"text.usetex", "font.family"}
STANDALONE = ("contour", "surface", "dist", "cloud", "point", "truths")


def prepare():
    alien.start()


def generate(rng, tier):
    if rng.random() < 0.25:
        steps = []
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            if r < 0.8:
                steps.append({"s": "sample", "dims": rng.choice([1, 2, 3, 5, 8]), "seed": rng.choice([0, 1, 7, 2**31, None, None]),
                              "mean": rng.random() < 0.5, "points": rng.choice([2, 10, 1000]), "alien": rng.random() < 0.3,
                              "fault": random_fault(rng, 12) if rng.random() < 0.2 else None})
            else:
                d = rng.choice([1, 2, 3])
                a = [[round(rng.uniform(-1, 1), 3) for _ in range(d)] for _ in range(d)]
                steps.append({"s": "covariance", "a": a, "mean": [round(rng.uniform(-5, 5), 3) for _ in range(d)],
                              "scale": rng.choice([1e-6, 1.0, 1e4]), "entropy": rng.randrange(1000)})
        return {"state": None, "steps": steps}
    state = world.random_state(rng, n=rng.choice([60, 120]), p_truth=0.5)
    steps = []
    for _ in range(rng.randint(2, 6)):
        op = world.random_read(rng, 0.4, STANDALONE if rng.random() < 0.2 else None)
        if op["r"] in ("plot", "walks", "dists", "sumplot") and rng.random() < 0.25:
            op["filename"] = rng.choice(["f.png", "f.svg", "f.png"])
        if op["r"] == "latex" and rng.random() < 0.4:
            op["filename"] = "f.tex"
        steps.append({"s": "read", "op": op, "stir": rng.choice([None, rng.randrange(10**6)]),
                      "fault": random_fault(rng, 120) if rng.random() < 0.3 else None})
        if op["r"] in STANDALONE:
            steps[-1]["current"] = rng.choice(["same", "figure", "axes", "none"])
    return {"state": state, "steps": steps}


def ambient() -> dict:
    import decimal
    import locale
    import logging
    import sys

    import matplotlib
    import matplotlib.pyplot as plt

    g = np.random.get_state()
    rc = matplotlib.rcParams
    return {
        "rc": {k: repr(rc._get(k)) for k in rc if k not in DOCUMENTED},
        "backend": matplotlib.get_backend(),
        "interactive": plt.isinteractive(),
        "np.random": (g[0], hashlib.sha256(g[1].tobytes()).hexdigest(), g[2:]),
        "random": hash(random.getstate()),
        "np.geterr": np.geterr(),
        "np.printoptions": {k: repr(v) for k, v in np.get_printoptions().items()},
        "warnings": [repr(f) for f in warnings.filters],
        "showwarning": warnings.showwarning is SHOW[0] if SHOW else SHOW.append(warnings.showwarning) or True,
        "cwd": os.getcwd(),
        "environ": dict(os.environ),
        "umask": umask(),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal": repr(decimal.getcontext()),
        "recursion": sys.getrecursionlimit(),
        "excepthook": sys.excepthook is sys.__excepthook__,
        "stdout": (sys.stdout is OUT[0], sys.stderr is OUT[1]) if OUT else OUT.extend([sys.stdout, sys.stderr]) or (True, True),
        "pandas": [repr(pd.get_option(o)) for o in ("mode.copy_on_write", "display.max_rows", "display.precision", "compute.use_numexpr")],
        "logging": (logging.root.level, logging.root.manager.disable),
    }


SHOW: list = []
OUT: list = []


def umask() -> int:
    m = os.umask(0o22)
    os.umask(m)
    return m


def stir(seed) -> None:
    """Other code in the process has used the shared generators."""
    if seed is not None:
        np.random.seed(seed % 2**32)
        random.seed(seed)


def files(scratch: str) -> list:
    out = []
    for name in sorted(os.listdir(scratch)):
        with open(os.path.join(scratch, name), "rb") as f:
            out.append((name, hashlib.sha256(f.read()).hexdigest()))
    return out


def make_sample(step):
    from chainconsumer.examples import make_sample as fn

    return fn(num_dimensions=step["dims"], seed=step["seed"], randomise_mean=step["mean"], num_points=step["points"])


def over_there(payload, out):
    """Runs in the alien process."""
    if payload["kind"] == "sample":
        return ("ok", digest(make_sample(payload["step"])))
    view = View(payload["state"])
    reset_rc()
    try:
        value = digest(run_read(view.cc, fill_op(payload["op"], out)))
        return ("ok", value, files(out) if "filename" in payload["op"] else [])
    except Exception as exc:  # noqa: BLE001
        return ("err", type(exc).__name__, [])
    finally:
        close_figures()


def evaluate(payload, scratch):
    status, value = alien.ask("C17", payload)
    if status != "ok":
        raise RuntimeError(f"the other process: {status} {value}")
    return value


def undisturbed(before, ctx, where):
    after = ambient()
    for k, v in before.items():
        if isinstance(v, dict) and isinstance(after[k], dict) and v != after[k]:
            v, after[k] = ({q: d[q] for q in d if v.get(q) != after[k].get(q)} for d in (v, after[k]))
        ctx.check(after[k] == v, f"ambient-changed:{k}", f"{where}: {v} -> {after[k]}"[:600])


def same_frames(a, b) -> bool:
    return a.shape == b.shape and list(a.columns) == list(b.columns) and np.array_equal(a.to_numpy(), b.to_numpy())


def execute(trace, ctx):
    import chainconsumer
    import matplotlib.pyplot as plt
    from chainconsumer import Chain

    os.environ["SOURCE_DATE_EPOCH"] = "86400"
    view = View(copy.deepcopy(trace["state"])) if trace["state"] else None
    state = trace["state"]
    unseeded: list = []
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        kind = step["s"]
        if kind == "read":
            op = step["op"]
            if not view.chains or world.too_heavy(view, op):
                continue
            stir(step["stir"])
            scratch = os.path.join(ctx.scratch, f"s{i}")
            os.mkdir(scratch)
            reset_rc()
            axes = here = None
            if op["r"] in STANDALONE:
                # the caller's own axes, while they are busy with others
                made, axes = plt.subplots()
                if step.get("current") == "same":
                    made.add_axes((0.6, 0.6, 0.1, 0.1))
                elif step.get("current") == "figure":
                    plt.figure()
                elif step.get("current") == "axes":
                    plt.subplots(2, 2)
                here = (plt.gcf(), plt.gca(), plt.get_fignums())
            call = prepare_read(view.cc, fill_op(op, scratch), None, axes)
            before = ambient()
            figures = plt.get_fignums()
            tracer = Tracer(fault=step["fault"])
            try:
                with tracer:
                    value = call()
                result = ("ok", value)
            except (KeyboardInterrupt, MemoryError):
                if not tracer.fired:
                    raise
                result = ("injected",)
            except Exception as exc:  # noqa: BLE001
                result = ("err", type(exc).__name__)
            undisturbed(before, ctx, where)
            if here is not None:
                ctx.check((plt.gcf(), plt.gca(), plt.get_fignums()) == here, "current-axes-changed", where)
                if result[0] == "ok":
                    if step.get("current") == "same":
                        made.axes[1].remove()
                    result = ("ok", made)
            elif op["r"] not in world.PLOTS:
                ctx.check(plt.get_fignums() == figures, "figures-opened", where)
            if result[0] == "ok":
                result = ("ok", digest(result[1]), files(scratch) if "filename" in op else [])
            elif result[0] == "err":
                result = (*result, [])
            close_figures()
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            if step["fault"]:
                ctx.stat("offered:" + step["fault"]["kind"])
                if tracer.fired:
                    ctx.stat("fault:" + step["fault"]["kind"])
            if step["stir"] is not None:
                ctx.stat("fault:ambient-generators-reseeded")
            ctx.log(i, result[0], repr(result[2]) if len(result) > 2 else None)
            ctx.state(op["r"], result[0], "filename" in op, len(state["chains"]), sorted(op))
            if result[0] != "injected":
                ctx.stat("fault:other-process-environment-clock-and-hash-seed")
                ctx.claim(f"depends-on-ambient-state:{op['r']}", {"kind": "read", "state": frozen(state), "op": op}, result, where)
        elif kind == "sample":
            before = ambient()
            tracer = Tracer(fault=step["fault"])
            try:
                with tracer:
                    frame = make_sample(step)
            except (KeyboardInterrupt, MemoryError):
                if not tracer.fired:
                    raise
                ctx.stat("fault:" + step["fault"]["kind"])
                undisturbed(before, ctx, where)
                continue
            undisturbed(before, ctx, where)
            ctx.stat("steps")
            ctx.check(frame.shape == (step["points"], step["dims"] + 1), "sample-shape", f"{where}: {frame.shape}")
            ctx.check(bool(np.isfinite(frame.to_numpy()).all()), "sample-values", where)
            stir(i + 5)
            again = make_sample(step)
            if step["seed"] is None:
                # fresh entropy each time
                unseeded.append(frame)
                ctx.check(not same_frames(frame, again), "unseeded-samples-repeat", where)
            else:
                ctx.check(same_frames(frame, again), "seeded-sample-differs", where)
                other = make_sample({**step, "seed": step["seed"] + 1})
                ctx.check(not same_frames(frame, other), "seed-ignored", where)
                if step["alien"]:
                    ctx.claim("seeded-sample-differs-elsewhere", {"kind": "sample", "step": step}, ("ok", digest(frame)), where, rtol=1e-12)
                ctx.log(i, digest(frame)[0])
            ctx.state(kind, step["dims"], step["seed"], step["mean"], step["points"])
        elif kind == "covariance":
            a = np.array(step["a"]) * step["scale"]
            cov = a @ a.T + np.eye(len(a)) * (0.2 * step["scale"]) ** 2
            mean = np.array(step["mean"]) * step["scale"]
            cols = [f"p{q}" for q in range(len(a))]
            entropy = np.random.default_rng
            handed: list = []

            def seam(seed=None):
                handed.append(seed)
                return entropy(step["entropy"] + 1000 * len(handed) if seed is None else seed)  # noqa: B023

            before = ambient()
            frames = []
            try:
                np.random.default_rng = seam
                for _ in range(2):
                    frames.append(Chain.from_covariance(mean, cov, columns=cols, name="f").samples)
                handed.clear()
                frames.append(Chain.from_covariance(mean, cov, columns=cols, name="f").samples)
            finally:
                np.random.default_rng = entropy
            undisturbed(before, ctx, where)
            ctx.stat("steps", 3)
            ctx.stat("fault:entropy-replayed")
            x = frames[0][cols].to_numpy()
            n = len(x)
            ctx.check(list(frames[0].columns)[: len(cols)] == cols, "forecast-columns", where)
            sd = np.sqrt(np.diag(cov))
            ctx.check(bool((np.abs(x.mean(axis=0) - mean) < 7 * sd / np.sqrt(n)).all()), "forecast-mean", f"{where}: {x.mean(axis=0)} {mean}")
            got = np.atleast_2d(np.cov(x.T))
            err = np.abs(got - cov) / np.outer(sd, sd)
            ctx.check(bool((err < 10 / np.sqrt(n)).all()), "forecast-covariance", f"{where}: {got} {cov}")
            ctx.check(not same_frames(frames[0], frames[1]), "forecast-entropy-fixed", where)
            ctx.check(same_frames(frames[0], frames[2]), "forecast-entropy-ambient", where)
            ctx.state(kind, len(a), step["scale"])
        if ctx.violations:
            return
    _ = chainconsumer
