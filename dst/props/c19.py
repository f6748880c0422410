"""C19: every call comes to an end within a bounded number of steps, whatever the samples, options and interruptions."""

from __future__ import annotations

import copy
import signal

import numpy as np
import pandas as pd

from dst import world
from dst.kernel import StepBudgetExceeded, Tracer, random_fault
from dst.sessions import reset_rc
from dst.world import close_figures, prepare_read

SHRINK = ["steps", "chains"]

BUDGET = 6_000_000  # executed lines; the heaviest of these loads on a sound tree needs a tenth of that
CPU = 60.0  # processor seconds without getting there: a loop below the package

SHAPES = ["normal", "constant", "two", "heavy-tail", "spike", "clusters", "tiny", "huge", "offset", "tied", "linear",
          "outlier", "subnormal", "almost-constant", "exponential", "edge"]


def random_column(rng):
    return {"shape": rng.choice(SHAPES), "loc": rng.choice([0.0, 1.0, -3.5, 1e6]), "scale": rng.choice([1.0, 1.0, 1e-8, 1e5])}


def column(c, n, g):
    k, loc, s = c["shape"], c["loc"], c["scale"]
    if k == "normal":
        return loc + s * g.normal(size=n)
    if k == "constant":
        return np.full(n, loc)
    if k == "two":
        return loc + s * g.integers(0, 2, n)
    if k == "heavy-tail":
        return loc + s * np.clip(g.standard_cauchy(n), -1e9, 1e9)
    if k == "spike":
        return np.where(g.random(n) < 0.95, loc, loc + s * g.normal(size=n))
    if k == "clusters":
        return loc + s * (g.normal(size=n) * 1e-3 + 100 * g.integers(0, 4, n))
    if k == "tiny":
        return g.normal(size=n) * 1e-200
    if k == "huge":
        return g.normal(size=n) * 1e150
    if k == "offset":
        return 1e12 + g.normal(size=n)
    if k == "tied":
        return loc + s * np.round(g.normal(size=n))
    if k == "linear":
        return np.linspace(loc, loc + s, n)
    if k == "outlier":
        x = loc + s * g.normal(size=n)
        x[0] = loc + s * 1e8
        return x
    if k == "subnormal":
        return g.integers(0, 9, n) * 5e-324
    if k == "almost-constant":
        x = np.full(n, 1.0 + loc)
        x[-1] = np.nextafter(1.0 + loc, np.inf)
        return x
    if k == "exponential":
        return loc + s * np.exp(g.normal(size=n) * 5)
    if k == "edge":
        return loc + s * np.where(g.random(n) < 0.5, 0.0, 1.0 + 1e-9 * g.normal(size=n))
    raise KeyError(k)


def build(spec):
    from chainconsumer import Chain

    g = np.random.default_rng(spec["seed"])
    n = spec["n"]
    df = pd.DataFrame({name: column(c, n, g) for name, c in spec["cols"].items()})
    if spec["weights"] == "spread":
        df["weight"] = 10.0 ** g.uniform(-12, 3, n)
    elif spec["weights"] == "one":
        df["weight"] = np.where(np.arange(n) == n // 2, 1e12, 1e-3)
    elif spec["weights"] == "normalised":
        w = g.gamma(1.0, 1.0, n) + 1e-6
        df["weight"] = w / w.sum() * 1e-10
    if spec["posterior"] == "ties":
        df["log_posterior"] = np.round(g.normal(size=n))
    elif spec["posterior"] == "huge":
        df["log_posterior"] = -1e300 * g.random(n)
    elif spec["posterior"] == "flat":
        df["log_posterior"] = 0.0
    return Chain(samples=df, name=spec["name"], **world.decode_opts(spec["opts"]))


def random_opts(rng, n):
    o = {}

    def maybe(p, key, *values):
        if rng.random() < p:
            o[key] = rng.choice(values)

    maybe(0.5, "summary_area", 0.0, 1e-9, 0.05, 0.5, 0.9973, 0.999999, 1.0)
    maybe(0.5, "statistics", "max", "mean", "cumulative", "max_central", "hdi")
    maybe(0.4, "smooth", 0, 1, 2, 3, 5)
    maybe(0.4, "bins", 2, 3, 5, 10, 30)
    maybe(0.3, "kde", True, 0.5, 1e-3, 3.0)
    maybe(0.25, "power", 0.0, 0.01, 0.5, 2.0, 30.0, 300.0)
    maybe(0.2, "sigmas", [0], [0, 1], [0, 1, 2, 3, 4, 5, 6], [0, 0.001], [0, 9])
    maybe(0.2, "plot_cloud", True)
    maybe(0.2, "num_cloud", 1, 3, 0.5, 1e9)
    maybe(0.2, "plot_point", True)
    maybe(0.15, "plot_contour", False)
    maybe(0.15, "shift_params", True)
    maybe(0.15, "show_contour_labels", True)
    maybe(0.3, "histogram_relative_height", 0.0, 1e-9, 1e6)
    maybe(0.3, "num_free_params", 0, 1, n, 3 * n)
    maybe(0.3, "num_eff_data_points", 0.0, 0.5, 2.0, 1e300)
    maybe(0.1, "shade_gradient", 0.0, 5.0)
    maybe(0.15, "grid", True)
    if rng.random() < 0.3:
        o["walkers"] = rng.choice([w for w in range(1, 13) if n % w == 0])
    if o.get("statistics") == "hdi" and rng.random() < 0.5:
        o["multimodal"] = True
    if o.get("kde"):
        o["bins"] = rng.choice([2, 4, 6])
        o["smooth"] = rng.choice([0, 1])
    return o


def random_chain(rng, name, small):
    n = rng.choice([1, 2, 3, 4, 6, 12, 60] if small else [12, 60, 240, 480])
    return {
        "name": name, "n": n, "seed": rng.randrange(10**6),
        "cols": {c: random_column(rng) for c in rng.sample(world.COLS, rng.choice([1, 1, 2, 2, 3]))},
        "weights": rng.choice([None, None, "spread", "one", "normalised"]),
        "posterior": rng.choice([None, "ties", "huge", "flat"]),
        "opts": random_opts(rng, n),
    }


CHEAP = ["summary", "latex", "corr", "cov", "aic", "bic", "dic", "comp", "gr", "geweke", "divide", "bounds", "hdi", "maxpost"]


def generate(rng, tier):
    if rng.random() < 0.04:
        # a great many chains
        k = rng.choice([40, 89, 90, 130])
        chains = [{"name": f"c{i}", "n": 12, "seed": i, "cols": {"a": {"shape": "normal", "loc": 0.0, "scale": 1.0}},
                   "weights": None, "posterior": None, "opts": {"bins": 5, "smooth": 0, "statistics": "mean"}} for i in range(k)]
        ops = [{"r": r, "n": 3} for r in ("summary", "latex")] + [{"r": "plot", "n": 0, "sel": [0, 39, 88, 89, 129]}]
        return {"chains": chains, "config": None, "steps": [{"op": op} for op in ops], "many": True}
    if rng.random() < 0.04:
        # every default colour is spoken for, in part or altogether
        from chainconsumer import colors

        palette = list(dict.fromkeys(colors.format(c) for c in colors.next_colour()))
        asked = rng.sample(palette, rng.choice([len(palette), len(palette), len(palette) // 2])) + [None] * rng.choice([1, 2, 20])
        rng.shuffle(asked)
        chains = [{"name": f"c{i}", "n": 12, "seed": i, "cols": {"a": {"shape": "normal", "loc": 0.0, "scale": 1.0}},
                   "weights": None, "posterior": None, "opts": {"bins": 5, "smooth": 0, **({"color": c} if c else {})}}
                  for i, c in enumerate(asked)]
        return {"chains": chains, "config": None, "steps": [{"op": {"r": r, "n": 3}} for r in ("summary", "latex")], "many": True}
    small = rng.random() < 0.35
    chains = [random_chain(rng, f"c{i}", small) for i in range(rng.choice([1, 1, 2, 3]))]
    config = world.random_config(rng) if rng.random() < 0.4 else None
    if config is not None:
        if rng.random() < 0.3:
            config["log_scales"] = rng.sample(world.COLS, 2)
        if rng.random() < 0.2:
            config["max_ticks"] = rng.choice([0, 1, 50])
        if rng.random() < 0.2:
            config["extents"] = {rng.choice(world.COLS): rng.choice([[0.0, 1e-300], [-1e200, 1e200], [3.0, 3.0], [5.0, -5.0]])}
    steps = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        op = world.random_read(rng, kinds=CHEAP) if r < 0.6 else world.random_read(
            rng, kinds=["plot", "walks", "dists", "sumplot", "dist", "contour", "cloud"])
        if op["r"] == "walks" and rng.random() < 0.5:
            op["convolve"] = rng.choice([1, 2, 7, 100])
        steps.append({"op": op, "fault": random_fault(rng, 100) if rng.random() < 0.25 else None})
    return {"chains": chains, "config": config, "steps": steps}


class OutOfTime(BaseException):
    pass


def expire(signum, frame):
    raise OutOfTime


def bounded(call, fault, where, ctx, many):
    """One call within its budget.  (outcome, lines)"""
    tracer = Tracer(fault=fault, budget=BUDGET)
    signal.signal(signal.SIGPROF, expire)
    signal.setitimer(signal.ITIMER_PROF, CPU)
    try:
        with tracer:
            call()
        out = "ok"
    except StepBudgetExceeded as exc:
        out = "stuck"
        ctx.violation("never-ends", f"{where}: still going after {BUDGET} lines, in {exc}")
    except OutOfTime:
        out = "stuck"
        ctx.violation("never-ends", f"{where}: still going after {CPU} processor seconds")
    except (KeyboardInterrupt, MemoryError) as exc:
        out = "injected" if tracer.fired else "err"
        if out == "err":
            ctx.check(False, f"exhausts:{type(exc).__name__}", where)
    except RecursionError:
        out = "err"
        ctx.violation("endless-recursion", where)
    except (StopIteration, SystemExit, GeneratorExit) as exc:
        out = "err"
        ctx.violation(f"leaks:{type(exc).__name__}", where)
    except Exception as exc:  # noqa: BLE001
        out = "err:" + type(exc).__name__
        if many:
            ctx.violation("too-many-chains", f"{where}: {exc!r}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        close_figures()
    ctx.stat("lines", tracer.lines)
    ctx.stats["most-lines-in-a-call"] = max(ctx.stats.get("most-lines-in-a-call", 0), tracer.lines)
    if fault is not None:
        ctx.stat("offered:" + fault["kind"])
        if tracer.fired:
            ctx.stat("fault:" + fault["kind"])
    return out


def too_heavy(trace, op):
    """The density estimator over a plane is legitimately slow: a fixed amount of work per point of a fine mesh."""
    for spec in trace["chains"]:
        o = spec["opts"]
        if o.get("kde") and op["r"] in ("plot", "contour", "surface"):
            centres = 2 * o["bins"] * (2 * o["smooth"] if o["smooth"] else 1)
            if centres > 40 or len(spec["cols"]) > 2:
                return True
    return False


def execute(trace, ctx):
    from chainconsumer import ChainConsumer

    cc = ChainConsumer()
    for spec in trace["chains"]:
        try:
            cc.add_chain(build(copy.deepcopy(spec)))
        except ValueError as exc:
            # e.g. a grid or walkers the table does not have, or weights that overflow the shift
            ctx.log("refused", spec["name"], type(exc).__name__)
            ctx.stat("refused-chains")
    if not cc.get_names():
        return
    if trace["config"] is not None:
        cc.set_plot_config(world.make_config(trace["config"]))
    shapes = sorted({c["shape"] for s in trace["chains"] for c in s["cols"].values()})
    for i, step in enumerate(trace["steps"]):
        op = step["op"]
        if too_heavy(trace, op):
            continue
        where = f"step {i} {op} on {shapes}"
        for fault in [step.get("fault"), None] if step.get("fault") else [None]:
            # an interrupted call is followed by the same call left alone
            reset_rc()
            try:
                call = prepare_read(cc, op)
            except Exception as exc:  # noqa: BLE001
                ctx.log(i, "arguments", type(exc).__name__)
                break
            out = bounded(call, fault, where, ctx, trace.get("many"))
            ctx.stat("steps")
            ctx.stat("outcome:" + out.split(":")[0])
            ctx.log(i, op["r"], out)
            ctx.check(True, "ended")
            for s in shapes:
                ctx.state(op["r"], s, out)
            if ctx.violations:
                return
