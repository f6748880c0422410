"""C15: dividing a chain into its walkers loses nothing, mixes nothing and keeps what was said about it."""

from __future__ import annotations

import copy

import numpy as np
import pandas as pd

from dst import world
from dst.data import random_table
from dst.digest import digest
from dst.kernel import Tracer, random_fault
from dst.sessions import chain_snapshot, disturbed_read
from dst.world import View, close_figures, run_read

SHRINK = ["steps"]

NOT_INHERITED = {"samples", "name", "walkers", "color", "shift_params"}


def generate(rng, tier):
    chains = []
    for nm in rng.sample(["alpha", "model A", "A", "x Walker 0"], rng.choice([1, 1, 2])):
        m = rng.choice([1, 2, 2, 3, 4, 6, 12])
        steps = rng.choice([1, 2, 5, 20, 60]) if rng.random() < 0.4 else rng.choice([30, 40])
        spec = world.random_chain(rng, nm, n=60, cols=rng.sample(world.COLS, rng.choice([1, 2, 3])), cheap=True)
        t = random_table(rng, n=m * steps, cols=[c["name"] for c in spec["table"]["cols"]],
                         weights=rng.choice([False, "weight", "w8"]), posterior=rng.choice([False, "log_posterior", "lnp"]))
        t["index"] = rng.choice(["range", "offset", "shuffled", "dup", "zeros", "reversed", "str"])
        spec["table"] = t
        o = spec["opts"]
        o.pop("plot_cloud", None)
        o.pop("color_param", None)
        o["walkers"] = m
        if t.get("weights"):
            o["weight_column"] = t["weights"]["name"]
        if t.get("posterior"):
            o["posterior_column"] = t["posterior"]["name"]
        if rng.random() < 0.2:
            o["shift_params"] = True
        if rng.random() < 0.15:
            o["plot_cloud"] = True
            o["num_cloud"] = 20
            o["color_param"] = rng.choice([c["name"] for c in t["cols"]])
        chains.append(spec)
    state = {"chains": chains, "truths": [], "config": None, "override": world.random_override(rng) if rng.random() < 0.2 else None}
    steps = []
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        k = rng.randrange(2)
        if r < 0.2:
            kind = rng.choice(["inplace", "scale", "weights", "posterior", "replace", "opt", "opt", "sort"])
            e = {"edit": kind, "col": rng.randrange(3), "row": rng.randrange(240), "value": rng.choice([0.3, 2.5])}
            if kind == "opt":
                e["name"] = rng.choice(["summary_area", "smooth", "power", "num_free_params", "linestyle", "sigmas"])
                e["value"] = {"summary_area": 0.9, "smooth": 1, "power": 0.5, "num_free_params": 7, "linestyle": ":",
                              "sigmas": [0, 1, 3]}[e["name"]]
            steps.append({"s": "edit", "k": k, "edit": e})
        elif r < 0.28:
            steps.append({"s": "walkers", "k": k, "m": rng.choice([1, 2, 3, 5, 6, 10, 20])})
        elif r < 0.38:
            steps.append({"s": "read", "op": {"r": rng.choice(["summary", "latex", "plot", "walks", "divide"]), "n": k},
                          "fault": random_fault(rng, 80)})
        else:
            step = {"s": "divide", "k": k, "use": rng.choice(["none", "summary", "plot", "diag", "again", "drop", "write", "write"])}
            if step["use"] == "write":
                step["part"] = rng.randrange(12)
            if rng.random() < 0.35:
                step["fault"] = random_fault(rng, 60)
            steps.append(step)
    return {"state": state, "steps": steps}


def options(chain) -> dict:
    return {k: digest(getattr(chain, k)) for k in type(chain).model_fields if k not in NOT_INHERITED}


def judge(chain, parts, ctx, where) -> bool:
    m = chain.walkers
    if not ctx.check(len(parts) == m, "parts-count", f"{where}: {len(parts)} of {m}"):
        return False
    frame = chain.samples
    n = len(frame) // m
    want = options(chain)
    for i, part in enumerate(parts):
        own = frame.iloc[i * n : (i + 1) * n]
        ctx.check(part.name == f"{chain.name} Walker {i}", "part-name", f"{where}: {part.name!r}")
        ctx.check(list(part.samples.columns) == list(frame.columns), "part-columns", f"{where}: {list(part.samples.columns)}")
        if not ctx.check(part.samples.shape == own.shape, "part-rows", f"{where}: walker {i}: {part.samples.shape} vs {own.shape}"):
            return False
        for c in frame.columns:
            if not ctx.check(np.array_equal(part.samples[c].to_numpy(), own[c].to_numpy()), "part-values", f"{where}: walker {i} {c}"):
                return False
        got = options(part)
        for k, v in want.items():
            if not ctx.check(got[k] == v, "part-option", f"{where}: walker {i}: {k}: {got[k]} vs {v}"):
                return False
        ctx.check(part.walkers == 1 and part.shift_params is False, "part-is-one-walker", where)
        ctx.check(part.color is None, "part-colour", f"{where}: {part.color}")
    return True


def hand_built(chain, i):
    """The chain a user would have made of this walker themselves."""
    from chainconsumer import Chain

    n = len(chain.samples) // chain.walkers
    data = {c: np.array(chain.samples[c].to_numpy()[i * n : (i + 1) * n]) for c in chain.samples.columns}
    kw = {k: copy.deepcopy(getattr(chain, k)) for k in type(chain).model_fields if k not in NOT_INHERITED}
    return Chain(samples=pd.DataFrame(data), name=f"{chain.name} Walker {i}", **kw)


def outcome(fn):
    try:
        return ("ok", digest(fn()))
    except Exception as exc:  # noqa: BLE001
        return ("err", type(exc).__name__)
    finally:
        close_figures()


def use(kind, chain, parts, ctx, where):
    """The parts work like chains of their own: whatever they are used for, they match hand built ones."""
    from chainconsumer import ChainConsumer

    twins = [hand_built(chain, i) for i in range(len(parts))]
    pair = []
    for members in (parts, twins):
        cc = ChainConsumer()
        for p in members:
            cc.add_chain(p)
        pair.append(cc)
    ctx.check(pair[0].get_names() == pair[1].get_names(), "parts-names", where)
    if len(chain.samples) // chain.walkers < 30 and kind != "summary":
        return
    if kind == "summary":
        for p, t in zip(parts, twins):
            a, b = p.get_max_posterior_point(), t.get_max_posterior_point()
            ctx.same(digest(b), digest(a), "part-best-fit", where)
        if len(chain.samples) // chain.walkers >= 30:
            results = [outcome(cc.analysis.get_summary) for cc in pair]
            ctx.same(results[1], results[0], "part-summary", where)
    elif kind == "diag":
        results = [outcome(lambda: cc.comparison.dic()) for cc in pair]  # noqa: B023
        ctx.same(results[1], results[0], "part-criteria", where)
    elif kind == "plot" and len(parts) <= 4:
        if any(p.kde for p in parts):
            return
        results = [outcome(lambda: run_read(cc, {"r": "plot"})) for cc in pair]  # noqa: B023
        ctx.same(results[1], results[0], "part-plot", where)
    ctx.stat("probe:use-" + kind)


def scribble(part) -> None:
    for k in type(part).model_fields:
        v = getattr(part, k)
        if isinstance(v, list):
            v.append(9.0)
        elif isinstance(v, dict):
            v["intruder"] = 1.0
    for j, c in enumerate(part.samples.columns):
        x = part.samples[c].to_numpy()
        if x.flags.writeable:
            x += np.asarray(1 + j, dtype=x.dtype)
        elif x.dtype.kind == "f":
            part.samples.iloc[:, j] += 1.0 + j


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    if not state["chains"]:
        return
    view = View(state)
    kept: list = []
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        kind = step["s"]
        chain = view.chains[step.get("k", 0) % len(view.chains)]
        if kind == "edit":
            e = step["edit"]
            if e["edit"] == "sort":
                chain.samples = chain.samples.iloc[::-1]
            elif len(chain.samples) > 1 or e["edit"] == "opt":
                world.apply_edit(chain, e)
        elif kind == "walkers":
            if len(chain.samples) % step["m"] == 0:
                chain.walkers = step["m"]
        elif kind == "read":
            op = dict(step["op"])
            if any(len(c.samples) < 30 for c in view.chains) or world.too_heavy(view, op):
                continue
            status, _, injected = disturbed_read(view.cc, op, step["fault"], ctx)
            close_figures()
            ctx.log(i, status, injected)
        else:
            before = chain_snapshot(chain)
            legal = chain.walkers > 1 and not chain.grid
            tracer = Tracer(fault=step.get("fault"))
            if step.get("fault"):
                ctx.stat("offered:" + step["fault"]["kind"])
            parts = None
            for attempt in (0, 1):
                try:
                    if attempt == 0:
                        with tracer:
                            parts = chain.divide()
                    else:
                        parts = chain.divide()
                    break
                except (KeyboardInterrupt, MemoryError):
                    if not tracer.fired or attempt:
                        raise
                    ctx.stat("fault:" + step["fault"]["kind"])
                    ctx.log(i, "interrupted")
                    ctx.same(before, chain_snapshot(chain), "parent-changed", where, rtol=0)
                except AssertionError:
                    if legal:
                        raise
                    ctx.log(i, "refused")
                    break
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            ctx.same(before, chain_snapshot(chain), "parent-changed", where, rtol=0)
            if parts is None:
                continue
            if not ctx.check(legal, "divides-the-indivisible", where) or not judge(chain, parts, ctx, where):
                return
            ctx.stat("probe:divided")
            ctx.log(i, "divided", len(parts))
            ctx.state(len(parts), len(chain.samples), step["use"], [s["s"] for s in trace["steps"][max(0, i - 2): i]],
                      sorted(state["chains"][step["k"] % len(state["chains"])]["opts"]))
            if step["use"] == "again":
                again = chain.divide()
                ctx.same([chain_snapshot(p) for p in parts], [chain_snapshot(p) for p in again], "divided-differently", where, rtol=0)
            elif step["use"] == "write":
                # The owner of one part writes to everything in it that can be written to
                which = step.get("part", 0) % len(parts)
                rest = [(p, chain_snapshot(p)) for q, p in enumerate(parts) if q != which]
                scribble(parts[which])
                ctx.same(before, chain_snapshot(chain), "parent-changed-by-part", where, rtol=0)
                for p, snap in rest:
                    ctx.same(snap, chain_snapshot(p), "part-changed-by-part", where, rtol=0)
            elif step["use"] == "drop":
                kept.append((parts, [chain_snapshot(p) for p in parts]))
            elif step["use"] != "none":
                use(step["use"], chain, parts, ctx, where)
                ctx.same(before, chain_snapshot(chain), "parent-changed", where, rtol=0)
        for parts, snap in kept:
            # what was handed out earlier stays what it was, whatever happens to the parent
            ctx.same(snap, [chain_snapshot(p) for p in parts], "parts-changed-later", where, rtol=0)
        if ctx.violations:
            return
