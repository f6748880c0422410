"""C16: the best fit is an actual sample with the highest posterior, wherever it is reported or drawn."""

from __future__ import annotations

import copy

import numpy as np
import pandas as pd

from dst import world
from dst.data import random_table
from dst.kernel import Tracer, random_fault
from dst.sessions import disturbed_read, reset_rc
from dst.world import View, close_figures, make_chain, make_override

SHRINK = ["steps", "state/chains"]

PIPES = ["slice", "tail", "shuffle", "sort", "filter", "concat", "every", "reindex", "dupe", "labels", "reverse", "int"]
COLS = ["a", "b", "c", "d", 0, "Omega m"]


def generate(rng, tier):
    chains = []
    for nm in rng.sample(["alpha", "model A", "A", "z 1"], rng.choice([1, 2, 2, 3])):
        if chains and rng.random() < 0.2:
            spec = world.random_marker(rng, nm)
            chains.append(spec)
            continue
        spec = world.random_chain(rng, nm, n=60, cols=rng.sample(world.COLS, rng.choice([1, 2, 2, 3])), cheap=True)
        t = random_table(rng, n=rng.choice([1, 2, 40, 60, 120]), cols=[c["name"] for c in spec["table"]["cols"]],
                         weights=rng.choice([False, "weight", "w8"]), posterior=rng.choice([False, "log_posterior", "log_posterior", "lnp"]))
        t["index"] = rng.choice(["range", "offset", "shuffled", "dup", "zeros", "reversed", "str"])
        if t.get("posterior"):
            t["posterior"]["kind"] = rng.choice(["gauss", "noise", "ties", "huge", "positive", "close"])
            t["posterior"]["base"] = rng.choice([-1e6, -1e9, 1e10, 2.0**40])
        spec["table"] = t
        o = spec["opts"]
        for k in ("plot_cloud", "color_param", "walkers", "kde", "multimodal", "grid", "shift_params"):
            o.pop(k, None)
        if t["n"] < 40 or rng.random() < 0.3:
            o["plot_contour"] = False
        o["plot_point"] = rng.random() < 0.8 or not o.get("plot_contour", True)
        if t.get("weights"):
            o["weight_column"] = t["weights"]["name"]
        if t.get("posterior"):
            o["posterior_column"] = t["posterior"]["name"]
        if rng.random() < 0.2:
            o["plot_cloud"] = True
            o["num_cloud"] = 20
            if rng.random() < 0.5:
                o["color_param"] = rng.choice([c["name"] for c in t["cols"]])
        if rng.random() < 0.15 and t["n"] >= 40:
            o["shift_params"] = True
        spec["pipe"] = [[rng.choice(PIPES), rng.randrange(1000)] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        chains.append(spec)
    state = {"chains": chains, "truths": [], "config": None, "override": None}
    steps = []
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        k = rng.randrange(3)
        if r < 0.22:
            kind = rng.choice(["inplace", "scale", "posterior", "posterior", "replace", "peak", "pipe"])
            steps.append({"s": "edit", "k": k, "edit": {"edit": kind, "col": rng.randrange(3), "row": rng.randrange(1000),
                                                        "value": rng.choice([0.3, 2.5]), "pipe": rng.choice(PIPES), "rel": True}})
        elif r < 0.3:
            steps.append({"s": "override", "spec": rng.choice([{}, {"plot_point": True}, {"plot_point": False}, {"marker_size": 33.0},
                                                               {"plot_cloud": True, "num_cloud": 15}])})
        elif r < 0.4:
            steps.append({"s": "read", "op": {"r": rng.choice(["maxpost", "summary", "plot", "divide"]), "n": k}, "fault": random_fault(rng, 80)})
        else:
            step = {"s": "ask", "what": rng.choice(["chain", "all", "list", "dict", "plot", "plot", "divide"]), "k": k,
                    "ks": rng.sample(range(3), rng.choice([1, 2]))}
            if rng.random() < 0.2:
                step["fault"] = random_fault(rng, 40)
            steps.append(step)
    return {"state": state, "steps": steps}


def pipe(frame: pd.DataFrame, name: str, k: int) -> pd.DataFrame:
    """What users do to a table before (or after) handing it over; row labels end up anywhere."""
    n = len(frame)
    if name == "slice" and n > 3:
        return frame.iloc[k % (n // 2):]
    if name == "tail" and n > 3:
        return frame.tail(n - k % (n // 2))
    if name == "shuffle":
        return frame.iloc[np.random.default_rng(k).permutation(n)]
    if name == "sort":
        return frame.sort_values(list(frame.columns)[k % frame.shape[1]], ascending=bool(k & 1))
    if name == "filter" and n > 8:
        c = frame[list(frame.columns)[k % frame.shape[1]]].to_numpy()
        keep = c <= np.quantile(c, 0.7)
        return frame[keep] if keep.any() else frame
    if name == "concat" and n > 3:
        return pd.concat([frame.iloc[n // 2:], frame.iloc[: n // 2]], ignore_index=bool(k & 1))
    if name == "every" and n > 8:
        return frame.iloc[:: 1 + k % 3]
    if name == "reindex":
        return frame.reset_index(drop=True)
    if name == "dupe" and n > 1:
        return pd.concat([frame, frame.iloc[: n // 2]])
    if name == "labels":
        return frame.set_axis([f"r{(i * 7 + k) % n}" for i in range(n)])
    if name == "reverse":
        return frame.iloc[::-1]
    if name == "int":
        return frame.set_axis(np.roll(np.arange(n), k % n))
    return frame


def build(spec):
    from chainconsumer import Chain
    from dst.data import build_table

    frame = build_table(spec["table"])
    for name, k in spec.get("pipe", []):
        frame = pipe(frame, name, k)
    return Chain(samples=frame, name=spec["name"], **world.decode_opts(spec["opts"]))


def best(chain, cloud=None):
    """The acceptable best fits of what a chain holds: (highest posterior, one coordinate per equally good sample)."""
    frame = chain.samples
    if chain.posterior_column not in frame.columns:
        return None
    p = np.array([float(x) for x in frame[chain.posterior_column].to_numpy()])
    roles = {chain.weight_column, chain.posterior_column}
    cloud = chain.plot_cloud if cloud is None else cloud
    if cloud:
        roles.add(chain.color_param)
    cols = [c for c in frame.columns if c not in roles]
    rows = np.flatnonzero(p == p.max())
    return p.max(), [{c: frame[c].to_numpy()[r] for c in cols} for r in rows]


def judge(chain, got, ctx, where) -> None:
    want = best(chain)
    if want is None or got is None:
        ctx.check((want is None) == (got is None), "best-fit-missing", f"{where}: {chain.name}: {got}")
        return
    top, coords = want
    ctx.check(got.log_posterior == top, "best-fit-posterior", f"{where}: {chain.name}: {got.log_posterior} vs {top}")
    ok = any(list(got.coordinate) == list(c) and all(got.coordinate[k] == c[k] for k in c) for c in coords)
    ctx.check(ok, "best-fit-not-a-best-sample", f"{where}: {chain.name}: {got.coordinate} not in {coords[:3]}")


def judge_plot(cc, state, ctx, where) -> None:
    override = state["override"] or {}
    reset_rc()
    chains = [cc.get_chain(n) for n in cc.get_names()]
    on = {c.name: override.get("plot_point", c.plot_point) for c in chains}
    cloud = {c.name: override.get("plot_cloud", c.plot_cloud) for c in chains}
    shown = [c for c in chains if on[c.name] or c.plot_contour or cloud[c.name]]
    if any(c.plot_contour and len(c.samples) < 20 for c in shown) or not any(c.plot_contour or cloud[c.name] for c in shown):
        return
    cols: list = []
    for c in shown:
        roles = {c.weight_column, c.posterior_column} | ({c.color_param} if cloud[c.name] else set())
        cols += [x for x in c.samples.columns if x not in roles and x not in cols]
    if len(cols) < 2:
        return
    try:
        fig = cc.plotter.plot()
    except ValueError:
        ctx.stat("plot_refused")
        return
    k = len(cols)
    for i in range(k):
        for j in range(i):
            ax = fig.axes[i * k + j]
            points = [np.asarray(c.get_offsets())[0] for c in ax.collections
                      if type(c).__name__ == "PathCollection" and len(c.get_offsets()) == 1]
            want = []
            for c in shown:
                b = best(c, cloud[c.name])
                if on[c.name] and b is not None and cols[i] in b[1][0] and cols[j] in b[1][0]:
                    if cloud[c.name] and len(c.samples) == 1:
                        return  # its cloud is a single point, too
                    want.append((c, [(float(x[cols[j]]), float(x[cols[i]])) for x in b[1]]))
                elif cloud[c.name] and len(c.samples) == 1:
                    return
            if not ctx.check(len(points) == len(want), "points-drawn", f"{where}: {cols[j]},{cols[i]}: {points} for {[w[0].name for w in want]}"):
                return
            for p, (c, options) in zip(points, want):
                shift = c.shift_params  # shifting is repeated for figures: equal up to rounding
                scale = max(abs(c.samples[q].to_numpy()).max() for q in (cols[i], cols[j])) + 1e-300
                ok = any(max(abs(p[0] - x), abs(p[1] - y)) <= (1e-9 * scale if shift else 0) for x, y in options)
                if not ctx.check(ok, "point-drawn-elsewhere", f"{where}: {c.name} {cols[j]},{cols[i]}: {p} not in {options[:3]}"):
                    return
    ctx.stat("probe:plot")


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    if not state["chains"]:
        return
    from chainconsumer import ChainConsumer

    cc = ChainConsumer()
    chains = []
    for spec in state["chains"]:
        c = make_chain(spec) if "marker" in spec else build(spec)
        cc.add_chain(c)
        chains.append(c)
    for spec, c in zip(state["chains"], chains):
        if "marker" in spec:
            got = c.get_max_posterior_point()
            ctx.check(got is not None and got.coordinate == spec["marker"], "marker-moved", f"{spec}: {got}")
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        kind = step["s"]
        chain = chains[step.get("k", 0) % len(chains)]
        if kind == "edit":
            e = step["edit"]
            if e["edit"] == "peak":
                # a better sample is found
                if chain.posterior_column in chain.samples:
                    p = chain.samples[chain.posterior_column].to_numpy(dtype=float).copy()
                    p[e["row"] % len(p)] = p.max() + e["value"]
                    chain.samples[chain.posterior_column] = p
            elif e["edit"] == "pipe":
                if not chain.shift_params:
                    chain.samples = pipe(chain.samples, e["pipe"], e["row"])
            elif not chain.shift_params or e["edit"] == "posterior":
                world.apply_edit(chain, e)
        elif kind == "override":
            state["override"] = step["spec"]
            cc.set_override(make_override(step["spec"]))
        elif kind == "read":
            op = dict(step["op"])
            if any(len(c.samples) < 20 for c in chains):
                continue
            status, _, injected = disturbed_read(cc, op, step["fault"], ctx)
            close_figures()
            ctx.log(i, status, injected)
        else:
            what = step["what"]
            tracer = Tracer(fault=step.get("fault") if what != "plot" else None)
            if step.get("fault") and what != "plot":
                ctx.stat("offered:" + step["fault"]["kind"])
            asked = chains
            try:
                with tracer:
                    if what == "chain":
                        asked, got = [chain], {chain.name: chain.get_max_posterior_point()}
                    elif what == "all":
                        got = cc.analysis.get_max_posteriors()
                    elif what in ("list", "dict"):
                        asked = [chains[q] for q in sorted({q % len(chains) for q in step["ks"]})]
                        arg = [c.name for c in asked] if what == "list" else {c.name: c for c in asked}
                        got = cc.analysis.get_max_posteriors(arg)
                    elif what == "divide":
                        if len(chain.samples) % 2:
                            continue
                        old, chain.walkers = chain.walkers, 2
                        try:
                            asked = chain.divide()
                        finally:
                            chain.walkers = old
                        got = {c.name: c.get_max_posterior_point() for c in asked}
            except (KeyboardInterrupt, MemoryError):
                if not tracer.fired:
                    raise
                ctx.stat("fault:" + step["fault"]["kind"])
                continue
            if what == "plot":
                judge_plot(cc, state, ctx, where)
                close_figures()
            else:
                have = [c.name for c in asked if c.posterior_column in c.samples.columns]
                got = {k: v for k, v in got.items() if v is not None or what in ("all", "list", "dict")}
                ctx.check(list(got) == have, "best-fit-chains", f"{where}: {list(got)} vs {have}")
                for c in asked:
                    judge(c, got.get(c.name), ctx, where)
                ctx.stat("probe:" + what)
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            ctx.log(i, what, len(ctx.violations))
            ctx.state(what, [s.get("pipe") for s in state["chains"]], [s.get("table", {}).get("index") for s in state["chains"]],
                      [s["s"] for s in trace["steps"][max(0, i - 2): i]])
        if ctx.violations:
            return
