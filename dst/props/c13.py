"""C13: model comparison ranks exactly the chains held now, by their own numbers, best at zero, whatever came before."""

from __future__ import annotations

import math

import numpy as np

from dst import world
from dst.data import random_table
from dst.kernel import Tracer, random_fault
from dst.sessions import disturbed_read
from dst.world import make_chain, make_override

SHRINK = ["steps", "pool"]

NAMES = ["alpha", "model A", "A", "z 1", "beta", "10"]
TEXTS = ["", "Plain", "50% done", "{braces}", "a_b^2 $x$"]


def numbers(rng):
    """(num_free_params, num_eff_data_points): either may be missing."""
    k = rng.choice([None, 0, 1, 2, 3, 5, 10])
    n = rng.choice([None, 20, 50, 137.5, 1000, 4, 8])
    if k is not None and n is not None and abs(n - k - 1) < 0.25:
        n = n + 3
    return k, n


def generate(rng, tier):
    pool = []
    for i in range(rng.choice([1, 2, 3, 4, 6])):
        kinds = rng.choice([None, ["normal", "uniform"], ["int"]])
        t = random_table(rng, n=rng.choice([1, 2, 5, 60, 96, 240]), cols=rng.sample(world.COLS, rng.choice([1, 1, 2, 3])), kinds=kinds)
        if t.get("posterior") and rng.random() < 0.5:
            t["posterior"]["kind"] = rng.choice(["noise", "ties", "huge", "positive", "gauss"])
        t["index"] = rng.choice(["range", "offset", "shuffled", "dup", "reversed"])
        k, n = numbers(rng)
        opts = {}
        if k is not None:
            opts["num_free_params"] = k
        if n is not None:
            opts["num_eff_data_points"] = n
        if rng.random() < 0.15:
            opts["shift_params"] = True
        if rng.random() < 0.2:
            opts["power"] = 0.5
        pool.append({"name": rng.choice(NAMES), "table": t, "opts": opts, "edits": []})
    steps = [{"s": "add", "c": 0, "k": i} for i in range(len(pool))]
    fault_rate = rng.choice([0.0, 0.2, 0.5])
    for _ in range(rng.randint(6, 24)):
        r = rng.random()
        c = rng.randrange(2)
        if r < 0.15:
            steps.append({"s": "add", "c": c, "k": rng.randrange(len(pool))})
        elif r < 0.23:
            steps.append({"s": "remove", "c": c, "n": rng.randrange(6), "by": rng.choice(["name", "chain"])})
        elif r < 0.42:
            kind = rng.choice(["numbers", "numbers", "posterior", "weights", "inplace", "replace", "lift", "scale"])
            e = {"s": "edit", "k": rng.randrange(len(pool)), "edit": kind, "col": rng.randrange(3), "row": rng.randrange(240),
                 "value": rng.choice([0.4, 2.5, 7.0])}
            if kind == "numbers":
                e["numbers"] = list(numbers(rng))
            steps.append(e)
        elif r < 0.47:
            steps.append({"s": "override", "c": c, "spec": rng.choice([{}, {"shade_alpha": 0.2}, {"bins": 9, "color": "k"}])})
        elif r < 0.55:
            op = {"r": rng.choice(["latex", "maxpost", "summary", "gr", "divide"]), "n": rng.randrange(6)}
            steps.append({"s": "read", "c": c, "op": op, "fault": random_fault(rng, 60)})
        else:
            f = [rng.random() < 0.8 for _ in range(3)]
            step = {"s": "compare", "c": c, "what": rng.choice(["aic", "bic", "dic", "table", "table"]), "flags": f,
                    "sort": rng.choice(["aic", "bic", "dic", None]), "descending": rng.random() < 0.6,
                    "hlines": rng.random() < 0.7, "caption": rng.choice(TEXTS), "label": rng.choice(TEXTS)}
            if rng.random() < fault_rate:
                step["fault"] = random_fault(rng, 60)
            steps.append(step)
    steps.append({"s": "compare", "c": 0, "what": "all"})
    return {"pool": pool, "steps": steps}


def average(values, weights) -> float:
    return math.fsum(float(v) * float(w) for v, w in zip(values, weights)) / math.fsum(float(w) for w in weights)


def reference(chain) -> dict:
    """The criteria of one chain before they are set against the best: value and what rounding may do to it."""
    frame = chain.samples
    if chain.posterior_column not in frame:
        return {}
    p = [float(x) for x in frame[chain.posterior_column]]
    top = max(p)
    w = [float(x) for x in frame[chain.weight_column]] if chain.weight_column in frame else [1.0] * len(p)
    out = {}
    k, n = chain.num_free_params, chain.num_eff_data_points
    slack = 1e-10 * max(map(abs, p)) + 1e-9
    if k is not None and n is not None:
        out["bic"] = (k * math.log(n) - 2 * top, k * math.log(n) - 2 * top, slack)
        v = 2 * k - 2 * top + 2.0 * k * (k + 1) / (n - k - 1)
        out["aic"] = (v, v, slack)
    cols = [c for c in frame.columns if c not in (chain.weight_column, chain.posterior_column)]
    points = np.array([[float(x) for x in frame[c]] for c in cols]).T
    mean = np.array([average(points[:, j], w) for j in range(len(cols))])
    dist = np.sqrt(((points - mean) ** 2).sum(axis=1))
    scale = np.abs(points).max() + 1e-300
    near = dist <= dist.min() * (1 + 1e-9) + 1e-11 * scale
    d = [-2 * x for x in p]
    mean_d = average(d, w)
    centre = [d[i] for i in np.flatnonzero(near)]  # equally near samples: either may stand for the mean
    values = [2 * mean_d - x for x in centre]
    out["dic"] = (min(values), max(values), 4 * slack)
    return out


def expected(registry: dict) -> dict:
    """Per criterion: chain -> (lowest, highest, slack), relative to the best."""
    refs = {name: reference(c) for name, c in registry.items()}
    out = {}
    for crit in ("aic", "bic", "dic"):
        have = {name: r[crit] for name, r in refs.items() if crit in r}
        if not have:
            out[crit] = {}
            continue
        slack = max(s for *_, s in have.values())
        lo_min = min(lo for lo, _, _ in have.values())
        hi_min = min(hi for _, hi, _ in have.values())
        out[crit] = {name: (lo - hi_min, hi - lo_min, slack) for name, (lo, hi, _) in have.items()}
    return out


def judge(crit, got, want, ctx, where) -> bool:
    ok = ctx.check(list(got) == list(want[crit]), f"{crit}-chains", f"{where}: {list(got)} vs {list(want[crit])}")
    if not ok:
        return False
    for name, v in got.items():
        lo, hi, slack = want[crit][name]
        ok = ctx.check(lo - slack <= v <= hi + slack, f"{crit}-value", f"{where}: {name}: {v}, expected within [{lo}, {hi}] ± {slack}")
        if not ok:
            return False
    if got:
        return ctx.check(min(got.values()) == 0, f"{crit}-best-not-zero", f"{where}: {got}")
    return True


def judge_table(text, step, flags, sort, want, ctx, where):
    ctx.check("\\caption{" + step["caption"] + "}" in text and "\\label{" + step["label"] + "}" in text, "table-caption", where)
    body = text[text.rindex("\\begin{tabular}{") + len("\\begin{tabular}{"):]
    spec, body = body.split("}", 1)
    body = body[: body.rindex("\\end{tabular}")]
    ctx.check(body.count("\\hline") == (3 if step["hlines"] else 0), "table-rules", where)
    rows = [[c.strip() for c in r.split("&")] for r in body.replace("\\hline", "").split("\\\\") if r.strip()]
    used = [c for c, f in zip(("aic", "bic", "dic"), flags) if f]
    ok = ctx.check(rows and rows[0] == ["Model", *[c.upper() for c in used]], "table-header", f"{where}: {rows[:1]}")
    ok = ok and ctx.check(len(spec.replace("|", "")) == 1 + len(used), "table-columns", f"{where}: {spec!r}")
    if not ok:
        return
    names = sorted({n for c in used for n in want[c]})
    if not ctx.check(sorted(r[0] for r in rows[1:]) == names, "table-chains", f"{where}: {[r[0] for r in rows[1:]]} vs {names}"):
        return
    for row in rows[1:]:
        for crit, cell in zip(used, row[1:]):
            if row[0] not in want[crit]:
                ctx.check(cell == "nan", "table-missing-value", f"{where}: {row}")
                continue
            lo, hi, slack = want[crit][row[0]]
            ctx.check(lo - slack - 0.0501 <= float(cell) <= hi + slack + 0.0501, "table-value", f"{where}: {row} {crit} [{lo}, {hi}]")
    ranks = [want[sort].get(r[0]) for r in rows[1:]]
    missing = [x is None for x in ranks]
    ctx.check(missing == sorted(missing), "table-order", f"{where}: chains without {sort} are not at the end")
    known = [x for x in ranks if x is not None]
    for a, b in zip(known, known[1:]):
        # first the larger (descending) or the smaller one
        ok = a[1] + 2 * a[2] >= b[0] if step["descending"] else a[0] - 2 * a[2] <= b[1]
        ctx.check(ok, "table-order", f"{where}: {[r[0] for r in rows[1:]]} {known}")


def execute(trace, ctx):
    from chainconsumer import ChainConsumer

    if not trace["pool"]:
        return
    pool = [make_chain(s) for s in trace["pool"]]
    consumers = [ChainConsumer(), ChainConsumer()]
    models: list[dict] = [{}, {}]
    for i, step in enumerate(trace["steps"]):
        kind = step["s"]
        where = f"step {i} {step}"
        if "k" in step:
            k = step["k"] % len(pool)
        cc, model = (consumers[step["c"]], models[step["c"]]) if "c" in step else (None, None)
        if kind == "add":
            if pool[k].name in model:
                cc.remove_chain(pool[k].name)
                del model[pool[k].name]
            cc.add_chain(pool[k])
            model[pool[k].name] = pool[k]
        elif kind == "remove":
            if model:
                name = list(model)[step["n"] % len(model)]
                cc.remove_chain(name if step["by"] == "name" else model[name])
                del model[name]
        elif kind == "edit":
            chain = pool[k]
            if step["edit"] == "numbers":
                chain.num_free_params, chain.num_eff_data_points = step["numbers"]
            elif step["edit"] == "lift":
                if chain.posterior_column in chain.samples:
                    chain.samples[chain.posterior_column] += step["value"]
            else:
                world.apply_edit(chain, {**step, "edit": step["edit"]})
        elif kind == "override":
            cc.set_override(make_override(step["spec"]))
        elif kind == "read":
            op = dict(step["op"])
            if not model or any(len(c.samples) < 60 for c in model.values()):
                continue
            status, _, injected = disturbed_read(cc, op, step["fault"], ctx)
            world.close_figures()
            ctx.log(i, status, injected)
        else:
            want = expected(model)
            todo = ["aic", "bic", "dic", "table"] if step["what"] == "all" else [step["what"]]
            for what in todo:
                flags = step.get("flags", [True] * 3)
                used = [c for c, f in zip(("aic", "bic", "dic"), flags) if f]
                sort = step.get("sort") or (used[0] if used else "bic")
                legal = sort in used
                args = {"caption": step.get("caption", ""), "label": step.get("label", ""), "hlines": step.get("hlines", True),
                        "descending": step.get("descending", True)}
                tracer = Tracer(fault=step.get("fault"))
                try:
                    with tracer:
                        if what == "table":
                            got = cc.comparison.comparison_table(aic=flags[0], bic=flags[1], dic=flags[2], sort=sort, **args)
                        else:
                            got = getattr(cc.comparison, what)()
                except (KeyboardInterrupt, MemoryError):
                    if not tracer.fired:
                        raise
                    ctx.stat("fault:" + step["fault"]["kind"])
                    ctx.log(i, what, "interrupted")
                    continue
                except AssertionError:
                    if what != "table" or legal:
                        raise
                    ctx.log(i, what, "refused")
                    continue
                finally:
                    ctx.stat("steps")
                    ctx.stat("lines", tracer.lines)
                    if step.get("fault"):
                        ctx.stat("offered:" + step["fault"]["kind"])
                if what == "table":
                    if ctx.check(legal, "sorts-by-a-missing-column", where):
                        judge_table(got, {**args}, flags, sort, want, ctx, where)
                else:
                    judge(what, got, want, ctx, where)
                ctx.stat("probe:" + what)
                ctx.log(i, what, len(ctx.violations))
                ctx.state(what, len(model), len(want["aic"]), len(want["dic"]), sort, args["descending"],
                          [s["s"] for s in trace["steps"][max(0, i - 2): i]])
        if cc is not None and kind in ("add", "remove"):
            ctx.check(list(cc.get_names()) == list(model), "registry", where)
        if ctx.violations:
            return
