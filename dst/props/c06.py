"""C06: results depend only on what the consumer holds now, not on the history that led there."""

from __future__ import annotations

import copy
import gc

from dst import world
from dst.digest import digest
from dst.kernel import random_fault
from dst.sessions import disturbed_read, frozen, pristine_read
from dst.world import View, apply_edit, make_chain, make_config, make_override, make_truth

SHRINK = ["steps", "init/0/chains", "init/1/chains", "init/0/truths"]
evaluate = pristine_read

EDIT_OPTS = {
    "summary_area": [0.3, 0.6827, 0.8, 0.95],
    "statistics": ["max", "mean", "cumulative", "max_central"],
    "smooth": [0, 1, 2, 3],
    "bins": [6, 9, 15, 25],
    "power": [0.5, 1.0, 2.0],
    "kde": [False, 0.8],
    "color": ["red", "#0000ff"],
    "linestyle": ["--", ":"],
    "linewidth": [0.5, 3.0],
    "shade": [True, False],
    "bar_shade": [True, False],
    "plot_point": [True, False],
    "histogram_relative_height": [0.5, 1.0],
    "num_free_params": [1, 4],
    "num_eff_data_points": [15, 80],
    "marker_size": [12.0, 50.0],
    "show_label_in_legend": [True, False],
    "sigmas": [[0, 1], [0, 2]],
}


# What is read again and again, and the edits it has to notice
THEMES = [
    (["maxpost", "maxpoint"], ["best", "posterior", "best", "swap"]),
    (["bounds", "text", "hdi", "summary"], ["swap", "middle", "one", "weights", "inplace", "exchange"]),
    (["gr", "geweke"], ["swap", "exchange", "one", "inplace"]),
    (["dic", "comp", "bic"], ["best", "posterior", "weights", "inplace"]),
    (["corr", "covmat", "cov"], ["swap", "exchange", "weights", "one"]),
    (["divide"], ["swap", "weights", "posterior", "inplace"]),
    (["dist", "contour", "cloud", "point"], ["best", "swap", "middle", "weights", "one"]),
]


def random_edit(rng, theme=None):
    if theme is not None and rng.random() < 0.8:
        return {"edit": rng.choice(theme[1]), "col": rng.randrange(4), "row": rng.randrange(500),
                "value": rng.choice([2.5, 0.3, 1.7])}
    if rng.random() < 0.45:
        name = rng.choice(sorted(EDIT_OPTS))
        return {"edit": "opt", "name": name, "value": rng.choice(EDIT_OPTS[name])}
    kind = rng.choice(["scale", "shift", "inplace", "inplace", "weights", "posterior", "replace", "middle", "swap", "one", "exchange",
                       "best"])
    return {"edit": kind, "col": rng.randrange(4), "row": rng.randrange(500),
            "value": rng.choice([2.5, 0.3, 1.7])}


def random_tweak(rng):
    """How a chain re-added under the same name differs from the one it replaces."""
    r = rng.random()
    if r < 0.35:
        return {"seed": rng.randrange(10**6)}
    if r < 0.55:
        return {"loc": round(rng.uniform(-3, 3), 2)}
    if r < 0.9:
        name = rng.choice([k for k in sorted(EDIT_OPTS) if k != "kde"])
        return {"opt": {name: rng.choice(EDIT_OPTS[name])}}
    return {"n": rng.choice([48, 72])}


def generate(rng, tier):
    names = rng.sample(["alpha", "beta", "A", "model A", "gamma"], 4)
    p_plot = rng.choice([0.05, 0.25, 0.5])
    init = []
    for _ in range(rng.choice([1, 1, 2])):
        init.append(world.random_state(rng, names=names, n_chains=rng.choice([1, 2, 3]), n=rng.choice([60, 96, 180])))
        for spec in init[-1]["chains"]:
            if spec.get("table", {}).get("posterior") and rng.random() < 0.4:
                spec["table"]["posterior"]["grain"] = True
    steps = []
    theme = rng.choice(THEMES) if rng.random() < 0.4 else None
    watched = [world.random_read(rng, p_plot, theme and theme[0]) for _ in range(rng.choice([1, 2, 2, 3]))]
    for _ in range(rng.randint(5, 11)):
        c = rng.randrange(len(init))
        r = rng.random()
        if r < 0.5:
            op = rng.choice(watched) if rng.random() < 0.75 else world.random_read(rng, p_plot)
            step = {"s": "read", "c": c, "op": op}
            if rng.random() < 0.15:
                step["fault"] = random_fault(rng)
            steps.append(step)
        elif r < 0.68:
            steps.append({"s": "edit", "c": c, "k": rng.randrange(5), "edit": random_edit(rng, theme)})
        elif r < 0.78:
            steps.append({"s": "replace", "c": c, "k": rng.randrange(5), "tweak": random_tweak(rng)})
        elif r < 0.83:
            steps.append({"s": "add", "c": c, "spec": world.random_chain(rng, rng.choice(names), n=rng.choice([60, 96]))})
        elif r < 0.87:
            steps.append({"s": "remove", "c": c, "k": rng.randrange(5)})
        elif r < 0.9:
            steps.append({"s": "share", "c": c, "from": rng.randrange(len(init)), "k": rng.randrange(5)})
        elif r < 0.93:
            steps.append({"s": "config", "c": c, "spec": world.random_config(rng)})
        elif r < 0.96:
            steps.append({"s": "override", "c": c, "spec": world.random_override(rng) if rng.random() < 0.7 else {}})
        elif r < 0.98:
            steps.append({"s": "truth", "c": c, "spec": world.random_truth(rng)})
        else:
            steps.append({"s": "label", "c": c, "col": rng.choice(world.COLS), "text": rng.choice(["$q$", "$r_1$"])})
    # end on a change followed by the watched reads
    c = rng.randrange(len(init))
    steps.append({"s": "edit", "c": c, "k": rng.randrange(5), "edit": random_edit(rng, theme)})
    steps += [{"s": "read", "c": c, "op": op} for op in watched]
    return {"init": init, "steps": steps}


def execute(trace, ctx):
    views, states = [], []
    for st in trace["init"]:
        st = copy.deepcopy(st)
        states.append(st)
        views.append(View(st))
    claims = 0
    for i, step in enumerate(trace["steps"]):
        c = step["c"] % len(views)
        view, st = views[c], states[c]
        kind = step["s"]
        if kind == "read":
            if not st["chains"] or world.too_heavy(view, step["op"]):
                continue
            status, value, injected = disturbed_read(view.cc, step["op"], step.get("fault"), ctx)
            world.close_figures()
            ctx.log(i, status, injected, None if status != "ok" else "v")
            ctx.stat(f"outcome_{status}")
            if status != "injected":
                claims += 1
                ctx.claim(
                    "history-dependence:" + step["op"]["r"],
                    {"state": frozen(st), "op": step["op"]},
                    (status, value),
                    f"step {i} {step['op']}",
                )
            ctx.state("read", step["op"]["r"], [s["s"] for s in trace["steps"][max(0, i - 2):i]], status)
            continue
        if kind in ("edit", "remove", "replace") and not st["chains"]:
            continue
        if kind == "edit":
            k = step["k"] % len(st["chains"])
            chain = view.chains[k]
            e = step["edit"]
            apply_edit(chain, e)
            # A chain may be registered with several consumers
            for v2, s2 in zip(views, states):
                for ch2, spec2 in zip(v2.chains, s2["chains"]):
                    if ch2 is chain:
                        spec2["edits"].append(e)
        elif kind == "replace":
            k = step["k"] % len(st["chains"])
            spec = copy.deepcopy(st["chains"][k])
            if "table" not in spec:
                continue
            spec["edits"] = []
            t = step["tweak"]
            if "seed" in t:
                spec["table"]["seed"] = t["seed"]
            if "loc" in t:
                spec["table"]["cols"][0]["loc"] = t["loc"]
            if "n" in t:
                spec["table"]["n"] = t["n"]
            if "opt" in t:
                o = dict(t["opt"])
                if spec["opts"].get("multimodal"):
                    o.pop("statistics", None)
                spec["opts"].update(o)
            try:
                chain = make_chain(spec)
            except Exception:  # noqa: BLE001
                continue
            view.cc.remove_chain(spec["name"])
            view.chains.pop(k)
            st["chains"].pop(k)
            gc.collect()
            view.cc.add_chain(chain)
            view.chains.append(chain)
            st["chains"].append(spec)
        elif kind == "add":
            if step["spec"]["name"] in [s["name"] for s in st["chains"]]:
                continue
            spec = copy.deepcopy(step["spec"])
            chain = make_chain(spec)
            view.cc.add_chain(chain)
            view.chains.append(chain)
            st["chains"].append(spec)
        elif kind == "share":
            src = step["from"] % len(views)
            if not states[src]["chains"]:
                continue
            k = step["k"] % len(states[src]["chains"])
            spec = states[src]["chains"][k]
            if spec["name"] in [s["name"] for s in st["chains"]]:
                continue
            view.cc.add_chain(views[src].chains[k])
            view.chains.append(views[src].chains[k])
            st["chains"].append(copy.deepcopy(spec))
        elif kind == "remove":
            k = step["k"] % len(st["chains"])
            view.cc.remove_chain(st["chains"][k]["name"])
            view.chains.pop(k)
            st["chains"].pop(k)
            gc.collect()
        elif kind == "config":
            view.config = make_config(step["spec"])
            view.cc.set_plot_config(view.config)
            st["config"] = copy.deepcopy(step["spec"])
        elif kind == "override":
            view.override = make_override(step["spec"])
            view.cc.set_override(view.override)
            st["override"] = copy.deepcopy(step["spec"])
        elif kind == "truth":
            t = make_truth(step["spec"])
            view.truths.append(t)
            view.cc.add_truth(t)
            st["truths"].append(copy.deepcopy(step["spec"]))
        elif kind == "label":
            # editing the configuration object the consumer already has
            if st["config"] is None:
                continue
            view.config.labels[step["col"]] = step["text"]
            st["config"].setdefault("labels", {})[step["col"]] = step["text"]
        ctx.stat("mutations")
        ctx.log(i, kind)
    ctx.stat("digests", len([digest(c.name) for v in views for c in v.chains]))
