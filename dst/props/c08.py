"""C08: override beats the chain's own options, which beat contextual defaults; originals stay as they were."""

from __future__ import annotations

import copy

import matplotlib.colors as mc
import numpy as np

from dst import world
from dst.kernel import random_fault
from dst.sessions import chain_snapshot, consumer_snapshot, disturbed_read, frozen, pristine_read
from dst.world import View, make_override, run_read

SHRINK = ["steps", "state/chains"]
evaluate = pristine_read

READS = ["summary", "latex", "plot", "plot", "dists", "sumplot", "walks", "summary", "latex"]


# Options the user may well change on a chain they hold
ASSIGNED = {
    "shade": [True, False],
    "bar_shade": [True, False],
    "shade_alpha": [0.3, 0.5],
    "sigmas": [[0, 1, 2], [0, 1]],
    "linewidth": [1.0, 2.5],
    "color": ["#aa3311", "purple", "green", [0.2, 0.6, 0.1]],
    "zorder": [10, 14],
    "summary_area": [0.6827, 0.5],
    "show_contour_labels": [True, False],
}


def generate(rng, tier):
    many = rng.random() < 0.45
    n_chains = rng.choice([4, 5, 6, 8]) if many else rng.choice([1, 2, 3])
    names = ["alpha", "beta", "model A", "A", "gamma", "m5", "z", "q", "r"]
    rng.shuffle(names)
    chains = []
    for i in range(n_chains):
        if i and rng.random() < 0.12:
            chains.append(world.random_marker(rng, names[i]))
        else:
            spec = world.random_chain(
                rng, names[i], n=60, cols=["a", "b"] if many or rng.random() < 0.7 else ["a", "b", "c"],
                heavy=False, exclude=("kde", "multimodal", "walkers") + (("plot_cloud",) if rng.random() < 0.5 else ()),
                kinds=["normal", "skew", "uniform"],
            )
            if rng.random() < 0.5:
                spec["opts"].pop("color", None)
                if rng.random() < 0.15:
                    spec["opts"]["color"] = None
            # Explicitly asking for what happens to be the field default must still win
            if rng.random() < 0.3:
                spec["opts"][rng.choice(["shade", "bar_shade"])] = True
            if rng.random() < 0.15:
                spec["opts"]["shade_alpha"] = 0.5
            if rng.random() < 0.15:
                spec["opts"]["sigmas"] = rng.choice([[0, 1, 2], [0, 1]])
            if rng.random() < 0.85:
                spec["opts"]["bins"] = rng.choice([6, 8, 10])
                spec["opts"]["smooth"] = rng.choice([0, 1])
            chains.append(spec)
    state = {"chains": chains, "truths": [], "config": None, "override": None}
    steps = []
    for _ in range(rng.randint(2, 4)):
        ov = None
        if rng.random() < 0.6:
            ov = world.random_override(rng)
            if rng.random() < 0.15:
                ov["plot_contour"] = rng.random() < 0.5
                ov.setdefault("plot_point", True)
            if rng.random() < 0.1:
                ov["color"] = None
        op = world.random_read(rng, kinds=READS)
        op.pop("cols", None) if rng.random() < 0.5 else None
        step = {"override": ov, "op": op}
        if ov and rng.random() < 0.3:
            step["late"] = True
        if rng.random() < 0.15:
            step["fault"] = random_fault(rng, 100)
        steps.append(step)
        if rng.random() < 0.15:
            steps.append({"remove": rng.randrange(9)})
        if rng.random() < 0.25:
            name = rng.choice(sorted(ASSIGNED))
            steps.insert(rng.randrange(len(steps) + 1), {"assign": rng.randrange(9), "name": name, "value": rng.choice(ASSIGNED[name])})
    return {"state": state, "steps": steps}


def as_chain(spec: dict, override: dict) -> dict:
    """The chain spec with the override written into its own options."""
    spec = copy.deepcopy(spec)
    if "marker" in spec:
        loc = spec.pop("marker")
        spec["table"] = {"literal": {**{k: [v] for k, v in loc.items()}, "weight": [1.0], "log_posterior": [1.0]}}
        spec["opts"] = {
            "marker_size": 20.0, "marker_style": ".", "marker_alpha": 1.0, "plot_contour": False, "plot_point": True,
            **spec["opts"],
        }
    spec["opts"] = {**spec["opts"], **override}
    return spec


def effective(state, override):
    """What the documented precedence gives each chain, for the options the reference judges directly."""
    from chainconsumer import colors

    # The defaults depend on what the chains are in the end
    def contour(s):
        return override.get("plot_contour", "marker" not in s and s["opts"].get("plot_contour", True))

    n = sum(1 for s in state["chains"] if contour(s))
    palette = colors.next_colour()
    out = []
    for s in state["chains"]:
        o = s["opts"]
        e = {
            "name": s["name"],
            "contour": contour(s),
            "shade": o.get("shade", n < 5),
            "bar_shade": o.get("bar_shade", n < 5),
            "linewidth": o.get("linewidth", 1.0),
            "zorder": o.get("zorder", 10),
            "label": o.get("show_label_in_legend", True),
            "auto": (override["color"] if "color" in override else o.get("color")) is None,
        }
        e["drawn"] = (
            e["contour"]
            or override.get("plot_point", o.get("plot_point", "marker" in s))
            or override.get("plot_cloud", o.get("plot_cloud", False))
        )
        alpha = (1.0 / np.sqrt(n) if n else 1.0) * (0.5 if override.get("show_contour_labels", o.get("show_contour_labels")) else 1.0)
        e["alpha"] = o.get("shade_alpha", alpha)
        own = override["color"] if "color" in override else o.get("color")
        e["color"] = colors.format(own) if own is not None else next(palette)
        for k in ("shade", "bar_shade", "linewidth", "zorder"):
            e[k] = override.get(k, e[k])
        e["alpha"] = override.get("shade_alpha", e["alpha"])
        out.append(e)
    return out


def judge(view, state, override, ctx, where):
    """Direct oracle on the triangle plot."""
    eff = effective(state, override)
    autos = [e["color"] for e in eff if e["auto"]]
    ctx.check(len(set(autos)) == len(autos), "default-colours-not-distinct", f"{where}: {autos}")
    if not any(e["contour"] for e in eff):
        return
    try:
        fig = run_read(view.cc, {"r": "plot"})
    except Exception:  # noqa: BLE001
        return
    try:
        names = view.cc.get_names()
        drawn = [e for e in eff if e["drawn"]]
        shown = [e for e in drawn if e["label"]]
        if len(drawn) > 1:
            legends = [ax.get_legend() for ax in fig.axes if ax.get_legend() is not None]
            ctx.check(len(legends) == 1, "legend-missing", where)
            if legends:
                lines = legends[0].get_lines()
                got = [(ln.get_label().strip(), mc.to_hex(ln.get_color())) for ln in lines]
                want = [(e["name"].strip(), mc.to_hex(e["color"])) for e in shown]
                ctx.check(got == want, "effective-colour", f"{where}: legend {got}, expected {want}")
        chains = {n: view.cc.get_chain(n) for n in names}
        cols: list[str] = []
        for n, e in zip(names, eff):
            if e["drawn"]:
                cols += [c for c in chains[n].plotting_columns if c not in cols]
        k = len(cols)
        if len(fig.axes) < k * k:
            return  # drawn in some other arrangement
        grid = np.array(fig.axes[: k * k], dtype=object).reshape(k, k)
        has_cloud = any(override.get("plot_cloud", c.plot_cloud) for c in chains.values())
        for i, p in enumerate(cols):
            members = [e for e in eff if e["contour"] and p in chains[e["name"]].samples]
            # The one dimensional panel: one curve per chain, in order
            ax = grid[i, i]
            fills = [c for c in ax.collections if "Poly" in type(c).__name__]
            want_fill = [e for e in members if e["bar_shade"]]
            ctx.check(len(fills) <= len(want_fill), "bar-shade", f"{where}: {p}: {len(fills)} bands, expected {len(want_fill)}")
            if not want_fill or len(fills) == len(want_fill):
                got = [mc.to_hex(c.get_facecolor()[0]) for c in fills]
                ctx.check(got == [mc.to_hex(e["color"]) for e in want_fill], "bar-shade-colour", f"{where}: {p}: {got}")
            for j in range(i):
                q = cols[j]
                if has_cloud and any(override.get("plot_cloud", c.plot_cloud) and c.color_param for c in chains.values()):
                    continue  # columns used as colours are not drawn; settled by the metamorphic claims
                both = [e for e in members if q in chains[e["name"]].samples]
                sets = [c for c in grid[i, j].collections if type(c).__name__ == "QuadContourSet"]
                pos = 0
                for e in both:
                    if e["shade"] and e["alpha"] > 0:
                        ok = pos < len(sets) and sets[pos].filled
                        if not ctx.check(ok, "shade-missing", f"{where}: {p},{q} chain {e['name']}"):
                            return
                        a = sets[pos].get_alpha()
                        ctx.check(
                            a is not None and np.isclose(a, e["alpha"]), "shade-alpha",
                            f"{where}: {p},{q} chain {e['name']}: alpha {a}, expected {e['alpha']}",
                        )
                        pos += 1
                    ok = pos < len(sets) and not sets[pos].filled
                    if not ctx.check(ok, "contours-or-shade", f"{where}: {p},{q} chain {e['name']}"):
                        return
                    lw = np.ravel(sets[pos].get_linewidth())[0]
                    ctx.check(np.isclose(lw, e["linewidth"]), "linewidth", f"{where}: {e['name']}: {lw}")
                    ctx.check(sets[pos].get_zorder() == e["zorder"], "zorder", f"{where}: {e['name']}")
                    pos += 1
                ctx.check(pos == len(sets), "too-many-contours", f"{where}: {p},{q}")
    finally:
        world.close_figures()


def judge_shift(view, state, override, ctx, where):
    """An overridden shift moves the summaries by the mean of the samples."""
    def centres():
        try:
            return view.cc.analysis.get_summary()
        except Exception:  # noqa: BLE001
            return None

    moved = centres()
    view.cc.set_override(make_override({k: v for k, v in override.items() if k != "shift_params"}))
    plain = centres()
    view.cc.set_override(make_override(override))
    if not moved or not plain:
        return
    for spec in state["chains"]:
        o = {**spec["opts"], **override}
        name = spec["name"]
        if "marker" in spec or name not in moved or o.get("statistics") not in ("mean", "cumulative"):
            continue
        chain = view.cc.get_chain(name)
        for p, b in moved[name].items():
            x, w = chain.samples[p].to_numpy(float), chain.weights
            mean = np.average(x, weights=w)
            std = np.sqrt(np.average((x - mean) ** 2, weights=w))
            for end in ("lower", "center", "upper"):
                u, v = getattr(plain[name][p], end), getattr(b, end)
                if u is None or v is None:
                    continue
                ctx.check(
                    abs(u - mean - v) <= 0.3 * std + 1e-9 * abs(mean), "shift-not-applied",
                    f"{where}: {name} {p} {end}: {v}, expected {u} - {mean}",
                )


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    view = View(state)
    base = [chain_snapshot(c) for c in view.chains]
    current: dict = {}
    for i, step in enumerate(trace["steps"]):
        if not state["chains"]:
            return
        if "remove" in step:
            k = step["remove"] % len(state["chains"])
            view.cc.remove_chain(state["chains"][k]["name"])
            for lst in (view.chains, state["chains"], base):
                lst.pop(k)
            continue
        if "assign" in step:
            k = step["assign"] % len(state["chains"])
            setattr(view.chains[k], step["name"], copy.deepcopy(step["value"]))
            state["chains"][k]["opts"][step["name"]] = copy.deepcopy(step["value"])
            base[k] = chain_snapshot(view.chains[k])
            ctx.stat("options_assigned")
            continue
        if step["override"] is not None or current:
            current = step["override"] or {}
            view.override = make_override({} if step.get("late") else current)
            if step.get("late"):
                for name, value in world.decode_opts(current).items():
                    setattr(view.override, name, value)
            view.cc.set_override(view.override)
        op = step["op"]
        where = f"step {i} {op} override={current}"
        before = consumer_snapshot(view)
        status, value, injected = disturbed_read(view.cc, op, step.get("fault"), ctx)
        world.close_figures()
        ctx.log(i, status, injected)
        ctx.state(op["r"], sorted(current), len(state["chains"]), status)
        ctx.same(before, consumer_snapshot(view), "originals-changed", where, rtol=0)
        if status != "injected":
            merged = frozen(state)
            # The shift stays an override: an option of the chain is applied once more, which is the same only up to
            # rounding, and samples sit on the edges of bins (settled by `judge_shift`)
            rest = {k: v for k, v in current.items() if k != "shift_params"}
            merged["chains"] = [as_chain(s, rest) for s in merged["chains"]]
            if "shift_params" in current:
                merged["override"] = {"shift_params": current["shift_params"]}
            if current or i == 0:
                ctx.claim(f"override-precedence:{op['r']}", {"state": merged, "op": op}, (status, value), where)
        if i == len(trace["steps"]) - 1:
            judge(view, state, current, ctx, where)
            if current.get("shift_params"):
                judge_shift(view, state, current, ctx, where)
        ctx.same(base, [chain_snapshot(c) for c in view.chains], "originals-changed", where, rtol=0)
    if current and state["chains"]:
        # Lifting the override gives back exactly what the chains said themselves
        view.cc.set_override(make_override({}))
        op = {"r": "latex"}
        status, value, _ = disturbed_read(view.cc, op, None, ctx)
        ctx.claim("override-sticks", {"state": frozen(state), "op": op}, (status, value), "after lifting the override")
