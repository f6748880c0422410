"""C11: nothing written on a figure or in a table depends on the values of a blinded parameter."""

from __future__ import annotations

import copy
import os

from dst import world
from dst.disk import SimDisk, random_plan
from dst.figdig import all_texts
from dst.kernel import Tracer, random_fault
from dst.sessions import fill_op, frozen, reset_rc
from dst.world import View, make_config, prepare_read

SHRINK = ["steps", "state/chains", "state/truths"]

READS = ["plot", "plot", "walks", "dists", "dists", "sumplot", "sumplot", "latex", "latex", "dist"]


def random_blind(rng):
    return rng.choice([True, True, ["a"], ["b"], ["a", "b"], ["c", "d"], ["b", "c"], False, []])


def generate(rng, tier):
    chains = []
    k = rng.choice([1, 1, 1, 2, 2, 3])
    pair = rng.sample(world.COLS, 2) if rng.random() < 0.35 else None  # the layout with a single joint panel is its own
    logs = rng.random() < 0.35
    for i, nm in enumerate(rng.sample(["alpha", "model A", "A", "z"], k)):
        if i and rng.random() < 0.15:
            m = world.random_marker(rng, nm)
            m["marker"] = {c: abs(v) + 0.1 for c, v in m["marker"].items()}
            chains.append(m)
            continue
        cols = list(pair) if pair else rng.sample(world.COLS, rng.choice([1, 2, 2, 3, 3]))
        spec = world.random_chain(rng, nm, n=rng.choice([60, 120]), cols=cols, cheap=True, exclude=("kde", "bins", "multimodal"),
                                  kinds=["positive"] if logs else ["normal", "skew", "small", "big", "offset", "uniform", "positive"])
        o = spec["opts"]
        if rng.random() < 0.4:
            o.update(plot_cloud=True, num_cloud=40, color_param=rng.choice(cols))
        o["bins"] = rng.choice([6, 9])
        o["smooth"] = rng.choice([0, 1])
        o.pop("show_contour_labels", None)
        if logs:
            o.pop("shift_params", None)
        if rng.random() < 0.25:
            o["multimodal"] = True
            o.pop("statistics", None)
            o["smooth"] = 1
        elif rng.random() < 0.5:
            # one well constrained chain is the case in which summaries are written out
            o["statistics"] = rng.choice(["mean", "max", "cumulative", "hdi"])
            o["summary_area"] = 0.6
        chains.append(spec)

    def config():
        c = world.random_config(rng)
        c["blind"] = [rng.choice(pair)] if pair and rng.random() < 0.6 else random_blind(rng)
        c["summarise"] = rng.random() < 0.85
        c["flip"] = rng.random() < 0.5
        if logs:
            c["log_scales"] = rng.sample(world.COLS, rng.choice([1, 2, 4]))
        if rng.random() < 0.25:
            c["extents"] = {rng.choice(world.COLS): [0.5, 4.0]}
        return c

    truths = []
    for _ in range(rng.choice([0, 0, 1])):
        t = world.random_truth(rng)
        t["location"] = {c: abs(v) + 0.1 for c, v in t["location"].items()}
        truths.append(t)
    state = {"chains": chains, "truths": truths, "config": config(), "override": None}
    steps = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.3:
            steps.append({"s": "config", "spec": config()})
        elif r < 0.42:
            steps.append({"s": "blind", "value": random_blind(rng)})
        op = world.random_read(rng, kinds=READS)
        if rng.random() < 0.5:
            op.pop("sel", None)
            op.pop("cols", None)
        if op["r"] == "dist":
            op["summary"], op["config"] = True, True
        step = {"s": "read", "op": op}
        if rng.random() < 0.15:
            op["filename"] = "f.svg" if op["r"] != "latex" else "t.tex"
            if rng.random() < 0.5:
                step["plan"] = random_plan(rng, 1)
        if rng.random() < 0.2:
            step["fault"] = random_fault(rng, 150)
        steps.append(step)
    return {"state": state, "steps": steps, "scale": rng.choice([8.0, 64.0, 0.125]),
            "shift": 0.0 if logs else rng.choice([0.0, 5.0, -100.0])}


def blinded(state) -> list[str]:
    b = (state["config"] or {}).get("blind", False)
    if b is True:
        return list(world.COLS)
    return list(b or [])


def transformed(state, scale, shift):
    """The same analysis of a universe in which the blinded parameters have other values."""
    st = copy.deepcopy(state)
    hide = set(blinded(state))
    for spec in st["chains"]:
        if "marker" in spec:
            spec["marker"] = {c: v * scale + shift if c in hide else v for c, v in spec["marker"].items()}
            continue
        cols = [c["name"] for c in spec["table"]["cols"]]
        for c in cols:
            if c in hide:
                j = cols.index(c)
                spec["edits"].append({"edit": "scale", "col": j, "value": scale})
                spec["edits"].append({"edit": "shift", "col": j, "value": shift})
    for t in st["truths"]:
        t["location"] = {c: v * scale + shift if c in hide else v for c, v in t["location"].items()}
    ext = st["config"].get("extents")
    if ext:
        st["config"]["extents"] = {c: [x * scale + shift for x in v] if c in hide else v for c, v in ext.items()}
    return st


def texts(value, kind):
    if isinstance(value, str):
        return value
    # The axes of a standalone plot are the caller's own, ticks included: only what the package writes counts
    return [t for t in all_texts(value) if kind != "dist" or ":title:" in t]


def evaluate(payload, scratch):
    view = View(payload["state"])
    op = {k: v for k, v in payload["op"].items() if k != "filename"}
    reset_rc()
    try:
        return ("ok", texts(prepare_read(view.cc, op)(), op["r"]))
    except Exception as exc:  # noqa: BLE001
        return ("err", type(exc).__name__)
    finally:
        world.close_figures()


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    if not state["chains"]:
        return
    view = View(state)
    for i, step in enumerate(trace["steps"]):
        if step["s"] == "config":
            state["config"] = copy.deepcopy(step["spec"])
            view.config = make_config(step["spec"])
            view.cc.set_plot_config(view.config)
            continue
        if step["s"] == "blind":
            # the user edits the configuration in place
            state["config"]["blind"] = copy.deepcopy(step["value"])
            view.config.blind = copy.deepcopy(step["value"])
            continue
        op = step["op"]
        where = f"step {i} {op} blind={blinded(state)}"
        for attempt in range(2 if step.get("fault") or step.get("plan") else 1):
            fault, plan = (step.get("fault"), step.get("plan")) if attempt == 0 else (None, None)
            reset_rc()
            call = prepare_read(view.cc, fill_op(op, ctx.scratch))
            disk = SimDisk(ctx.scratch, plan)
            tracer = Tracer(fault=fault)
            value = None
            with disk:
                try:
                    with tracer:
                        value = call()
                    status = "ok"
                except (KeyboardInterrupt, MemoryError, OSError):
                    status = "injected" if tracer.fired or disk.fired else "err"
                except Exception as exc:  # noqa: BLE001
                    status, value = "err", type(exc).__name__
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            if fault:
                ctx.stat("offered:" + fault["kind"])
                if tracer.fired:
                    ctx.stat("fault:" + fault["kind"])
            for f in disk.fired:
                ctx.stat("fault:disk-" + f)
            got = ("ok", texts(value, op["r"])) if status == "ok" else (status, value)
            if status == "ok" and op["r"] == "latex" and "filename" in op:
                with open(os.path.join(ctx.scratch, op["filename"])) as f:
                    ctx.check(f.read() == value, "file-differs", where)
            world.close_figures()
            ctx.log(i, attempt, status)
            hide = blinded(state)
            ctx.state(op["r"], sorted(hide), status, bool(op.get("cols")), len(state["chains"]),
                      bool(state["config"].get("log_scales")))
            if status == "injected":
                continue
            if status == "ok":
                for c in hide:
                    label = state["config"].get("labels", {}).get(c, c)
                    if op["r"] == "latex":
                        rows = [x.strip() for ln in got[1].splitlines() for x in ln.replace("\\\\", "").split(" & ")]
                        ctx.check(label not in rows, "blinded-in-table", f"{where}: {label}")
            if hide:
                ctx.claim(
                    f"leak:{op['r']}",
                    {"state": transformed(frozen(state), trace["scale"], trace["shift"]), "op": op},
                    got,
                    f"{where} x*{trace['scale']}+{trace['shift']}",
                    rtol=0,
                )
            else:
                ctx.stat("unblinded")
