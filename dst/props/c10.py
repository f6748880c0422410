"""C10: every figure stands alone."""

from __future__ import annotations

import copy

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

from dst import world
from dst.digest import diff, digest
from dst.figdig import ax_digest, fig_digest
from dst.kernel import Tracer, random_fault
from dst.world import View, apply_edit, make_config, prepare_read

SHRINK = ["steps", "state/chains", "state/truths"]
STANDALONE = ["contour", "surface", "dist", "cloud", "point", "truths"]
ALLOWED_RC = {"text.usetex", "font.family"}


def generate(rng, tier):
    state = world.random_state(rng, n_chains=rng.choice([1, 2, 3]), n=60, heavy=False)
    steps = []
    for _ in range(rng.randint(4, 8)):
        r = rng.random()
        if r < 0.4:
            step = {"s": "plot", "op": world.random_read(rng, kinds=list(world.PLOTS))}
            if rng.random() < 0.2:
                step["fault"] = random_fault(rng, 200)
            steps.append(step)
        elif r < 0.6:
            op = world.random_read(rng, kinds=STANDALONE)
            if rng.random() < 0.3:
                op["summary"] = True
            step = {"s": "standalone", "op": op, "current": rng.choice(["same", "other", "figure"])}
            if rng.random() < 0.2:
                step["fault"] = random_fault(rng, 60)
            steps.append(step)
        elif r < 0.72:
            steps.append({"s": "user-figure", "axes": rng.choice([1, 2, 4]), "content": rng.random() < 0.7})
        elif r < 0.8:
            steps.append({"s": "config", "spec": world.random_config(rng)})
        elif r < 0.86:
            steps.append({"s": "restore"})
        elif r < 0.92:
            steps.append({"s": "consumer"})
        elif r < 0.96:
            steps.append({"s": "read", "op": world.random_read(rng, 0.0)})
        else:
            steps.append({"s": "edit", "edit": {"edit": "inplace", "col": 0, "row": 3, "value": 2.0}})
    return {"state": state, "steps": steps, "rc": {"font.family": rng.choice([["serif"], ["sans-serif"], ["monospace"]])}}


def evaluate(payload, scratch):
    raise NotImplementedError


def rc_all():
    return {k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith("backend")}


class Gallery:
    """Every figure handed out or made by the user so far, with what it looked like."""

    def __init__(self, ctx):
        self.items = []
        self.ctx = ctx

    def add(self, fig):
        self.items.append([fig, digest(fig)])

    def touch(self, fig):
        for item in self.items:
            if item[0] is fig:
                item[1] = digest(fig)

    def audit(self, where, cls="earlier-figure-changed"):
        for i, (fig, before) in enumerate(self.items):
            d = diff(before, digest(fig), 1e-9)
            if not self.ctx.check(d is None, cls, f"{where}: figure {i}: {d}"):
                return
            self.ctx.check(plt.fignum_exists(fig.number), "earlier-figure-closed", f"{where}: figure {i}")


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    for k, v in trace["rc"].items():
        matplotlib.rcParams[k] = v
    view = View(state)
    built_rc = {k: repr(matplotlib.rcParams[k]) for k in ALLOWED_RC}
    gallery = Gallery(ctx)
    user_axes: list = []
    for i, step in enumerate(trace["steps"]):
        kind = step["s"]
        where = f"step {i} {step}"
        rc_before = rc_all()
        if kind == "plot":
            if not view.chains or world.too_heavy(view, step["op"]):
                continue
            nums = set(plt.get_fignums())
            call = prepare_read(view.cc, step["op"])
            status, fig = guarded(call, step.get("fault"), ctx)
            ctx.log(i, status)
            ctx.state(step["op"]["r"], status, [s["s"] for s in trace["steps"][max(0, i - 2):i]])
            if status == "ok":
                ctx.check(
                    isinstance(fig, matplotlib.figure.Figure) and not any(fig is f for f, _ in gallery.items),
                    "figure-reused", where,
                )
                new = set(plt.get_fignums()) - nums
                ctx.check(new == {fig.number}, "not-one-new-figure", f"{where}: {sorted(new)}")
            gallery.audit(where)
            if status == "ok":
                gallery.add(fig)
        elif kind == "standalone":
            if not view.chains or world.too_heavy(view, step["op"]):
                continue
            fig, axes = plt.subplots(1, 2)
            for k, ax in enumerate(axes):
                ax.plot([0, 1, 2], [k, 1, 0])
                ax.set_title(f"mine {k}")
            gallery.add(fig)
            if step["current"] == "other":
                plt.sca(axes[1])
            elif step["current"] == "figure":
                other = plt.figure()
                other.add_subplot().plot([1, 2])
                gallery.add(other)
            else:
                plt.sca(axes[0])
            nums = plt.get_fignums()
            others = [(f, digest(f)) for f, _ in gallery.items if f is not fig]
            neighbour = ax_digest(axes[1])
            mine = ax_digest(axes[0])
            count = len(fig.axes)
            call = prepare_read(view.cc, step["op"], axes=axes[0])
            status, _ = guarded(call, step.get("fault"), ctx)
            ctx.log(i, status)
            ctx.state(step["op"]["r"], status, step["current"])
            ctx.check(plt.get_fignums() == nums, "standalone-made-figure", where)
            ctx.check(len(fig.axes) == count, "standalone-made-axes", where)
            for f, before in others:
                d = diff(before, digest(f), 1e-9)
                ctx.check(d is None, "standalone-drew-elsewhere", f"{where}: {d}")
            d = diff(neighbour, ax_digest(axes[1]), 1e-9)
            ctx.check(d is None, "standalone-drew-elsewhere", f"{where}: neighbouring axis {d}")
            ctx.check(not fig.texts and not fig.lines and fig._suptitle is None, "standalone-drew-elsewhere", where)
            # What the user had drawn is still there, and something was added
            kept = dict(ax_digest(axes[0]))
            ctx.check(
                diff(dict(mine)["lines"], kept["lines"][:1], 1e-9) is None, "standalone-removed-content", where
            )
            if status == "ok" and step["op"]["r"] in ("contour", "dist", "cloud"):
                more = len(kept["lines"]) + len(kept["collections"]) + len(kept["patches"])
                ctx.check(more > 1, "standalone-drew-nothing", where)
            gallery.touch(fig)
            ok = rc_before == rc_all()
            ctx.check(ok, "rc-changed", where)
        elif kind == "user-figure":
            fig, axes = plt.subplots(1, step["axes"], squeeze=False)
            if step["content"]:
                for ax in axes.ravel():
                    ax.plot(np.arange(5), np.arange(5) ** 2, label="mine")
                    ax.scatter([1, 2], [3, 4])
                    ax.set_xlabel("user")
                    ax.legend()
            user_axes += list(axes.ravel())
            gallery.add(fig)
        elif kind == "config":
            view.config = make_config(step["spec"])
            view.cc.set_plot_config(view.config)
            ctx.check(rc_before == rc_all(), "rc-changed", where)
        elif kind == "restore":
            view.cc.plotter.restore_rc_params()
            now = {k: repr(matplotlib.rcParams[k]) for k in ALLOWED_RC}
            ctx.check(now == built_rc, "rc-not-restored", f"{where}: {now} vs {built_rc}")
            gallery.audit(where)
        elif kind == "consumer":
            view = View(state)
            built_rc = {k: repr(matplotlib.rcParams[k]) for k in ALLOWED_RC}
            ctx.check(rc_before == rc_all(), "rc-changed", where)
        elif kind == "read":
            if not view.chains or world.too_heavy(view, step["op"]):
                continue
            nums = plt.get_fignums()
            guarded(prepare_read(view.cc, step["op"]), None, ctx)
            ctx.check(plt.get_fignums() == nums, "read-made-figure", where)
            ctx.check(rc_before == rc_all(), "rc-changed", where)
            gallery.audit(where)
        elif kind == "edit":
            for chain in view.chains:
                apply_edit(chain, step["edit"])
            gallery.audit(where, "figure-follows-chain")
        rc_after = rc_all()
        moved = {k for k in rc_after if rc_after[k] != rc_before.get(k)} - ALLOWED_RC
        ctx.check(not moved, "rc-changed", f"{where}: {sorted(moved)}")
    # Drawing on a returned figure does not come back in the next one
    if view.chains and gallery.items:
        for fig, _ in gallery.items[:3]:
            for ax in fig.axes[:1]:
                ax.plot([0, 1], [0, 1], color="magenta", label="scribble")
                ax.set_title("scribbled")
        op = {"r": "plot"}
        status, fig = guarded(prepare_read(view.cc, op), None, ctx)
        if status == "ok":
            ctx.check("scribbl" not in repr([a.get_title() for a in fig.axes]), "figure-reused", "scribble test")
            ctx.check(
                not any(ln.get_label() == "scribble" for a in fig.axes for ln in a.lines), "figure-reused", "scribble test"
            )
    ctx.stat("figures", len(gallery.items))
    _ = fig_digest


def guarded(call, fault, ctx):
    tracer = Tracer(fault=fault)
    try:
        with tracer:
            value = call()
        status = "ok"
    except (KeyboardInterrupt, MemoryError) as exc:
        status, value = ("injected" if tracer.fired else "err"), exc
    except Exception as exc:  # noqa: BLE001
        status, value = "err", exc
    ctx.stat("steps")
    ctx.stat("lines", tracer.lines)
    ctx.stat("outcome_" + status)
    if fault:
        ctx.stat("offered:" + fault["kind"])
        if tracer.fired:
            ctx.stat("fault:" + fault["kind"])
    return status, value
