"""C05: reading leaves no trace, whether the read returns, fails or is interrupted."""

from __future__ import annotations

import copy

from dst import world
from dst.digest import digest
from dst.disk import random_plan
from dst.kernel import random_fault
from dst.sessions import consumer_snapshot, disturbed_read, frozen, pristine_read
from dst.world import View

SHRINK = ["steps", "state/chains", "state/truths"]
evaluate = pristine_read


def generate(rng, tier):
    p_plot = rng.choice([0.2, 0.4, 0.8])
    fault_rate = rng.choice([0.0, 0.5, 0.8])
    state = world.random_state(rng, p_config=0.6, n=rng.choice([60, 96, 180]))
    for spec in state["chains"]:
        if "marker" in spec:
            continue
        if rng.random() < 0.2:
            # Enough samples for the density interval not to warn
            spec["table"]["n"] = 600
            spec["opts"]["statistics"] = "hdi"
            spec["opts"].pop("multimodal", None)
        if rng.random() < 0.1:
            # Contours refuse these; whatever they do, the list stays as it is
            spec["opts"]["sigmas"] = rng.choice([[2, 0, 1], [1, 0.5], [0, 2, 1]])
        if rng.random() < 0.15:
            # What the user made of the samples later may make a read fail half way
            spec["edits"].append({"edit": rng.choice(["neginf", "neginf", "inplace"]), "col": rng.randrange(3),
                                  "row": rng.randrange(600), "value": 2.0})
    if state.get("config") and rng.random() < 0.5:
        # Most options chosen: whatever a read sets aside while it works must come back
        for _ in range(3):
            state["config"] |= {k: v for k, v in world.random_config(rng).items() if k != "blind"}
    kinds = None
    if rng.random() < 0.4:
        # One or two kinds of read only, often those few others lead to
        kinds = [rng.choice(["divide", "divide", "hdi", "maxpoint", "geweke", "gr", "corrmat", "text", "comp", "sumplot",
                             "dists", "walks", "cloud", "surface"]) for _ in range(2)]
        if "divide" in kinds:
            for spec in state["chains"]:
                if "marker" not in spec:
                    spec["opts"] |= {"walkers": rng.choice([2, 3]), "shift_params": rng.random() < 0.6}
                    spec["opts"].pop("kde", None)
    steps = []
    for _ in range(rng.randint(3, 6)):
        step = {"op": world.random_read(rng, p_plot, kinds)}
        if step["op"]["r"] in (*world.PLOTS, "latex") and rng.random() < 0.15:
            step["op"]["filename"] = "out.png" if step["op"]["r"] != "latex" else "out.tex"
            if rng.random() < 0.6:
                step["plan"] = random_plan(rng, 1)
        if rng.random() < fault_rate:
            step["fault"] = random_fault(rng, kmax=rng.choice([25, 80, 250]))
            step["retry"] = True
        if rng.random() < 0.1 * fault_rate:
            # Interrupted after its first write to anything shared, then after its second, ...
            step["sweep"] = list(range(1, rng.choice([6, 12])))
            step.pop("plan", None)
            step["fault"] = {"kind": rng.choice(["KeyboardInterrupt", "MemoryError"]), "mode": "store", "k": 1}
        if step["op"]["r"] in ("summary", "latex") and rng.random() < 0.3:
            step["op"]["cols"] = [rng.randrange(4)]
        steps.append(step)
    return {"state": state, "steps": steps}


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    view = View(state)
    before = consumer_snapshot(view)
    for i, step in enumerate(trace["steps"]):
        op = step["op"]
        if world.too_heavy(view, op) or not view.chains:
            continue
        attempts = [(step.get("fault"), step.get("plan"))]
        if step.get("sweep"):
            attempts = [({**step["fault"], "k": k}, None) for k in step["sweep"]]
        if step.get("retry"):
            attempts.append((None, None))
        over = False
        for attempt, (fault, plan) in enumerate(attempts):
            if over and fault is not None:
                continue
            keep: list = []
            status, value, injected = disturbed_read(view.cc, op, fault, ctx, keep, plan=plan)
            world.close_figures()
            over = bool(step.get("sweep")) and not injected
            ctx.log(i, attempt, status, injected)
            ctx.stat(f"outcome_{status}")
            ctx.state(op["r"], status, injected[:1], attempt)
            where = f"step {i} {op} fault={fault} plan={plan} -> {status} {injected}"
            after = consumer_snapshot(view)
            if not ctx.same(before, after, f"state-changed:{op['r']}", where, rtol=0):
                return
            expect = world.select(view.cc, op.get("sel"), op.get("as_obj", False))
            given = [x for x in (expect, world.pick_columns(view.cc, op.get("cols"))) if x is not None]
            ok = len(given) == len(keep) and all(
                len(g) == len(k) and all(a is b or digest(a) == digest(b) for a, b in zip(g, k))
                for g, k in zip(given, keep)
            ) if not op.get("as_obj") else True
            ctx.check(ok, "argument-changed", where)
            if status != "injected":
                ctx.claim(
                    f"wrong-result:{op['r']}:" + ("after-disturbance" if attempt else "disturbed" if injected else "plain"),
                    {"state": frozen(state), "op": op},
                    (status, value),
                    where,
                )
