"""C09: a call that returns has written its files whole; a call that could not, says so."""

from __future__ import annotations

import copy
import hashlib
import os
from pathlib import Path

from dst import world
from dst.digest import digest
from dst.disk import SimDisk, random_plan
from dst.kernel import Tracer, random_fault
from dst.sessions import frozen, reset_rc
from dst.world import View, prepare_read

SHRINK = ["steps", "state/chains", "state/truths"]
EXT = ["png", "png", "svg", "pdf"]


def generate(rng, tier):
    fault_rate = rng.choice([0.0, 0.4, 0.8])
    state = world.random_state(rng, n_chains=rng.choice([1, 2]), n=60, cols=["a", "b"], p_config=0.4, heavy=False)
    cfg = state["config"] or {}
    cfg["dpi"] = rng.choice([20, 35])
    if rng.random() < 0.3:
        cfg["labels"] = {"a": "Größe ∑ $x$"}
    state["config"] = cfg
    steps = []
    for _ in range(rng.randint(2, 4)):
        kind = rng.choice(["latex", "latex", "plot", "walks", "dists", "sumplot"])
        op = world.random_read(rng, kinds=[kind])
        op.pop("sel", None)
        if kind == "latex":
            op["filename"] = rng.choice(["t.tex", "deep/t.tex", "t.tex", "a b.txt", "T.TEX", "table"])
            op["as_path"] = rng.random() < 0.5
            if rng.random() < 0.4:
                op["caption"] = rng.choice(["Résumé ∑ of 68\\% limits", "long " * 400, "line\nbreak", "tab\tand é"])
        else:
            n = rng.choice([1, 1, 2, 3])
            ext = [rng.choice(EXT) for _ in range(n)]
            how = rng.choice(["plain", "plain", "dirs", "stem", "dots", "again", "capitals"])
            if how == "dirs":  # one name in several directories
                files = [d + f"f.{ext[0]}" for d in rng.sample(["", "deep/", "deep/er/"], n)]
            elif how == "stem":  # one name with several types
                files = [f"f.{e}" for e in rng.sample(["png", "svg", "pdf"], n)]
            elif how == "capitals":
                files = [f"F{i}.{e.upper() if i % 2 == 0 else e.capitalize()}" for i, e in enumerate(ext)]
            elif how == "dots":
                files = [f"run.{i}.{ext[0]}" for i in range(n)]
            elif how == "again":
                files = ["f." + ext[0]] * n
            else:
                files = [f"f{i}.{e}" for i, e in enumerate(ext)]
            op["filename"] = files if n > 1 or rng.random() < 0.3 else files[0]
            op["as_path"] = rng.random() < 0.5
        step = {"op": op, "existing": rng.choice([None, "short", "long", "same"])}
        r = rng.random()
        if r < fault_rate:
            step["plan"] = random_plan(rng, 3 if isinstance(op["filename"], list) else 1)
        elif r < fault_rate + 0.15:
            step["fault"] = random_fault(rng, 200)
        elif rng.random() < 0.3:
            step["plan"] = [{"at": "short", "nth": 1, "after": rng.choice([7, 100, 1000]), "sticky": True, "errno": ""}]
        steps.append(step)
    return {"state": state, "steps": steps}


def names_of(op):
    f = op["filename"]
    return list(f) if isinstance(f, list) else [f]


def call(cc, op, root):
    os.makedirs(os.path.join(root, "deep", "er"), exist_ok=True)
    conv = Path if op.get("as_path") else str
    op = dict(op)
    f = op["filename"]
    op["filename"] = [conv(os.path.join(root, x)) for x in f] if isinstance(f, list) else conv(os.path.join(root, f))
    reset_rc()
    return prepare_read(cc, op)


def files_digest(root, op):
    out = []
    for name in names_of(op):
        p = os.path.join(root, name)
        if not os.path.exists(p):
            out.append((name, None))
            continue
        with open(p, "rb") as f:
            data = f.read()
        out.append((name, len(data), hashlib.sha256(data).hexdigest()))
    return out


def evaluate(payload, scratch):
    """The same call in a pristine process on a perfect disk."""
    root = os.path.join(scratch, "pristine")
    os.makedirs(root, exist_ok=True)
    view = View(payload["state"])
    with SimDisk(root):
        try:
            value = call(view.cc, payload["op"], root)()
        except Exception as exc:  # noqa: BLE001
            return ("err", type(exc).__name__)
    return ("ok", files_digest(root, payload["op"]), digest(value) if isinstance(value, str) else None)


def listing(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


def attempt(view, op, root, plan, fault, ctx):
    fn = call(view.cc, op, root)
    disk = SimDisk(root, plan)
    tracer = Tracer(fault=fault)
    with disk:
        try:
            with tracer:
                value = fn()
            status = "ok"
        except (KeyboardInterrupt, MemoryError) as exc:
            status, value = ("injected" if tracer.fired else "err"), type(exc).__name__
        except Exception as exc:  # noqa: BLE001
            status, value = "err", type(exc).__name__
    world.close_figures()
    hard = [f for f in disk.fired if f != "short"]
    for f in disk.fired:
        ctx.stat("fault:disk-" + f)
    for p in plan or []:
        ctx.stat("offered:disk-" + p["at"])
    if fault:
        ctx.stat("offered:" + fault["kind"])
        if tracer.fired:
            ctx.stat("fault:" + fault["kind"])
    ctx.stat("steps")
    ctx.stat("lines", tracer.lines)
    return status, value, hard, tracer.fired


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    view = View(state)
    root = os.path.join(ctx.scratch, "files")
    os.makedirs(os.path.join(root, "deep", "er"))
    bystander = os.path.join(root, "bystander.tex")
    with open(bystander, "w") as f:
        f.write("not yours")
    for i, step in enumerate(trace["steps"]):
        op = step["op"]
        if not view.chains or world.too_heavy(view, op):
            continue
        for name in names_of(op):
            p = os.path.join(root, name)
            if os.path.exists(p):
                os.remove(p)
            if step["existing"] in ("short", "long"):
                with open(p, "wb") as f:
                    f.write(b"old" if step["existing"] == "short" else b"old contents\n" * 40000)
        for round_ in range(2):
            plan, fault = (step.get("plan"), step.get("fault")) if round_ == 0 else (None, None)
            if round_ == 1 and plan == step.get("plan") and fault == step.get("fault"):
                break
            before = listing(root)
            status, value, hard, interrupted = attempt(view, op, root, plan, fault, ctx)
            where = f"step {i} try {round_} {op} plan={plan} fault={fault} -> {status} fired={hard}"
            ctx.log(i, round_, status, hard, bool(interrupted))
            ctx.state(op["r"], [os.path.splitext(n)[1] for n in names_of(op)], status, hard, step["existing"])
            if status == "injected":
                continue
            if status == "err" and hard:
                # The failure surfaced, as it must.  Whether it still knows the failed file is its own business
                ctx.stat("surfaced")
                extra = set(listing(root)) - set(before) - set(names_of(op))
                ctx.check(not extra, "stray-files-after-failure", f"{where}: {sorted(extra)}")
                continue
            # Returned (or failed without a storage fault): must be what a perfect disk would have given
            seen = (
                ("ok", files_digest(root, op), digest(value) if isinstance(value, str) else None)
                if status == "ok" else ("err", value)
            )
            cls = "silent-loss" if hard or (plan and status == "ok") else "retry-incomplete" if round_ else "file-wrong"
            ctx.claim(f"{cls}:{op['r']}", {"state": frozen(state), "op": op}, seen, where, rtol=0)
            if status == "ok":
                if op["r"] == "latex":
                    with open(os.path.join(root, op["filename"]), encoding="utf-8", newline="") as f:
                        ctx.check(f.read() == value, "file-is-not-the-returned-text", where)
                extra = set(listing(root)) - set(before) - set(names_of(op))
                ctx.check(not extra, "stray-files", f"{where}: {sorted(extra)}")
                if op["r"] != "latex":
                    ctx.stat("images_written", len(names_of(op)))
        with open(bystander) as f:
            ctx.check(f.read() == "not yours", "bystander-changed", f"step {i} {op}")
