"""C07: several threads reading the same chains each get what they would get alone."""

from __future__ import annotations

import copy

import matplotlib.pyplot as plt

from dst import world
from dst.digest import digest
from dst.kernel import Scheduler, random_decisions, random_fault
from dst.sessions import consumer_snapshot, frozen, pristine_read
from dst.world import View, run_read

SHRINK = ["decisions", "clients", "state/chains", "clients/0/ops", "clients/1/ops", "clients/2/ops"]
evaluate = pristine_read

THREAD_READS = ["summary", "latex", "maxpost", "corr", "cov", "covmat", "corrmat", "aic", "bic", "dic", "comp", "gr",
                "geweke", "divide", "bounds", "text", "names", "summary", "latex", "bounds", "hdi"]


def generate(rng, tier):
    state = world.random_state(rng, p_marker=0.1, n_chains=rng.choice([1, 2, 3]), n=rng.choice([60, 96]))
    n_clients = rng.choice([2, 2, 3, 4])
    # pyplot calls run whole (the clock only ticks on package lines), so several threads may draw at once
    r = rng.random()
    plotters = [] if r < 0.5 else [rng.randrange(n_clients)] if r < 0.75 else rng.sample(range(n_clients), 2)
    same = world.random_read(rng, kinds=THREAD_READS) if rng.random() < 0.4 else None
    clients = []
    for i in range(n_clients):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if i in plotters:
                ops.append(world.random_read(rng, 0.8))
            elif same is not None and rng.random() < 0.8:
                op = dict(same)
                op["n"] = rng.randrange(8)
                op["col"] = rng.randrange(4)
                ops.append(op)
            else:
                ops.append(world.random_read(rng, kinds=THREAD_READS))
        client = {"ops": ops, "own": rng.random() < 0.3}
        if plotters and i not in plotters and rng.random() < 0.5:
            client["figures"] = rng.choice([1, 2])  # the user's own figures, made before each read
        if rng.random() < 0.15:
            client["fault"] = random_fault(rng, 60)
        clients.append(client)
    if rng.random() < 0.2:
        # Two threads draw: the same kind of figure, or whatever
        kind = rng.choice(["plot", "walks", "dists", "sumplot", "sumplot", None])
        clients = clients[:2]
        for client in clients:
            client.pop("figures", None)
            client["ops"] = [world.random_read(rng, 1.0, kinds=[kind] if kind else None) for _ in range(rng.choice([1, 1, 2]))]
        n_clients = 2
    decisions, novel = random_decisions(rng, n_clients)
    return {"state": state, "clients": clients, "decisions": decisions, "novel": novel}


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    view = View(state)
    before = consumer_snapshot(view)
    plan = []
    for client in trace["clients"]:
        cc = view.cc
        if client["own"]:
            # A consumer of this thread's own, holding the same chains
            from chainconsumer import ChainConsumer

            cc = ChainConsumer()
            for chain in view.chains:
                cc.add_chain(chain)
            for t in view.truths:
                cc.add_truth(t)
            if view.config is not None:
                cc.set_plot_config(view.config)
            if view.override is not None:
                cc.set_override(view.override)
        ops = [op for op in client["ops"] if not world.too_heavy(view, op)]

        def body(tracer, cc=cc, ops=ops, figures=client.get("figures", 0)):
            out = []
            for op in ops:
                for _ in range(figures):
                    plt.figure(figsize=(2, 2)).add_subplot()
                with tracer:
                    try:
                        value = ("ok", run_read(cc, op))
                    except (KeyboardInterrupt, MemoryError) as exc:
                        value = ("injected", type(exc).__name__) if tracer.fired else ("err", type(exc).__name__)
                    except Exception as exc:  # noqa: BLE001
                        value = ("err", type(exc).__name__)
                out.append((op, value))
            return out

        plan.append((body, client.get("fault")))
        if client.get("fault"):
            ctx.stat("offered:" + client["fault"]["kind"])
    if not plan or not view.chains:
        return
    sched = Scheduler(trace["decisions"], trace["novel"])
    results = sched.run(plan)
    ctx.stat("lines", sched.progress)
    ctx.stat("fault:preemption", len([s for s in sched.switches if s[2] != "end"]))
    ctx.stat("forced", sched.forced)
    ctx.state(tuple(s[:2] for s in sched.switches), [[o["r"] for o in c["ops"]] for c in trace["clients"]])
    ctx.log(sched.switches, sched.progress)
    for i, res in enumerate(results):
        if not isinstance(res, list):
            ctx.violation("client-crashed", f"client {i}: {res}")
            return
        for op, (status, value) in res:
            ctx.stat("steps")
            ctx.stat(f"outcome_{status}")
            if status == "injected":
                ctx.stat("fault:" + value)
                continue
            ctx.claim(
                f"interference:{op['r']}",
                {"state": frozen(state), "op": op},
                (status, digest(value) if status == "ok" else value),
                f"client {i} {op}",
            )
    world.close_figures()
    ctx.same(before, consumer_snapshot(view), "state-changed", "after concurrent reads", rtol=0)


def simplify(trace):
    out = []
    for i, c in enumerate(trace["clients"]):
        if c.get("fault"):
            t = copy.deepcopy(trace)
            t["clients"][i].pop("fault")
            out.append(t)
    return out
