"""C01: the registry is an insertion-ordered map, under every history."""

from __future__ import annotations

import re

from chainconsumer import Chain, ChainConsumer

from dst import world
from dst.kernel import Tracer, random_fault
from dst.world import make_chain

SHRINK = ["steps", "pool"]

NAMES = ["a", "A", "a ", "chain 1", "chain 10", "chain 11", "chain 2", "", "0", "None", "model", "Model", "mödel",
         "models", "m[0]", "a Walker 0", "π", "x", "mo\u0308del", "\u212b", "\u00c5", "fit", "\ufb01t", "MODEL"]
# The same name twice over as far as a reader can see, or as far as Unicode is concerned: all different names
TWINS = [("mödel", "mo\u0308del"), ("\u212b", "\u00c5"), ("fit", "\ufb01t"), ("model", "Model"), ("a", "a "), ("A", "a")]

LOCATIONS = [{"a": 1.0, "b": 2.0}, {"b": 0.1, "a": -1 / 3}, {"a": 16777217.0}, {"a": 1e-12, "c": 2}, {"a": 3.5e38, "b": 5}]


def generate(rng, tier):
    k = rng.choice([3, 5, 8, 14])
    names = rng.sample(NAMES, min(k, len(NAMES)))
    if rng.random() < 0.3:
        names = list(dict.fromkeys([*rng.choice(TWINS), *names[: k - 1]]))
    pool = []
    for i in range(rng.randint(3, 12)):
        spec = world.random_chain(rng, rng.choice(names), n=24, cols=rng.sample(world.COLS, 2), heavy=False,
                                  posterior="log_posterior", exclude=("walkers", "plot_cloud"))
        spec["opts"] |= {"num_free_params": 1 + i % 3, "num_eff_data_points": 30.0 + i}
        pool.append(spec)
    steps = []
    n_cons = rng.choice([1, 2, 3])
    fault_rate = rng.choice([0.0, 0.0, 0.25])
    for _ in range(rng.randint(8, 40)):
        c = rng.randrange(n_cons)
        r = rng.random()
        name = rng.choice([*names, rng.choice(NAMES)])
        if r < 0.4:
            step = {"s": "add", "c": c, "h": rng.randrange(len(pool))}
        elif r < 0.48:
            step = {"s": "marker", "c": c, "name": name, "loc": rng.choice(LOCATIONS)}
            if rng.random() < 0.3:
                step["color"] = rng.choice(["red", "not-a-colour"])
            if rng.random() < 0.2:
                step["loc"] = {"a": "NaN", "b": 1.0}
        elif r < 0.66:
            step = {"s": "remove", "c": c, "name": name}
        elif r < 0.74:
            step = {"s": "remove", "c": c, "h": rng.randrange(len(pool))}
        elif r < 0.84:
            step = {"s": "get", "c": c, "name": name}
        elif r < 0.97:
            step = {"s": "read", "c": c, "what": rng.choice(
                ["summary", "latex", "latexT", "aic", "bic", "dic", "maxpost", "pick", "legend", "mutate-names", "comp",
                 "pick-summary", "pick-held", "pick-best"]
            ), "sel": [rng.randrange(16) for _ in range(rng.choice([1, 2, 3]))]}
        else:
            step = {"s": "new", "c": c}
        if step["s"] in ("add", "remove", "marker", "read") and rng.random() < fault_rate:
            step["fault"] = random_fault(rng, 12 if step["s"] in ("add", "remove") else 60)
        steps.append(step)
    return {"pool": pool, "steps": steps, "consumers": n_cons}


def rows(table: str, names, transpose=False):
    """The order in which a LaTeX table lists chains."""
    if transpose:
        header = next(ln for ln in table.splitlines() if "Parameter" in ln)
        return [x.strip() for x in header.replace("\\\\", "").split(" & ")[1:]]
    out = []
    body = table.split("Model", 1)[1].splitlines()[1:]
    for ln in body:
        if " & " in ln and ln.rstrip().endswith("\\\\"):
            out.append(ln.split(" & ")[0].strip())
    return out


def execute(trace, ctx):
    if not trace["pool"]:
        return
    pool = [make_chain(s) for s in trace["pool"]]
    cons = [ChainConsumer() for _ in range(trace["consumers"])]
    model: list[dict] = [{} for _ in cons]
    held: dict[int, object] = {}
    for i, step in enumerate(trace["steps"]):
        c = step["c"] % len(cons)
        cc, m = cons[c], model[c]
        kind = step["s"]
        where = f"step {i} {step}"
        fault = step.get("fault")
        tracer = Tracer(fault=fault)
        if kind == "new":
            cons[c], model[c] = ChainConsumer(), {}
        elif kind in ("add", "marker", "remove", "get", "read"):
            after = None  # the model if the call succeeds
            must_fail = False
            chain = pool[step["h"] % len(pool)] if "h" in step else None
            if kind == "add":
                must_fail = chain.name in m
                after = {**m, chain.name: chain}

                def call():
                    return cc.add_chain(chain)
            elif kind == "marker":
                loc = {k: (float("nan") if v == "NaN" else v) for k, v in step["loc"].items()}
                must_fail = step["name"] in m or step.get("color") == "not-a-colour" or "NaN" in step["loc"].values()
                after = {**m, step["name"]: (dict(loc),)}
                kw = {"color": step["color"]} if "color" in step else {}

                def call():
                    return cc.add_marker(loc, step["name"], **kw)
            elif kind == "remove":
                name = chain.name if chain is not None else step["name"]
                must_fail = name not in m
                after = {k: v for k, v in m.items() if k != name}

                def call():
                    return cc.remove_chain(chain if chain is not None else name)
            elif kind == "get":
                must_fail = step["name"] not in m
                after = m

                def call():
                    return cc.get_chain(step["name"])
            else:
                after = m
                value = None
                call = read_call(cc, step, m)
                if call is None:
                    continue
            try:
                with tracer:
                    result = call()
                status = "ok"
            except (KeyboardInterrupt, MemoryError):
                status, result = ("injected" if tracer.fired else "err"), None
            except Exception as exc:  # noqa: BLE001
                status, result = "err", exc
            if fault:
                ctx.stat("offered:" + fault["kind"])
                if tracer.fired:
                    ctx.stat("fault:" + fault["kind"])
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            ctx.stat(f"outcome_{status}")
            ctx.log(i, kind, status)
            ctx.state(kind, step.get("what"), status, must_fail, len(m))
            names_now = cc.get_names()
            if status == "injected":
                # All or nothing
                ok = names_now in (list(m), list(after))
                ctx.check(ok, "interrupted-half-way", f"{where}: {names_now}, was {list(m)}")
                if names_now != list(m):
                    model[c] = m = after
            elif kind == "read":
                if status == "ok":
                    judge_read(step, result, m, ctx, where)
                else:
                    ctx.violation("read-failed", f"{where}: {result!r}")
            elif must_fail:
                ctx.check(status == "err", "not-refused", where)
            else:
                ctx.check(status == "ok", "refused", f"{where}: {result!r}")
                if status == "ok":
                    model[c] = m = after
                    if kind in ("add", "marker", "remove"):
                        ctx.check(result is cc, "does-not-return-itself", where)
                    if kind == "get":
                        want = m[step["name"]]
                        ctx.check(isinstance(want, tuple) or result is want, "wrong-chain", where)
        # The invariant, on every consumer after every step
        for j, (cj, mj) in enumerate(zip(cons, model)):
            got = cj.get_names()
            if not ctx.check(got == list(mj), "registry", f"{where}: consumer {j}: {got}, expected {list(mj)}"):
                return
            for name, chain in mj.items():
                try:
                    have = cj.get_chain(name)
                except Exception as exc:  # noqa: BLE001
                    ctx.violation("registry", f"{where}: consumer {j}: get {name!r}: {exc!r}")
                    return
                if isinstance(chain, tuple):
                    at = {k: float(have.samples[k].iloc[0]) for k in have.data_columns}
                    ctx.check(at == {k: float(v) for k, v in chain[0].items()} and len(have.samples) == 1,
                              "wrong-marker-location", f"{where}: {at} for {chain[0]}")
                    key = (j, name)
                    first = held.setdefault(hash(key), (cj, have))
                    if first[0] is not cj or first[1] is not have:
                        held[hash(key)] = (cj, have)
                    ctx.check(
                        isinstance(have, Chain) and have.name == name and not have.plot_contour, "wrong-marker", where
                    )
                else:
                    ctx.check(have is chain, "wrong-chain", f"{where}: consumer {j} {name!r}")


def read_call(cc, step, m):
    if not m:
        return None
    what = step["what"]
    real = [n for n, ch in m.items() if isinstance(ch, Chain)]
    if what == "mutate-names":
        def call():
            names = cc.get_names()
            names.reverse()
            names.append("bogus")
            return None
        return call
    if what == "summary":
        return lambda: list(cc.analysis.get_summary(columns=["zz"]))
    if what in ("latex", "latexT"):
        if len(real) < len(m):
            return None  # summaries of single-point markers are not what is under test
        return lambda: cc.analysis.get_latex_table(columns=["zz"], transpose=what == "latexT")
    if what in ("aic", "bic", "dic"):
        if what == "dic" and len(real) < len(m):
            return None
        return lambda: list(getattr(cc.comparison, what)())
    if what == "maxpost":
        return lambda: list(cc.analysis.get_max_posteriors())
    if what == "comp":
        if len(real) < len(m):
            return None
        return lambda: cc.comparison.comparison_table()
    if what == "legend":
        if len(m) < 2 or not real:
            return None
        return lambda: cc.plotter.plot_walks(columns=[], plot_weights=True, plot_posterior=False)
    if what == "pick-summary":
        return lambda: list(cc.analysis.get_summary(chains=pick(m, step), columns=["zz"]))
    if what == "pick-held":
        return lambda: list(cc.analysis.get_summary(chains=[cc.get_chain(n) for n in pick(m, step)], columns=["zz"]))
    if what == "pick-best":
        return lambda: list(cc.analysis.get_max_posteriors(pick(m, step)))
    if what == "pick":
        picks = pick(m, step)
        if len([p for p in picks if isinstance(m[p], Chain)]) < len(picks):
            return None
        return lambda: cc.analysis.get_latex_table(chains=picks, columns=["zz"])
    return None


def pick(m, step):
    names = list(m)
    out: list[str] = []
    for i in step["sel"]:
        if names[i % len(names)] not in out:
            out.append(names[i % len(names)])
    return out


def judge_read(step, result, m, ctx, where):
    what = step["what"]
    names = list(m)
    real = [n for n, ch in m.items() if isinstance(ch, Chain)]
    if what == "summary":
        ctx.check(result == names, "order-in-summary", f"{where}: {result} vs {names}")
    elif what in ("latex", "latexT"):
        want = [n.strip() for n in names]
        got = rows(result, names, what == "latexT") if len(names) else []
        if "" not in want:
            ctx.check(got == want, "order-in-table", f"{where}: {got} vs {want}")
    elif what == "maxpost":
        ctx.check(result == names, "order-in-max-posteriors", f"{where}: {result} vs {names}")
    elif what in ("aic", "bic"):
        ctx.check(result == real, "order-in-criteria", f"{where}: {result} vs {real}")
    elif what == "dic":
        ctx.check(result == names, "order-in-criteria", f"{where}: {result} vs {names}")
    elif what == "comp":
        got = sorted(re.sub(r"\s+", " ", x) for x in rows(result, names))
        want = sorted(re.sub(r"\s+", " ", n.strip()) for n in names)
        if "" not in want:
            ctx.check(got == want, "chains-in-comparison", f"{where}: {got} vs {want}")
    elif what == "legend":
        import matplotlib.pyplot as plt

        ax = result.axes[0]
        shown = [n for n, ch in m.items()]
        got = len(ax.collections)
        n = len([x for x in shown])
        ctx.check(got == n, "walks-draw-each-chain", f"{where}: {got} vs {n}")
        plt.close("all")
    elif what in ("pick-summary", "pick-held", "pick-best"):
        ctx.check(result == pick(m, step), f"order-of-selection:{what}", f"{where}: {result} vs {pick(m, step)}")
    elif what == "pick":
        want = [n.strip() for n in pick(m, step)]
        if "" not in want:
            ctx.check(rows(result, want) == want, "order-of-selection", f"{where}: {rows(result, want)} vs {want}")
