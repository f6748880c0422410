"""C04: what a sampler produced is what the chain holds: every retained sample once, under its name, walkers contiguous."""

from __future__ import annotations

import os

import numpy as np
from chainconsumer import Chain

from dst.kernel import Tracer, random_fault

SHRINK = ["steps", "segments", "vars"]

VARS = ["a", "ab", "abc", "b", "mu", "mu_0", "sigma", "x y", "~t", "Omega", "chain_mass", "drawn", "chains", "draw_0"]


def prepare():
    import arviz  # noqa: F401
    import emcee  # noqa: F401
    import h5py  # noqa: F401


def generate(rng, tier):
    kind = rng.choice(["emcee", "emcee", "numpyro", "arviz"])
    names = rng.sample([v for v in VARS if not v.startswith("~")], rng.choice([1, 2, 3, 4]))
    t: dict = {"kind": kind, "vars": names, "seed": rng.randrange(10**6)}
    if kind == "emcee":
        t["vars"] = names[:3]
        nd = len(t["vars"])
        t["walkers"] = rng.choice([2, 4, 6, 8])
        t["walkers"] = max(t["walkers"], 2 * nd)
        t["backend"] = rng.choice(["memory", "memory", "hdf"])
        t["wall"] = rng.choice([None, 2.0])
        # sampling in segments, each possibly cut short by the user's likelihood failing or by a crash
        t["segments"] = []
        for _ in range(rng.choice([1, 2, 3])):
            seg = {"steps": rng.randint(2, 25), "thin_by": rng.choice([1, 1, 1, 2])}
            if rng.random() < 0.45:
                seg["fail"] = {"call": rng.randint(1, 25 * t["walkers"]),
                               "how": rng.choice(["KeyboardInterrupt", "ValueError", "MemoryError", "crash"])}
            t["segments"].append(seg)
    else:
        t["chains"] = rng.choice([1, 2, 3, 4])
        t["draws"] = rng.choice([1, 5, 24, 60])
        t["segments"] = []
        if kind == "arviz":
            for _ in range(rng.choice([0, 0, 1, 2])):
                t["segments"].append({"op": rng.choice(["chains", "thin", "burn", "append", "order", "transpose", "prior"]),
                                      "k": rng.randint(1, 4)})
        t["int"] = rng.random() < 0.3
    t["steps"] = []
    for _ in range(rng.randint(2, 8)):
        step: dict = {}
        if kind == "emcee":
            step["thin"] = rng.choice([1, 1, 2, 3, 5])
            step["discard"] = rng.choice([0, 0, 1, 4, 9])
            step["walkers"] = rng.choice(["all", "all", "one", "none"])
            step["order"] = rng.random() < 0.3
        else:
            r = rng.random()
            pool = t["vars"] + ([] if rng.random() < 0.8 else ["not there"])
            some = rng.sample(pool, rng.randint(1, len(pool)))
            if r < 0.25:
                step["var_names"] = None
            elif r < 0.32:
                step["var_names"] = []
            elif r < 0.6:
                step["var_names"] = some
            elif r < 0.9:
                step["var_names"] = ["~" + s for s in some]
            else:
                step["var_names"] = some + ["~" + t["vars"][0]]
            step["walkers"] = rng.choice(["all", "all", "none"])
        step["opts"] = rng.choice([{}, {"color": "#ff0000"}, {"num_free_params": 3, "linewidth": 2.0}])
        if rng.random() < 0.3:
            step["fault"] = random_fault(rng, 40)
        t["steps"].append(step)
    return t


class _Posterior:
    def __init__(self, data):
        self.data = data

    def get_samples(self):
        return dict(self.data)


class Crash(BaseException):
    pass


def sample_emcee(trace, ctx):
    """Runs the real sampler with a failing likelihood; returns it and an independent record of every stored step."""
    import emcee

    nd, nw = len(trace["vars"]), trace["walkers"]
    calls = {"n": 0, "fail": None}
    wall = trace["wall"]

    def log_prob(p):
        calls["n"] += 1
        f = calls["fail"]
        if f and calls["n"] == f["call"]:
            ctx.stat("fault:likelihood-" + f["how"])
            raise {"KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError, "MemoryError": MemoryError,
                   "crash": Crash}[f["how"]]("injected")
        if wall is not None and abs(p[0]) > wall:
            return -np.inf
        return -0.5 * float(np.sum(p**2))

    path = os.path.join(ctx.scratch, "chain.h5")

    def make():
        backend = emcee.backends.HDFBackend(path) if trace["backend"] == "hdf" else emcee.backends.Backend()
        return emcee.EnsembleSampler(nw, nd, log_prob, backend=backend)

    g = np.random.default_rng(trace["seed"])
    np.random.seed(trace["seed"])
    start = g.uniform(-1, 1, size=(nw, nd))
    sampler = make()
    sampler._random = np.random.RandomState(trace["seed"])
    record: list[np.ndarray] = []
    state = start
    for seg in trace["segments"]:
        calls["n"], calls["fail"] = 0, seg.get("fail")
        if seg.get("fail"):
            ctx.stat("offered:likelihood-" + seg["fail"]["how"])
        try:
            for s in sampler.sample(state, iterations=seg["steps"], thin_by=seg["thin_by"]):
                record.append(np.array(s.coords))
                state = s
                ctx.stat("steps")
        except (KeyboardInterrupt, ValueError, MemoryError):
            pass
        except Crash:
            if trace["backend"] == "hdf":
                # the process died: only the file survives, a new sampler picks it up
                sampler = make()
                sampler._random = np.random.RandomState(trace["seed"] + 1)
                ctx.stat("fault:crash-restart")
        calls["fail"] = None
        if record:
            state = record[-1].copy()
        ctx.log("segment", len(record))
    return sampler, record


def filtered(names, var_names):
    """The reference filter.  None: must be refused."""
    if not var_names:
        return list(names)
    neg = [v.startswith("~") for v in var_names]
    if all(neg):
        return [n for n in names if "~" + n not in var_names]
    if any(neg):
        return None
    return [n for n in names if n in var_names]


def execute(trace, ctx):
    if not trace["vars"]:
        return
    kind = trace["kind"]
    names = trace["vars"]
    g = np.random.default_rng(trace["seed"])
    if kind == "emcee":
        sampler, record = sample_emcee(trace, ctx)
        if not record:
            return
        stored = np.array(record)  # (step, walker, dim)
        nch = trace["walkers"]
    else:
        nch, nd = trace["chains"], trace["draws"]
        cube = {v: g.normal(j, 1.0, (nch, nd)) for j, v in enumerate(names)}
        if trace["int"]:
            cube[names[-1]] = g.integers(-50, 50, (nch, nd))
        if kind == "arviz":
            import arviz as az

            idata = az.from_dict(posterior={k: v.copy() for k, v in cube.items()},
                                 sample_stats={"diverging": np.zeros((nch, nd), dtype=bool)})
            for seg in trace["segments"]:
                k = seg["k"]
                if seg["op"] == "chains" and nch > 1:
                    keep = [i for i in range(nch) if i != k % nch]
                    idata = idata.isel(chain=keep)
                    cube = {v: x[keep] for v, x in cube.items()}
                elif seg["op"] == "thin":
                    idata = idata.isel(draw=slice(None, None, k))
                    cube = {v: x[:, ::k] for v, x in cube.items()}
                elif seg["op"] == "burn" and nd > k:
                    idata = idata.isel(draw=slice(k, None))
                    cube = {v: x[:, k:] for v, x in cube.items()}
                elif seg["op"] == "order" and nch > 1:
                    keep = list(range(nch))[::-1]
                    idata = idata.isel(chain=keep)
                    cube = {v: x[keep] for v, x in cube.items()}
                elif seg["op"] == "transpose":
                    # The same draws, stored the other way round
                    idata.posterior = idata.posterior.transpose("draw", "chain")
                elif seg["op"] == "prior" and "prior" not in idata.groups():
                    idata.add_groups(prior={v: g.normal(9, 1.0, next(iter(cube.values())).shape) for v in [*names, "only prior"]})
                elif seg["op"] == "append":
                    idata = az.concat(idata, idata.copy(), dim="draw")
                    cube = {v: np.concatenate([x, x], axis=1) for v, x in cube.items()}
                nch, nd = next(iter(cube.values())).shape
                if nd == 0:
                    return
        else:
            source = {v: x.ravel().copy() for v, x in cube.items()}
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        kw = dict(step["opts"])
        walkers = 1
        per_walker = None
        if kind == "emcee":
            thin, discard = step["thin"], step["discard"]
            kept = stored[discard + thin - 1 :: thin]
            if step["walkers"] != "none":
                walkers = nch if step["walkers"] == "all" else 1
                kw["walkers"] = walkers
            cols = names[::-1] if step["order"] else list(names)
            given = list(cols)
            if walkers > 1:
                rows = kept.swapaxes(0, 1).reshape(-1, len(names))
                per_walker = [kept[:, w] for w in range(nch)]
            else:
                rows = kept.reshape(-1, len(names))
            want = {c: rows[:, j] for j, c in enumerate(cols)}
            before = sampler.get_chain().copy()
            refuse = len(kept) == 0

            def call():
                return Chain.from_emcee(sampler, given, f"c{i}", thin=thin, discard=discard, **kw)  # noqa: B023
        else:
            vn = step["var_names"]
            keep = filtered(names, vn)
            refuse = not keep
            if step["walkers"] == "all":
                walkers = nch
                kw["walkers"] = walkers
            want = {c: cube[c].ravel() for c in keep or []}
            given = None if vn is None else list(vn)
            cols = vn
            per_walker = [np.stack([cube[c][w] for c in keep or []], axis=-1) for w in range(nch)] if keep else None
            if kind == "numpyro":
                before = {k: v.copy() for k, v in source.items()}

                def call():
                    return Chain.from_numpyro(_Posterior(source), f"c{i}", var_names=given, **kw)  # noqa: B023
            else:
                before = {k: idata.posterior[k].values.copy() for k in idata.posterior}

                def call():
                    return Chain.from_arviz(idata, f"c{i}", var_names=given, **kw)  # noqa: B023
        for fault in [step["fault"], None] if step.get("fault") else [None]:
            tracer = Tracer(fault=fault)
            chain, error, injected = None, None, False
            if fault:
                ctx.stat("offered:" + fault["kind"])
            with tracer:
                try:
                    chain = call()
                except (KeyboardInterrupt, MemoryError):
                    injected = bool(tracer.fired)
                    if not injected:
                        raise
                    ctx.stat("fault:" + fault["kind"])
                except Exception as exc:  # noqa: BLE001
                    error = exc
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            ctx.log(i, type(error).__name__, injected)
            ctx.state(kind, step.get("thin"), step.get("discard"), step["walkers"], type(error).__name__, injected,
                      len(names), nch, [s.get("op") or bool(s.get("fail")) for s in trace["segments"]],
                      None if kind == "emcee" or not step["var_names"] else step["var_names"][0][0] == "~")
            # the sampler's own data stays as it was
            if kind == "emcee":
                after = sampler.get_chain()
            elif kind == "numpyro":
                after = source
            else:
                after = {k: idata.posterior[k].values for k in idata.posterior}
            if not ctx.same(before, after, f"source-changed:{kind}", where, rtol=0):
                return
            ctx.check(given == (cols if cols is None else list(cols)), f"argument-changed:{kind}", where)
            if injected:
                continue
            if refuse:
                if not ctx.check(error is not None, f"accepted-nothing:{kind}", where):
                    return
                continue
            if not ctx.check(error is None, f"refused:{kind}", f"{where}: {error!r}"):
                return
            got = {c: chain.samples[c].to_numpy() for c in chain.data_columns}
            if not ctx.check(set(got) == set(want), f"columns:{kind}", f"{where}: {sorted(got)} vs {sorted(want)}"):
                return
            for c in want:
                if not ctx.same(np.asarray(want[c], dtype=float), np.asarray(got[c], dtype=float), f"samples:{kind}",
                                f"{where}: {c}", rtol=0):
                    return
            ctx.check(bool((chain.weights == 1.0).all()), f"weights:{kind}", where)
            ctx.check(chain.name == f"c{i}" and chain.walkers == walkers, f"identity:{kind}", where)
            ctx.check(all(getattr(chain, k) == v for k, v in kw.items()), f"options:{kind}", where)
            if walkers > 1:
                kids = chain.divide()
                if not ctx.check(len(kids) == nch, f"divide-count:{kind}", where):
                    return
                ordered = list(want)
                for w, kid in enumerate(kids):
                    if not ctx.same(np.asarray(per_walker[w], dtype=float), kid.samples[ordered].to_numpy(dtype=float),
                                    f"walker-trajectory:{kind}", f"{where}: walker {w}", rtol=0):
                        return
