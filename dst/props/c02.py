"""C02: a chain owns its data; nothing handed in or handed out aliases it."""

from __future__ import annotations

import copy

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth

from dst import world
from dst.data import build_table
from dst.digest import digest
from dst.kernel import Tracer, random_fault
from dst.sessions import chain_snapshot, disturbed_read, pristine_read
from dst.world import apply_edit, decode_opts

SHRINK = ["steps", "sources"]

HOWS = ["frame", "frame", "buffer", "buffer", "columns", "slice", "emcee", "numpyro", "arviz"]


# Every public call that takes a list, dictionary or frame from the caller
LISTS = ["latex", "latex", "summary", "plot", "walks", "dists", "sumplot", "gr", "geweke", "covmat", "corrmat", "truths",
         "truthdata", "blind", "vars", "sigmas", "marker", "extents", "ticks"]


def prepare():
    import arviz  # noqa: F401
    import emcee  # noqa: F401


def evaluate(payload, scratch):
    return pristine_read(payload, scratch)


def generate(rng, tier):
    sources = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        table = world.random_table(rng, n=rng.choice([48, 96, 120]),
                                   kinds=["normal", "skew", "offset", "uniform", "bimodal"])
        if rng.random() < 0.4:
            table["index"] = rng.choice(["dup", "zeros", "str", "reversed"])
        opts = world.random_opts(rng, table, cheap=True, exclude=("multimodal",))
        if rng.random() < 0.5:
            opts["walkers"] = rng.choice([2, 3, 4])
        if rng.random() < 0.3:
            opts["shift_params"] = True
        sources.append({"how": rng.choice(HOWS), "table": table, "opts": opts, "nw": rng.choice([3, 4, 5])})
        if sources[-1]["how"] == "emcee" and len(table["cols"]) > 1:
            opts["walkers"] = rng.choice([1, sources[-1]["nw"]])
    steps = []
    fault_rate = rng.choice([0.0, 0.3])
    for _ in range(rng.randint(8, 22)):
        r = rng.random()
        k = rng.randrange(4)
        if r < 0.3:
            step = {"s": "caller", "k": k, "kind": rng.choice(
                ["cell", "cell", "column", "buffer", "buffer", "drop", "rename", "index", "nan", "reverse", "weights"]),
                "row": rng.randrange(500), "col": rng.randrange(8), "value": rng.choice([3.5, -2.0, 1e6])}
        elif r < 0.42:
            step = {"s": "build", "k": k, "opts": rng.choice([{}, {"shift_params": True}, {"walkers": 2},
                                                              {"walkers": 3, "shift_params": True}])}
        elif r < 0.52:
            step = {"s": "divide", "k": rng.randrange(6)}
        elif r < 0.68:
            step = {"s": "edit", "k": rng.randrange(12), "edit": {
                "edit": rng.choice(["inplace", "inplace", "scale", "shift", "weights", "posterior", "posterior",
                                     "neginf", "replace"]),
                "col": rng.randrange(4), "row": rng.randrange(500), "value": rng.choice([2.5, 0.3])}}
        elif r < 0.78:
            step = {"s": "returned", "k": rng.randrange(6), "what": rng.choice(
                ["names", "covmat", "corrmat", "maxpost", "maxpoint", "summary", "children", "columns", "data"])}
        elif r < 0.83:
            step = {"s": "lists", "what": rng.choice(LISTS), "n": rng.randrange(1000), "k": rng.randrange(4),
                    "objects": rng.random() < 0.4}
        elif r < 0.88:
            step = {"s": "args", "what": rng.choice(["truth", "truth", "series", "labels", "extents", "marker", "opts",
                                                     "columns", "blind"])}
        else:
            step = {"s": "read", "op": world.random_read(rng, rng.choice([0.1, 0.5]))}
        if step["s"] in ("build", "divide", "read") and rng.random() < fault_rate:
            step["fault"] = random_fault(rng, 60)
        steps.append(step)
    return {"sources": sources, "steps": steps, "check_every": rng.choice([1, 1, 3])}


class _Posterior:
    def __init__(self, data):
        self.data = data

    def get_samples(self):
        return self.data


class Source:
    """Data as the caller holds it, and every way the caller can go on writing to it."""

    def __init__(self, spec):
        self.spec = spec
        self.how = spec["how"]
        df = build_table(spec["table"])
        self.extra: list = []
        if self.how == "buffer":
            self.buffer = np.ascontiguousarray(df.to_numpy(dtype=float))
            self.held = pd.DataFrame(self.buffer, columns=list(df.columns), index=df.index, copy=False)
        elif self.how == "columns":
            self.arrays = {c: df[c].to_numpy(dtype=float).copy() for c in df}
            self.held = pd.DataFrame(self.arrays, index=df.index, copy=False)
        elif self.how == "slice":
            big = pd.concat([df, df], ignore_index=True).astype(float)
            self.big = big
            self.held = big.iloc[: len(df)]
        elif self.how == "emcee":
            import emcee

            cols = [c["name"] for c in spec["table"]["cols"]]
            x = df[cols].to_numpy(dtype=float)
            self.nw = spec.get("nw", 4)
            self.sampler = emcee.EnsembleSampler(max(self.nw, 2), len(cols), lambda p: -0.5 * float(p @ p))
            be = self.sampler.backend
            be.reset(self.nw, len(cols))
            steps = len(x) // self.nw
            steps -= (steps + 1) % 2 if self.nw % 2 else 0
            be.grow(steps, None)
            be.chain[:] = x[: steps * self.nw].reshape(steps, self.nw, len(cols))
            be.log_prob[:] = -1.0
            be.iteration = steps
            be.initialized = True
            self.cols = cols
            self.held = be.chain
        elif self.how == "numpyro":
            cols = [c["name"] for c in spec["table"]["cols"]]
            self.arrays = {c: df[c].to_numpy(dtype=float).copy() for c in cols}
            self.held = self.arrays
        elif self.how == "arviz":
            import arviz as az

            cols = [c["name"] for c in spec["table"]["cols"]]
            self.arrays = {c: df[c].to_numpy(dtype=float).copy().reshape(2, -1) for c in cols}
            self.held = az.from_dict(posterior=self.arrays)
        else:
            self.held = df

    def build(self, name, opts):
        o = decode_opts(opts)
        if self.how == "emcee":
            o = {k: v for k, v in o.items() if k not in ("weight_column", "posterior_column", "color_param")}
            self.args = list(self.cols)
            self.extra.append((self.args, list(self.cols)))
            return Chain.from_emcee(self.sampler, self.args, name, **o)
        if self.how in ("numpyro", "arviz"):
            o = {k: v for k, v in o.items() if k not in ("weight_column", "posterior_column", "color_param")}
            if self.how == "numpyro":
                return Chain.from_numpyro(_Posterior(self.held), name, **o)
            return Chain.from_arviz(self.held, name, **o)
        return Chain(samples=self.held, name=name, **o)

    def content(self):
        if self.how == "emcee":
            return ("emcee", self.held.copy(), self.sampler.backend.iteration)
        if self.how == "numpyro":
            return ("dict", [(k, v.copy()) for k, v in self.held.items()])
        if self.how == "arviz":
            return ("arviz", [(k, self.held.posterior[k].values.copy()) for k in self.held.posterior])
        d = [digest(self.held), [str(t) for t in self.held.dtypes]]
        if self.how == "slice":
            d.append(digest(self.big))
        return copy.deepcopy(d)

    def mutate(self, step):
        """The caller writes to what they own."""
        kind, value = step["kind"], step["value"]
        if self.how in ("emcee", "numpyro", "arviz"):
            if self.how == "emcee":
                if kind in ("column", "reverse"):
                    self.held[:] = self.held[::-1].copy()
                else:
                    self.held.ravel()[step["row"] % self.held.size :] += value
            else:
                arrays = self.held if self.how == "numpyro" else {k: self.held.posterior[k].values for k in self.held.posterior}
                k = sorted(arrays)[step["col"] % len(arrays)]
                arrays[k].ravel()[step["row"] % arrays[k].size :] += value
            return
        df = self.held
        r = step["row"] % len(df)
        col = df.columns[step["col"] % df.shape[1]]
        j = step["col"] % df.shape[1]
        if kind == "buffer" and self.how == "buffer":
            self.buffer[r:, j % self.buffer.shape[1]] += value
        elif kind == "buffer" and self.how == "columns":
            key = list(self.arrays)[j % len(self.arrays)]
            self.arrays[key][r:] += value
        elif self.how == "slice":
            self.big.iloc[r:, j] = value
            self.held = self.big.iloc[: len(self.held)]
        elif kind in ("cell", "buffer"):
            df.iloc[r, j] = value
        elif kind == "column":
            df[col] = np.arange(len(df)) * float(value)
        elif kind == "drop" and df.shape[1] > 1:
            df.drop(columns=[col], inplace=True)
        elif kind == "rename":
            df.columns = [f"{c}_" if c == col else c for c in df.columns]
        elif kind == "index":
            df.index = np.arange(len(df))[::-1] + 7
        elif kind == "nan":
            df[col] = df[col].astype(float)
            df.iloc[r, j] = np.nan
        elif kind == "reverse":
            vals = df[col].to_numpy()
            if vals.flags.writeable:
                vals[:] = vals[::-1].copy()
            else:
                df[col] = vals[::-1].copy()
        elif kind == "weights":
            df["weight"] = 2.0


def refill(value):
    """Writes into anything mutable that came back from a call."""
    if isinstance(value, np.ndarray):
        if value.flags.writeable and value.dtype.kind == "f":
            value += 17.0
    elif isinstance(value, list):
        value.append("intruder")
        if len(value) > 1:
            value[0] = "intruder 0"
    elif isinstance(value, dict):
        for v in list(value.values()):
            refill(v)
        value["intruder"] = None
    elif isinstance(value, pd.DataFrame):
        if value.shape[1]:
            value.iloc[:, 0] = -99.0
            value["intruder"] = 1.0
    elif hasattr(value, "matrix"):
        refill(value.matrix)
        refill(value.columns)
    elif hasattr(value, "coordinate"):
        refill(value.coordinate)
        value.log_posterior = 1e9
    elif hasattr(value, "lower"):
        value.lower = value.center = value.upper = 1e9


def call_with_lists(cc, step, sources, ctx, where):
    """Calls with lists the caller goes on using: they come back as they went in, whatever the call did with them."""
    what, n = step["what"], step["n"]
    names = list(cc.get_names())
    if not names:
        return
    chosen = [names[(n + 3 * j) % len(names)] for j in range(1 + n % 3)]
    chosen = list(dict.fromkeys(chosen))
    chains = [cc.get_chain(x) for x in chosen] if step["objects"] else chosen
    cols = sorted({c for x in names for c in cc.get_chain(x).data_columns})
    cols = [c for j, c in enumerate(cols) if (n >> j) & 1] or cols
    if n % 7 == 0:
        cols = cols[::-1]
    given: list = [cols, chains]
    pl, an = cc.plotter, cc.analysis
    calls = {
        "latex": lambda: an.get_latex_table(chains=chains, columns=cols),
        "summary": lambda: an.get_summary(chains=chains, columns=cols),
        "plot": lambda: pl.plot(chains=chains, columns=cols),
        "walks": lambda: pl.plot_walks(chains=chains, columns=cols),
        "dists": lambda: pl.plot_distributions(chains=chains, columns=cols),
        "sumplot": lambda: pl.plot_summary(chains=chains, columns=cols),
        "gr": lambda: cc.diagnostic.gelman_rubin(chosen),
        "geweke": lambda: cc.diagnostic.geweke(chosen),
        "covmat": lambda: cc.get_chain(chosen[0]).get_covariance(cols),
        "corrmat": lambda: cc.get_chain(chosen[0]).get_correlation(cols),
    }
    fn = calls.get(what)
    if fn is None:
        if what == "truths":
            loc = {c: 0.5 * j for j, c in enumerate(cols)}
            given.append(loc)
            fn = lambda: Truth(location=loc)  # noqa: E731
        elif what == "truthdata":
            loc = pd.Series({c: 0.5 * j for j, c in enumerate(cols)})
            given.append(loc)
            fn = lambda: Truth(location=loc)  # noqa: E731
        elif what in ("blind", "extents", "ticks"):
            ext = {c: [-3.0, 3.0] for c in cols}
            given.append(ext)
            kw = {"blind": {"blind": cols}, "extents": {"extents": {c: tuple(v) for c, v in ext.items()}},
                  "ticks": {"legend_artists": True, "labels": {c: c for c in cols}}}[what]
            given.append(kw)
            other = ChainConsumer()
            for x in chosen:
                other.add_chain(cc.get_chain(x))

            def fn():
                other.set_plot_config(PlotConfig(**kw, dpi=40))
                other.analysis.get_latex_table()
                return other.plotter.plot()
        elif what == "vars":
            src = sources[step["k"] % len(sources)]
            if src.how not in ("numpyro", "arviz"):
                return
            if n % 2:
                cols[:] = [f"~{cols[0]}"]

            def fn():
                if src.how == "numpyro":
                    return Chain.from_numpyro(_Posterior(src.held), "v", var_names=cols)
                return Chain.from_arviz(src.held, "v", var_names=cols)
        elif what == "sigmas":
            sig = [2.0, 0.0, 1.0]
            given.append(sig)
            fn = lambda: Chain(samples=pd.DataFrame({"a": np.arange(20.0)}), name="s", sigmas=sig)  # noqa: E731
        elif what == "marker":
            loc = {c: 0.25 * j for j, c in enumerate(cols)}
            given.append(loc)

            def fn():
                other = ChainConsumer()
                other.add_marker(loc, "m")
                return other.plotter.plot()
    before = [_content(g) for g in given]
    try:
        fn()
    except Exception as exc:  # noqa: BLE001
        ctx.log(what, type(exc).__name__)
    after = [_content(g) for g in given]
    ctx.check(after == before, f"argument-changed:{what}", f"{where}: one of the {len(given)} arguments is not what it was")


def _content(g):
    """What a list, dictionary or series holds; chains in it by identity."""
    if isinstance(g, pd.Series):
        return [(k, float(v)) for k, v in g.items()]
    if isinstance(g, dict):
        return [(k, _content(v)) for k, v in g.items()]
    if isinstance(g, (list, tuple)):
        return [_content(v) for v in g]
    return g if isinstance(g, (str, float, int, bool, type(None))) else id(g)


def execute(trace, ctx):
    cc = ChainConsumer()
    sources = [Source(s) for s in trace["sources"]]
    chains: list = []  # every chain object alive: registered ones and children
    names = 0
    expected: list = []
    contents = [s.content() for s in sources]
    args: dict = {
        "truth": {"a": 0.5, "b": -1.0},
        "series": pd.Series({"a": 0.25, "c": 2.0}),
        "labels": {"a": "$A$"},
        "extents": {"a": (-4.0, 4.0)},
        "marker": {"a": 0.1, "b": 0.2},
        "opts": [0.0, 1.0, 2.0],
        "columns": None,
        "blind": ["d"],
    }
    cc.add_truth(Truth(location=args["truth"]))
    cc.add_truth(Truth(location=args["series"]))
    config = PlotConfig(labels=args["labels"], extents=args["extents"], blind=args["blind"], dpi=40)
    cc.set_plot_config(config)

    def register(chain):
        chains.append(chain)
        expected.append(chain_snapshot(chain))

    def new(k, opts, fault=None):
        nonlocal names
        src = sources[k % len(sources)]
        o = dict(src.spec["opts"]) | opts
        names += 1
        tracer = Tracer(fault=fault)
        try:
            with tracer:
                chain = src.build(f"chain {names}", o)
        except (KeyboardInterrupt, MemoryError):
            ctx.stat("fault:" + fault["kind"])
            return None
        except Exception:  # noqa: BLE001  (the caller has made their own table unusable)
            return None
        finally:
            ctx.stat("lines", tracer.lines)
            ctx.stat("steps")
        # What the table says now is what the chain has to hold
        if not hasattr(src.held, "columns") or o.get("shift_params"):
            pass
        else:
            df = src.held
            for c in df.columns:
                if not ctx.same(df[c].to_numpy(), chain.samples[c].to_numpy(), "wrong-data", f"chain {names} column {c}", rtol=0):
                    return chain
        cc.add_chain(chain)
        register(chain)
        return chain

    def verify(where):
        for i, (chain, exp) in enumerate(zip(chains, expected)):
            if not ctx.same(exp, chain_snapshot(chain), "chain-changed", f"{where}: chain {i} {chain.name!r}", rtol=0):
                return False
        for i, (src, cont) in enumerate(zip(sources, contents)):
            if not ctx.same(cont, src.content(), "caller-data-changed", f"{where}: source {i} ({src.how})", rtol=0):
                return False
        for i, src in enumerate(sources):
            for given, was in src.extra:
                if not ctx.same(was, given, "caller-list-changed", f"{where}: source {i} ({src.how})"):
                    return False
        ok = ctx.same(truths, digest(cc._truths if hasattr(cc, "_truths") else None), "truth-changed", where, rtol=0)
        return ok and ctx.same(conf, digest(config), "config-changed", where, rtol=0)

    truths = digest(cc._truths) if hasattr(cc, "_truths") else None
    conf = digest(config)
    for k in range(len(sources)):
        new(k, {})
    if not verify("construction"):
        return

    for i, step in enumerate(trace["steps"]):
        kind = step["s"]
        where = f"step {i} {step}"
        fault = step.get("fault")
        if fault:
            ctx.stat("offered:" + fault["kind"])
        if kind == "caller":
            k = step["k"] % len(sources)
            sources[k].mutate(step)
            contents[k] = sources[k].content()
        elif kind == "build":
            new(step["k"], step["opts"], fault)
        elif kind == "divide":
            able = [c for c in chains if c.walkers > 1]
            if not able:
                continue
            chain = able[step["k"] % len(able)]
            tracer = Tracer(fault=fault)
            try:
                with tracer:
                    kids = chain.divide()
                for kid in kids[:3]:
                    register(kid)
            except (KeyboardInterrupt, MemoryError):
                if not fault:
                    raise
                ctx.stat("fault:" + fault["kind"])
            except Exception as exc:  # noqa: BLE001  (the user has put what no chain may hold into this one)
                ctx.log(i, type(exc).__name__)
            ctx.stat("steps")
        elif kind == "edit":
            if not chains:
                continue
            k = step["k"] % len(chains)
            if not chains[k].data_columns:
                continue
            apply_edit(chains[k], step["edit"])
            expected[k] = chain_snapshot(chains[k])
        elif kind == "returned":
            if not chains:
                continue
            chain = chains[step["k"] % len(chains)]
            what = step["what"]
            try:
                if what == "names":
                    refill(cc.get_names())
                elif what == "covmat":
                    refill(chain.get_covariance())
                elif what == "corrmat":
                    refill(chain.get_correlation())
                elif what == "maxpost":
                    refill(cc.analysis.get_max_posteriors())
                elif what == "maxpoint":
                    refill(chain.get_max_posterior_point())
                elif what == "summary":
                    refill(cc.analysis.get_summary())
                elif what == "columns":
                    refill(chain.data_columns)
                elif what == "data":
                    refill(chain.data_samples)
                elif what == "children" and chain.walkers > 1:
                    for kid in chain.divide():
                        refill(kid.samples)
                        kid.sigmas.append(9.0)
            except Exception as exc:  # noqa: BLE001
                ctx.log(i, type(exc).__name__)
            ctx.stat("steps")
        elif kind == "args":
            what = step["what"]
            if what in ("truth", "marker"):
                args[what]["a"] = 1e3 + i
                args[what]["zz"] = 1.0
            elif what == "series":
                args[what].iloc[0] = 1e3 + i
            elif what == "labels":
                args[what]["a"] = f"intruder {i}"
            elif what == "extents":
                args[what]["a"] = (1.0, 2.0 + i)
            elif what == "blind":
                args[what].append("a")
            elif what == "opts":
                names += 1
                sig = args["opts"]
                chain = Chain(samples=pd.DataFrame({"a": np.arange(20.0)}), name=f"chain {names}", sigmas=sig)
                register(chain)
                sig.append(5.0 + i)
            elif what == "columns" and chains:
                cols = list(chains[0].data_columns)
                m = chains[0].get_covariance(cols)
                had = list(m.columns)
                cols.append("intruder")
                ctx.check(list(m.columns) == had, "returned-aliases-argument", where)
            if what == "marker" and "marked" not in args:
                loc = args["marker"]
                cc.add_marker(loc, "the marker")
                args["marked"] = True
                register(cc.get_chain("the marker"))
        elif kind == "lists":
            call_with_lists(cc, step, sources, ctx, where)
            world.close_figures()
            ctx.stat("steps")
        elif kind == "read":
            held = [cc.get_chain(n) for n in cc.get_names()]
            view = type("V", (), {"override": None, "chains": held})
            if not held or world.too_heavy(view, step["op"]):
                continue
            status, value, injected = disturbed_read(cc, step["op"], fault, ctx)
            world.close_figures()
            ctx.log(status, injected)
        ctx.state(kind, step.get("kind"), step.get("what"), (step.get("edit") or {}).get("edit"),
                  sources[step.get("k", 0) % len(sources)].how)
        ctx.log(i, kind)
        if (i + 1) % trace["check_every"] == 0 and not verify(where):
            return
    verify("end")
