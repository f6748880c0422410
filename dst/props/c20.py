"""C20: answers do not depend on how the same samples are written down: units, names, order, weight scale, repetition."""

from __future__ import annotations

import copy

import numpy as np
import pandas as pd

from dst import world
from dst.digest import digest
from dst.kernel import Tracer, random_fault
from dst.sessions import disturbed_read, frozen, reset_rc
from dst.world import View, close_figures, decode_opts, make_config, prepare_read

SHRINK = ["steps", "state/chains", "state/truths"]

KINDS = ["normal", "normal", "skew", "bimodal", "offset", "small", "uniform", "big", "int"]
FIGURES = ("plot", "dists", "sumplot", "walks")
ALL = [*world.COLS, "e_5"]
NAMES = ["a2", "weightless", "log", "a b", "p_1", "posterior_", "index", "0", "ω", "samples", "A", "B", "aa", "$x$", "weight2"]
EDIT_OPTS = {"summary_area": [0.3, 0.6827, 0.95], "statistics": ["max", "mean", "cumulative", "max_central", "hdi"],
             "smooth": [0, 1, 2], "bins": [6, 9, 15], "power": [0.5, 1.0], "sigmas": [[0, 1], [0, 1, 2]]}
READS = ["summary", "summary", "bounds", "hdi", "covmat", "corrmat", "maxpost", "maxpoint", "aic", "bic", "dic", "gr", "geweke",
         "latex", "plot", "plot", "dists", "sumplot", "walks"]


def random_chain(rng, name):
    if rng.random() < 0.12:
        from dst.data import random_mesh

        table = random_mesh(rng, rng.sample(world.COLS, rng.choice([1, 2, 2])))
        opts = world.random_opts(rng, table, heavy=False, exclude=("walkers", "plot_cloud", "shift_params", "bins"))
        opts["grid"] = True
        opts.pop("show_contour_labels", None)
        return {"name": name, "table": table, "opts": opts, "edits": []}
    spec = world.random_chain(rng, name, n=rng.choice([96, 240, 600]), cols=rng.sample(ALL, rng.choice([1, 2, 2, 3, 4, 5])),
                              kinds=KINDS, exclude=("show_contour_labels", "plot_cloud"))
    if "weights" in spec["table"]:
        spec["table"]["weights"]["kind"] = "int"
    if rng.random() < 0.2 and not spec["opts"].get("multimodal"):
        spec["opts"] |= {"multimodal": True, "smooth": rng.choice([1, 2, 3])}
        spec["opts"].pop("statistics", None)
        for c in spec["table"]["cols"]:
            if rng.random() < 0.6:
                c["kind"] = "bimodal"
    elif rng.random() < 0.15:
        spec["opts"]["statistics"] = "hdi"
        spec["opts"].pop("multimodal", None)
    if rng.random() < 0.15:
        spec["opts"] |= {"plot_cloud": True, "num_cloud": rng.choice([20, 1000])}
    return spec


def random_change(rng):
    kind = rng.choice(["units", "units", "units", "weights", "weights", "order", "order", "rename", "rename-chain", "special",
                       "columns", "index", "unroll", "dtype"])
    return {"s": "change", "kind": kind, "k": rng.randrange(4), "col": rng.choice(ALL),
            "exp": rng.choice([-1, 1]) * rng.choice([2, 4, 10, 20, 34, 40, 60]), "seed": rng.randrange(1000),
            "name": rng.choice(NAMES), "index": rng.choice(["shuffled", "str", "dup", "offset"])}


def generate(rng, tier):
    names = rng.sample(["alpha", "beta", "model A", "A"], rng.choice([1, 1, 2, 2, 3]))
    chains = []
    for i, nm in enumerate(names):
        chains.append(world.random_marker(rng, nm) if i and rng.random() < 0.12 else random_chain(rng, nm))
    config = world.random_config(rng) if rng.random() < 0.5 else None
    if config:
        for k in ("blind", "watermark", "serif"):
            config.pop(k, None)
    override = world.random_override(rng) if rng.random() < 0.2 else None
    if override:
        for k in ("plot_cloud", "show_contour_labels", "shift_params"):
            override.pop(k, None)
    state = {"chains": chains, "truths": [world.random_truth(rng) for _ in range(rng.choice([0, 0, 1, 2]))],
             "config": config, "override": override}
    steps = []
    if rng.random() < 0.5:  # a history with one kind of change alone
        only = random_change(rng)
    else:
        only = None
    for _ in range(rng.randint(4, 9)):
        r = rng.random()
        if r < 0.4:
            c = random_change(rng)
            if only:
                c["kind"] = only["kind"]
            steps.append(c)
        elif r < 0.47:
            name = rng.choice(sorted(EDIT_OPTS))
            steps.append({"s": "option", "k": rng.randrange(4), "name": name, "value": rng.choice(EDIT_OPTS[name])})
        else:
            op = world.random_read(rng, kinds=[rng.choice(READS)])
            op.pop("sel", None)
            if rng.random() < 0.5:
                op.setdefault("cols", list(range(5)))
            else:
                op.pop("cols", None)
            step = {"s": "read", "op": op}
            if rng.random() < 0.2:
                step["fault"] = random_fault(rng, 100)
            steps.append(step)
    steps.append({"s": "read", "op": world.random_read(rng, kinds=[rng.choice(READS)])})
    steps[-1]["op"].pop("sel", None)
    return {"state": state, "steps": steps}


def prepare():
    pass


class World:
    """A consumer and the way its content is written down relative to the base state."""

    def __init__(self, state):
        self.state = state
        self.view = View(state)
        self.cc = self.view.cc
        self.exp: dict = {}  # parameter -> exponent of two of its unit
        self.name: dict = {}  # parameter -> its name now
        self.cname = {s["name"]: s["name"] for s in state["chains"]}
        self.done: set = set()
        self.samples = [s for s in state["chains"]]

    def col(self, p):
        return self.name.get(p, p)

    def back(self, c):
        return {v: k for k, v in self.name.items()}.get(c, c)

    def chain(self, k):
        return self.view.chains[k % len(self.view.chains)]

    def params(self, chain):
        return [self.back(c) for c in chain.data_columns]

    def change(self, step):
        """One change of writing.  Returns whether it was possible."""
        kind = step["kind"]
        k = step["k"] % len(self.view.chains)
        chain, spec = self.view.chains[k], self.state["chains"][k]
        p = step["col"]
        opts = spec["opts"]
        if kind == "units":
            if abs(self.exp.get(p, 0) + step["exp"]) > 70:
                return False
            f = 2.0 ** step["exp"]
            for c in self.view.chains:
                if self.col(p) in c.data_columns:
                    c.samples[self.col(p)] = c.samples[self.col(p)] * f
            self.exp[p] = self.exp.get(p, 0) + step["exp"]
            self.rewrite()
        elif kind == "weights":
            if "marker" in spec or chain.color_param == chain.weight_column:
                return False
            chain.samples[chain.weight_column] = chain.samples[chain.weight_column].to_numpy(dtype=float) * 2.0 ** step["exp"]
        elif kind in ("order", "unroll"):
            if "marker" in spec or chain.shift_params or opts.get("kde") or chain.plot_cloud or opts.get("plot_point"):
                return False
            if kind == "unroll":
                if not spec["table"].get("weights") or spec["opts"].get("walkers", 1) > 1 or opts.get("grid"):
                    return False
                w = chain.samples[chain.weight_column].to_numpy(dtype=float)
                times = np.round(w / w.min()).astype(int)
                if not np.array_equal(times * w.min(), w) or times.max() > 8:
                    return False
                df = chain.samples.iloc[np.repeat(np.arange(len(w)), times)].copy()
                df[chain.weight_column] = 1.0
                chain.samples = df
            else:
                order = np.random.default_rng(step["seed"]).permutation(len(chain.samples))
                if step["seed"] % 3 == 0:
                    order = np.arange(len(order))[::-1]
                chain.samples = chain.samples.iloc[order]
        elif kind == "rename":
            new = step["name"]
            taken = {c for x in self.view.chains for c in x.samples.columns} | set(self.name.values()) | set(ALL) | {"zz"}
            taken |= {t for x in self.view.truths for t in x.location}
            if new in taken:
                return False
            old = self.col(p)
            self.name[p] = new
            for c in self.view.chains:
                if old in c.samples.columns:
                    c.samples = c.samples.rename(columns={old: new})
                    if c.color_param == old:
                        c.color_param = new
            self.rewrite()
        elif kind == "rename-chain":
            new = step["name"]
            if new in self.cname.values() or new in self.cname:
                return False
            for c in list(self.view.chains):
                self.cc.remove_chain(c.name)
            chain.name = new
            self.cname[spec["name"]] = new
            for c in self.view.chains:
                self.cc.add_chain(c)
        elif kind == "special":
            if "marker" in spec:
                return False
            which = "weight_column" if step["seed"] % 2 else "posterior_column"
            old = getattr(chain, which)
            if old not in chain.samples.columns or step["name"] in chain.samples.columns or step["name"] in self.name.values():
                return False
            chain.samples = chain.samples.rename(columns={old: step["name"]})
            setattr(chain, which, step["name"])
            if chain.color_param == old:
                chain.color_param = step["name"]
        elif kind == "columns":
            cols = list(chain.samples.columns)
            order = np.random.default_rng(step["seed"]).permutation(len(cols))
            chain.samples = chain.samples[[cols[i] for i in order]]
        elif kind == "index":
            n = len(chain.samples)
            df = chain.samples.copy()
            g = np.random.default_rng(step["seed"])
            df.index = {"shuffled": lambda: g.permutation(n), "str": lambda: [f"r{i}" for i in g.permutation(n)],
                        "dup": lambda: g.integers(0, max(2, n // 3), n), "offset": lambda: np.arange(n) + 10**6}[step["index"]]()
            chain.samples = df
        elif kind == "dtype":
            df = chain.samples.copy()
            for c in df.columns:
                if df[c].dtype.kind in "iu":
                    df[c] = df[c].astype(float)
                elif step["seed"] % 2 and (df[c] == np.round(df[c])).all() and df[c].abs().max() < 2**40:
                    df[c] = df[c].astype(np.int64)
            chain.samples = df
        self.done.add(kind)
        return True

    def rewrite(self):
        """Truths and configuration in the names and units of now."""
        for t, spec in zip(self.view.truths, self.state["truths"]):
            loc = {self.col(p): v * 2.0 ** self.exp.get(p, 0) for p, v in spec["location"].items()}
            t.location = loc
        cfg = self.state["config"]
        if cfg is not None:
            cfg = copy.deepcopy(cfg)
            if "labels" in cfg:
                cfg["labels"] = {self.col(p): v for p, v in cfg["labels"].items()}
            if "extents" in cfg:
                cfg["extents"] = {self.col(p): [x * 2.0 ** self.exp.get(p, 0) for x in v] for p, v in cfg["extents"].items()}
            if isinstance(cfg.get("log_scales"), list):
                cfg["log_scales"] = [self.col(p) for p in cfg["log_scales"]]
            self.cc.set_plot_config(make_config(cfg))


def panels(fig):
    """Where everything is drawn, as fractions of its panel: no units, no words."""
    out = []
    for ax in fig.axes:
        items = []
        back = ax.transAxes.inverted()
        for ln in ax.lines:
            t = ln.get_transform() + back
            items.append(("line", t.transform(np.column_stack([np.asarray(ln.get_xdata(orig=False), dtype=float),
                                                               np.asarray(ln.get_ydata(orig=False), dtype=float)]))))
        for c in ax.collections:
            paths = [np.asarray(p.vertices, dtype=float) for p in c.get_paths()]
            if len(np.atleast_2d(c.get_offsets())) and type(c).__name__ == "PathCollection":
                off = np.asarray(c.get_offsets(), dtype=float)
                items.append(("points", (c.get_offset_transform() + back).transform(off)))
            else:
                t = c.get_transform() + back
                items.append((type(c).__name__, [t.transform(p) for p in paths if len(p)]))
        for p in ax.patches:
            items.append(("patch", (p.get_transform() + back).transform(p.get_path().vertices)))
        out.append(items)
    return out


def close(v):
    """Fractions, with what lies absurdly far outside left out."""
    if isinstance(v, np.ndarray):
        return np.where(np.abs(v) < 1e6, np.round(v, 12), np.nan)
    if isinstance(v, (list, tuple)):
        return [close(x) if not isinstance(x, str) else x for x in v]
    return v


class Reader:
    """One read in the names and units of a World, answered in those of the base state."""

    def __init__(self, w: World):
        self.w = w

    def factor(self, p):
        return 2.0 ** -self.w.exp.get(p, 0)

    def bound(self, b, p):
        if b is None:
            return None
        if isinstance(b, list):
            return [self.bound(x, p) for x in b]
        return [None if x is None else float(x) * self.factor(p) for x in (b.lower, b.center, b.upper)]

    def read(self, op):
        w, cc = self.w, self.w.cc
        kind = op["r"]
        an = cc.analysis
        cback = {v: k for k, v in w.cname.items()}
        order = [p for p in ALL if any(w.col(p) in c.data_columns for c in w.view.chains)]
        cols = [order[i % len(order)] for i in op.get("cols", range(len(order)))]
        cols = list(dict.fromkeys(cols))
        # Without being asked for by name, the parameters come in the order of the tables
        now = [w.col(p) for p in cols] if "cols" in op else None
        chain = w.chain(op.get("n", 0))
        own = sorted(w.params(chain))
        p = own[op.get("col", 0) % len(own)]
        if kind == "summary":
            s = an.get_summary(columns=now)
            return [(cback[n], [(w.back(c), self.bound(b, w.back(c))) for c, b in r.items()]) for n, r in s.items()]
        if kind == "bounds":
            return self.bound(an.get_parameter_summary(chain, w.col(p)), p)
        if kind == "hdi":
            iv = an.get_parameter_hdi_intervals(chain, w.col(p))
            bs = an.get_parameter_multimodal_bounds(chain, w.col(p), iv)
            return [[[x * self.factor(p) for x in i] for i in iv], self.bound(bs, p)]
        if kind in ("covmat", "corrmat"):
            names = [w.col(x) for x in own]
            m = chain.get_covariance(names) if kind == "covmat" else chain.get_correlation(names)
            v = np.array(m.matrix, dtype=float)
            if kind == "covmat":
                f = np.array([self.factor(x) for x in own])
                v = v * np.outer(f, f)
            return [[w.back(c) for c in m.columns], v]
        if kind == "maxpost":
            return [(cback[n], self.point(m)) for n, m in an.get_max_posteriors().items()]
        if kind == "maxpoint":
            return self.point(chain.get_max_posterior_point())
        if kind in ("aic", "bic", "dic"):
            return [(cback[n], float(v)) for n, v in getattr(cc.comparison, kind)().items()]
        if kind in ("gr", "geweke"):
            return [bool(getattr(cc.diagnostic, "gelman_rubin" if kind == "gr" else "geweke")(c.name)) for c in w.view.chains]
        if kind == "latex":
            return an.get_latex_table(columns=now, transpose=op.get("transpose", False))
        real = dict(op)
        real.pop("cols", None)
        pl = cc.plotter
        if kind == "plot":
            fig = pl.plot(columns=now)
        elif kind == "dists":
            fig = pl.plot_distributions(columns=now, col_wrap=op.get("col_wrap", 4))
        elif kind == "sumplot":
            fig = pl.plot_summary(columns=now, errorbar=op.get("errorbar", False))
        else:
            fig = pl.plot_walks(columns=now, convolve=op.get("convolve"), plot_weights=False, plot_posterior=op.get("posterior", True))
        return close(panels(fig))

    def point(self, m):
        if m is None:
            return None
        return [float(m.log_posterior), sorted((self.w.back(c), float(v) * self.factor(self.w.back(c))) for c, v in m.coordinate.items())]


def comparable(w: World, op) -> bool:
    """Does the meaning of this read leave the changes made so far out?"""
    kind, done = op["r"], w.done
    if "cols" not in op and "columns" in done and kind in (*FIGURES, "latex", "summary"):
        return False
    if kind == "latex":
        return not done & {"units", "rename", "rename-chain"}  # its text is in those units and names
    if kind == "dic":
        return "units" not in done  # the sample nearest to the mean is a matter of units
    if kind in ("gr", "geweke", "walks"):
        return not done & {"order", "unroll"}  # about the order of the samples
    if kind in FIGURES and "units" in done:
        # The height of a curve is its density to that power: curves of different powers share no unit.
        return len({c.power for c in w.view.chains}) == 1 or "power" in (w.state["override"] or {})
    if kind == "covmat":
        return "unroll" not in done  # the sample covariance knows how many samples there were
    return True


def attempt(w: World, op):
    reset_rc()
    try:
        return ("ok", digest(Reader(w).read(op)))
    except Exception as exc:  # noqa: BLE001
        return ("err", type(exc).__name__)
    finally:
        close_figures()


def evaluate(payload, scratch):
    """The same read of the samples as they were first written down."""
    return attempt(World(payload["state"]), payload["op"])


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    if not state["chains"]:
        return
    w = World(state)
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        if step["s"] == "change":
            ctx.stat("changed:" + step["kind"] if w.change(step) else "unchanged")
            ctx.log(i, step["kind"])
            continue
        if step["s"] == "option":
            k = step["k"] % len(w.view.chains)
            spec = state["chains"][k]
            if "marker" in spec or spec["opts"].get("multimodal") or spec["opts"].get("grid"):
                continue
            e = {"edit": "opt", "name": step["name"], "value": step["value"]}
            world.apply_edit(w.view.chains[k], e)
            spec["edits"].append(e)
            continue
        op = step["op"]
        if world.too_heavy(w.view, op):
            continue
        if step.get("fault"):
            status, _, injected = disturbed_read(w.cc, op, step["fault"], ctx)
            close_figures()
            ctx.log(i, status, injected)
        if not comparable(w, op):
            ctx.stat("not_comparable")
            continue
        with Tracer() as tracer:
            seen = attempt(w, op)
        ctx.stat("steps")
        ctx.stat("lines", tracer.lines)
        ctx.stat("outcome_" + seen[0])
        ctx.state(op["r"], sorted(w.done), seen[0], [c["opts"].get("statistics") for c in state["chains"]], bool(state["override"]))
        ctx.log(i, op["r"], seen[0])
        if w.done:
            ctx.claim(f"depends-on-writing:{op['r']}", {"state": frozen(state), "op": op}, seen,
                      f"{where} after {sorted(w.done)} units={w.exp} names={w.name}", rtol=1e-7)
