"""Building consumers from JSON state, and running the public read operations on them.

A *state* is everything a user can have put into a consumer:
{"chains": [chainspec...], "truths": [...], "config": {...}|None, "override": {...}|None}
where a chainspec is {"name", "table", "opts", "edits"} or {"name", "marker": {...}, "opts", "edits"}.
"""

from __future__ import annotations

import random

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from .data import build_table, random_table
from .digest import digest

PLOTS = ("plot", "walks", "dists", "sumplot")
COLS = ["a", "b", "c", "d"]


def decode_opts(opts: dict) -> dict:
    from chainconsumer.statistics import SummaryStatistic

    out = dict(opts)
    if isinstance(out.get("statistics"), str):
        out["statistics"] = SummaryStatistic(out["statistics"])
    for k, v in out.items():
        if isinstance(v, list):
            out[k] = list(v)
        if isinstance(v, dict):
            out[k] = dict(v)
    return out


def decode_config(cfg: dict) -> dict:
    out = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in cfg.items()}
    if "extents" in out:
        out["extents"] = {k: tuple(v) for k, v in out["extents"].items()}
    if isinstance(out.get("legend_location"), list):
        out["legend_location"] = tuple(out["legend_location"])
    return out


def make_chain(spec: dict):
    from chainconsumer import Chain

    if "marker" in spec:
        from chainconsumer import ChainConsumer

        cc = ChainConsumer()
        cc.add_marker(dict(spec["marker"]), spec["name"], **decode_opts(spec["opts"]))
        chain = cc.get_chain(spec["name"])
    else:
        chain = Chain(samples=build_table(spec["table"]), name=spec["name"], **decode_opts(spec["opts"]))
    for e in spec.get("edits", []):
        apply_edit(chain, e)
    return chain


def apply_edit(chain, e: dict) -> None:
    """A user editing a chain they hold, in place."""
    if e["edit"] == "opt":
        setattr(chain, e["name"], decode_opts({e["name"]: e["value"]})[e["name"]])
        return
    cols = [c for c in chain.samples.columns if c not in (chain.weight_column, chain.posterior_column)]
    col = cols[e["col"] % len(cols)]
    if e["edit"] == "scale":
        chain.samples[col] = chain.samples[col] * e["value"]
    elif e["edit"] == "shift":
        chain.samples[col] = chain.samples[col] + e["value"]
    elif e["edit"] == "inplace":
        # Written straight into the existing buffer: object identities stay what they were
        i = e["row"] % len(chain.samples)
        chain.samples.iloc[i:, chain.samples.columns.get_loc(col)] += e["value"] * (
            float(np.std(chain.samples[col])) if e.get("rel") else 1.0
        )
    elif e["edit"] == "middle":
        # All rows but the first and last, in place
        x = chain.samples[col].to_numpy(copy=True)
        m = float(np.mean(x))
        y = x[1:-1].astype(float)
        x = x.astype(float)
        x[1:-1] = m + (y - m) * (0.05 if e["value"] < 1 else 4.0)
        chain.samples[col] = x
    elif e["edit"] == "swap":
        # The same values in another order: ends, extremes and sums stay what they were
        x = chain.samples[col].to_numpy(copy=True)
        x[1:-1] = x[1:-1][::-1].copy()
        chain.samples[col] = x
    elif e["edit"] == "one":
        # A single value far away, half way down
        x = chain.samples[col].to_numpy(copy=True).astype(float)
        x[(len(x) // 2 + e["row"]) % len(x)] += e["value"] * 10
        chain.samples[col] = x
    elif e["edit"] == "exchange":
        # Two parameters exchange their samples
        other = cols[(cols.index(col) + 1) % len(cols)]
        x, y = chain.samples[col].to_numpy(copy=True), chain.samples[other].to_numpy(copy=True)
        chain.samples[col], chain.samples[other] = y, x
    elif e["edit"] == "weights":
        chain.samples[chain.weight_column] = np.linspace(0.5, 0.5 + abs(e["value"]), len(chain.samples))
    elif e["edit"] == "posterior":
        if chain.posterior_column in chain.samples:
            chain.samples[chain.posterior_column] = chain.samples[chain.posterior_column].to_numpy()[::-1].copy()
    elif e["edit"] == "best":
        # The best row becomes another one: the same values, two of them exchanged
        if chain.posterior_column in chain.samples:
            p = chain.samples[chain.posterior_column].to_numpy(copy=True)
            i, j = int(np.argmax(p)), (int(np.argmax(p)) + 1 + e["row"] % max(1, len(p) - 1)) % len(p)
            p[i], p[j] = p[j], p[i]
            if e["row"] % 2:
                chain.samples[chain.posterior_column] = p
            else:
                chain.samples.iloc[:, chain.samples.columns.get_loc(chain.posterior_column)] = p
    elif e["edit"] == "neginf":
        # A sampler's "impossible": a posterior of minus infinity, or a value which is not there any more
        if chain.posterior_column in chain.samples:
            col = chain.posterior_column
        if chain.samples[col].dtype.kind == "f":
            chain.samples.iloc[e["row"] % len(chain.samples), chain.samples.columns.get_loc(col)] = -np.inf
    elif e["edit"] == "replace":
        df = chain.samples.copy()
        df[col] = df[col].to_numpy()[::-1] * 1.5
        chain.samples = df
    else:
        raise KeyError(e["edit"])


def make_truth(spec: dict):
    from chainconsumer import Truth

    kw = dict(spec)
    loc = dict(kw.pop("location"))
    if kw.pop("as_series", False):
        loc = pd.Series(loc)
    return Truth(location=loc, **kw)


def make_config(cfg: dict):
    from chainconsumer import PlotConfig

    return PlotConfig(**decode_config(cfg))


def make_override(spec: dict):
    from chainconsumer import ChainConfig

    return ChainConfig(**decode_opts(spec))


class View:
    """A live consumer together with the chains the user holds."""

    def __init__(self, state: dict):
        from chainconsumer import ChainConsumer

        self.cc = ChainConsumer()
        self.truths = [make_truth(t) for t in state.get("truths", [])]
        self.config = make_config(state["config"]) if state.get("config") is not None else None
        self.override = make_override(state["override"]) if state.get("override") is not None else None
        self.chains = []
        for spec in state["chains"]:
            chain = make_chain(spec)
            self.chains.append(chain)
            self.cc.add_chain(chain)
        for t in self.truths:
            self.cc.add_truth(t)
        if self.config is not None:
            self.cc.set_plot_config(self.config)
        if self.override is not None:
            self.cc.set_override(self.override)


def columns_of(chain) -> list[str]:
    return list(chain.data_columns)


def select(cc, sel, as_obj=False):
    """Selection by position among the registered names (modulo), without repeats."""
    if sel is None:
        return None
    names = cc.get_names()
    out: list[str] = []
    for i in sel:
        if names and names[i % len(names)] not in out:
            out.append(names[i % len(names)])
    if as_obj:
        return [cc.get_chain(n) for n in out]
    return out


def pick_columns(cc, idx):
    if idx is None:
        return None
    allc: list[str] = []
    for n in cc.get_names():
        for c in cc.get_chain(n).data_columns:
            if c not in allc:
                allc.append(c)
    out: list[str] = []
    for i in idx:
        if allc and allc[i % len(allc)] not in out:
            out.append(allc[i % len(allc)])
    return out


def run_read(cc, op: dict, keep: list | None = None, axes=None):
    return prepare_read(cc, op, keep, axes)()


def prepare_read(cc, op: dict, keep: list | None = None, axes=None):
    """The one call a read operation makes, as a callable; arguments passed in are put in `keep`."""
    kind = op["r"]
    keep = keep if keep is not None else []
    sel = select(cc, op.get("sel"), op.get("as_obj", False))
    cols = pick_columns(cc, op.get("cols"))
    keep += [x for x in (sel, cols) if x is not None]
    names = cc.get_names()
    an, cmp_, diag, pl = cc.analysis, cc.comparison, cc.diagnostic, cc.plotter
    name = names[op.get("n", 0) % len(names)] if names else "none"
    chain = cc.get_chain(name) if names else None
    dcols = chain.data_columns if chain is not None else []
    col = dcols[op.get("col", 0) % len(dcols)] if dcols else "none"
    if kind == "names":
        return cc.get_names
    if kind == "summary":
        return lambda: an.get_summary(chains=sel, columns=cols)
    if kind == "latex":
        return lambda: an.get_latex_table(
            chains=sel, columns=cols, transpose=op.get("transpose", False), hlines=op.get("hlines", True),
            caption=op.get("caption"), label=op.get("label", "tab:x"), filename=op.get("filename"),
        )
    if kind == "maxpost":
        picked = sel if not op.get("as_obj") else select(cc, op["sel"]) if op.get("sel") is not None else None
        return lambda: an.get_max_posteriors(picked)
    if kind == "corr":
        return lambda: an.get_correlation_table(name)
    if kind == "cov":
        return lambda: an.get_covariance_table(name)
    if kind == "covmat":
        return chain.get_covariance
    if kind == "corrmat":
        return chain.get_correlation
    if kind == "aic":
        return cmp_.aic
    if kind == "bic":
        return cmp_.bic
    if kind == "dic":
        return cmp_.dic
    if kind == "comp":
        return lambda: cmp_.comparison_table(sort=op.get("sort", "bic"), descending=op.get("desc", True))
    if kind == "gr":
        return lambda: diag.gelman_rubin(sel)
    if kind == "geweke":
        return lambda: diag.geweke(sel)
    if kind == "divide":
        return chain.divide
    if kind == "maxpoint":
        return chain.get_max_posterior_point
    if kind == "bounds":
        return lambda: an.get_parameter_summary(chain, col)
    if kind == "hdi":

        def hdi():
            intervals = an.get_parameter_hdi_intervals(chain, col)
            return intervals, an.get_parameter_multimodal_bounds(chain, col, intervals)

        return hdi
    if kind == "text":
        return lambda: an.get_parameter_text(an.get_parameter_summary(chain, col), wrap=op.get("wrap", True))
    if kind == "plot":
        size = op.get("figsize")
        kw = {"figsize": tuple(size) if isinstance(size, list) else size} if size is not None else {}
        return lambda: pl.plot(chains=sel, columns=cols, filename=op.get("filename"), **kw)
    if kind == "walks":
        return lambda: pl.plot_walks(
            chains=sel, columns=cols, filename=op.get("filename"), convolve=op.get("convolve"),
            plot_weights=op.get("weights", True), plot_posterior=op.get("posterior", True),
            log_weight=op.get("log_weight", False),
        )
    if kind == "dists":
        return lambda: pl.plot_distributions(
            chains=sel, columns=cols, filename=op.get("filename"), col_wrap=op.get("col_wrap", 4)
        )
    if kind == "sumplot":
        return lambda: pl.plot_summary(
            chains=sel, columns=cols, filename=op.get("filename"), errorbar=op.get("errorbar", False)
        )
    if kind in ("contour", "surface", "dist", "cloud", "point", "truths"):
        from chainconsumer import plotting

        ax = axes
        own = None
        if ax is None:
            own, ax = plt.subplots()
        everything = [cc.get_chain(n) for n in names]
        px = dcols[op.get("px", 0) % len(dcols)] if dcols else "none"
        py = dcols[op.get("py", 1) % len(dcols)] if dcols else "none"

        def standalone():
            if kind == "contour":
                plotting.plot_contour(ax, chain, px, py)
            elif kind == "surface":
                plotting.plot_surface(ax, everything, px, py)
            elif kind == "dist":
                cfg = cc.plotter.config if op.get("config") else None
                plotting.plot_dist(ax, chain, px, config=cfg, summary=op.get("summary", False))
            elif kind == "cloud":
                plotting.plot_cloud(ax, chain, px, py)
            elif kind == "point":
                plotting.plot_point(ax, chain, px, py)
            elif kind == "truths":
                plotting.plot_truths(ax, op["truths"] if "truths" in op else cc._truths, px=px, py=py)
            return own

        return standalone
    raise KeyError(kind)


def too_heavy(view, op: dict) -> bool:
    """Reads that are legal but would burn minutes in the density estimator: left out of the simulated load."""
    ov = view.override
    set_ = ov.get_user_specified_dump() if ov is not None else {}
    for chain in view.chains:
        if not set_.get("kde", chain.kde):
            continue
        bins = set_.get("bins", chain.bins) or 35
        smooth = set_.get("smooth", chain.smooth)
        smooth = 3 if smooth is None else smooth
        centres = 2 * (bins * 2 * smooth if smooth else bins)
        if op["r"] in ("plot", "contour", "surface") and centres > 40:
            return True
    return False


def outcome(fn):
    """("ok", digest) or ("err", exception class)."""
    try:
        value = fn()
    except Exception as exc:  # noqa: BLE001
        return ("err", type(exc).__name__)
    return ("ok", digest(value))


def close_figures() -> None:
    plt.close("all")


# ---------------------------------------------------------------------------------------------- generators

COLOURS = ["red", "b", "k", "#123456", "emerald", "lg", "#abcdef", "purple", "#f0a", "#1f77b480", "e", [0.2, 0.4, 0.6]]


def random_opts(rng: random.Random, table: dict, *, heavy=True, cheap=False, exclude=()) -> dict:
    """Options a user may put on a chain."""
    cols = [c["name"] for c in table["cols"]]
    o: dict = {}

    def maybe(p, key, fn):
        if key not in exclude and rng.random() < p:
            o[key] = fn()

    maybe(0.35, "statistics", lambda: rng.choice(["max", "mean", "cumulative", "max_central"]))
    maybe(0.35, "summary_area", lambda: rng.choice([0.5, 0.68, 0.9, 0.95]))
    maybe(0.25, "sigmas", lambda: rng.choice([[0, 1], [0, 1, 2], [0, 0.5, 1.5], [0, 1, 2, 3], [1, 2], [0, 1.15, 2.25]]))
    maybe(0.3, "color", lambda: rng.choice(COLOURS))
    maybe(0.2, "linestyle", lambda: rng.choice(["-", "--", ":", "-."]))
    maybe(0.2, "linewidth", lambda: rng.choice([0.5, 1.0, 2.5]))
    maybe(0.2, "shade", lambda: rng.random() < 0.5)
    maybe(0.2, "shade_alpha", lambda: rng.choice([0.1, 0.5, 0.9]))
    maybe(0.15, "shade_gradient", lambda: rng.choice([0.3, 1.0, 2.0]))
    maybe(0.2, "bar_shade", lambda: rng.random() < 0.5)
    maybe(0.3, "bins", lambda: rng.choice([6, 8, 12, 20]))
    maybe(0.3, "smooth", lambda: rng.choice([0, 1, 2]))
    maybe(0.15, "show_contour_labels", lambda: True)
    maybe(0.15, "zorder", lambda: rng.randint(1, 30))
    maybe(0.15, "plot_point", lambda: True)
    maybe(0.15, "marker_style", lambda: rng.choice(["x", "o", "*", "."]))
    maybe(0.15, "marker_size", lambda: rng.choice([5.0, 40.0]))
    maybe(0.1, "marker_alpha", lambda: 0.5)
    maybe(0.15, "show_label_in_legend", lambda: rng.random() < 0.5)
    maybe(0.15, "histogram_relative_height", lambda: rng.choice([0.5, 2.0]))
    maybe(0.15, "power", lambda: rng.choice([0.5, 2.0]))
    maybe(0.15, "shift_params", lambda: True)
    maybe(0.4, "num_free_params", lambda: rng.randint(1, 5))
    maybe(0.4, "num_eff_data_points", lambda: rng.choice([20, 35.5, 100]))
    if "plot_cloud" not in exclude and rng.random() < 0.2:
        o["plot_cloud"] = True
        o["num_cloud"] = rng.choice([20, 50, 1000])
        if rng.random() < 0.5 and len(cols) > 1:
            extra = [c for c in ("weights", "posterior") if table.get(c)]
            pool = cols[-1:] + [table[c]["name"] for c in extra]
            o["color_param"] = rng.choice(pool)
            o["cmap"] = rng.choice(["viridis", "plasma"])
        if rng.random() < 0.3:
            o["plot_contour"] = False
    n = table["n"]
    if "walkers" not in exclude and rng.random() < 0.4:
        o["walkers"] = rng.choice([w for w in (1, 2, 3, 4, 6) if n % w == 0])
    if heavy and not cheap and "kde" not in exclude and rng.random() < 0.12:
        o["kde"] = rng.choice([True, 0.7])
        o["bins"] = 6
        o["smooth"] = rng.choice([0, 1])
        o.pop("shift_params", None)
    if heavy and "multimodal" not in exclude and rng.random() < 0.1:
        o["multimodal"] = True
        o.pop("statistics", None)
        if o.get("smooth") == 0:
            o["smooth"] = 1
    elif heavy and "statistics" not in exclude and rng.random() < 0.08:
        o["statistics"] = "hdi"
    w = table.get("weights")
    if w and w["name"] != "weight":
        o["weight_column"] = w["name"]
    p = table.get("posterior")
    if p and p["name"] != "log_posterior":
        o["posterior_column"] = p["name"]
    return o


def random_chain(rng: random.Random, name: str, **kw) -> dict:
    opt_kw = {k: kw.pop(k) for k in ("heavy", "cheap", "exclude") if k in kw}
    table = random_table(rng, **kw)
    return {"name": name, "table": table, "opts": random_opts(rng, table, **opt_kw), "edits": []}


def random_marker(rng: random.Random, name: str) -> dict:
    cols = rng.sample(COLS, rng.choice([1, 2, 3]))
    opts: dict = {}
    if rng.random() < 0.4:
        opts["color"] = rng.choice(COLOURS)
    if rng.random() < 0.4:
        opts["marker_style"] = rng.choice(["x", "o", "*"])
    if rng.random() < 0.3:
        opts["marker_size"] = rng.choice([10.0, 60.0])
    return {
        "name": name,
        "marker": {c: round(rng.uniform(-3, 3), 3) for c in cols},
        "opts": opts,
        "edits": [],
    }


def random_truth(rng: random.Random) -> dict:
    cols = rng.sample(COLS, rng.choice([1, 2, 3]))
    t: dict = {"location": {c: round(rng.uniform(-2, 2), 3) for c in cols}}
    if rng.random() < 0.3:
        t["color"] = rng.choice(["red", "#00ff00", "black"])
    if rng.random() < 0.3:
        t["line_style"] = rng.choice([":", "-."])
    if rng.random() < 0.25:
        t["marker"] = rng.choice(["x", "o", "s"])
    if rng.random() < 0.2:
        t["as_series"] = True
    return t


def random_config(rng: random.Random) -> dict:
    c: dict = {}
    if rng.random() < 0.5:
        c["labels"] = {k: rf"$\{g}$" for k, g in zip(rng.sample(COLS, 2), ("alpha", "beta"))}
    if rng.random() < 0.2:
        c["flip"] = True
    if rng.random() < 0.15:
        c["plot_hists"] = False
    if rng.random() < 0.2:
        c["max_ticks"] = rng.choice([2, 3, 7])
    if rng.random() < 0.25:
        c["summarise"] = False
    if rng.random() < 0.2:
        c["show_legend"] = rng.random() < 0.5
    if rng.random() < 0.15:
        c["blind"] = rng.choice([True, ["a"], ["b", "c"]])
    if rng.random() < 0.15:
        c["extents"] = {"a": [-5.0, 5.0]}
    if rng.random() < 0.15:
        c["watermark"] = "Draft"
    if rng.random() < 0.15:
        c["sigma2d"] = True
    if rng.random() < 0.15:
        c["serif"] = True
    if rng.random() < 0.15:
        c["spacing"] = 0.5
    if rng.random() < 0.2:
        c["diagonal_tick_labels"] = False
    if rng.random() < 0.15:
        c["legend_color_text"] = False
    if rng.random() < 0.2:
        c["legend_location"] = rng.choice([[0, -1], [0, 0], [-1, 0], [-1, -1]])
    if rng.random() < 0.15:
        c["legend_kwargs"] = rng.choice([{"fontsize": 7}, {"loc": "upper left", "markerfirst": False}])
    if rng.random() < 0.1:
        c[rng.choice(["label_font_size", "tick_font_size", "summary_font_size", "contour_label_font_size"])] = rng.choice([6, 9])
    if rng.random() < 0.1:
        c["legend_artists"] = rng.random() < 0.5
    if c.get("watermark") and rng.random() < 0.4:
        c["watermark_text_kwargs"] = {"alpha": 0.3}
    c["dpi"] = rng.choice([40, 60])
    return c


CHEAP_READS = ["names", "summary", "latex", "maxpost", "corr", "cov", "covmat", "corrmat", "aic", "bic", "dic",
               "comp", "gr", "geweke", "divide", "bounds", "text", "maxpoint"]


def random_read(rng: random.Random, p_plot: float = 0.3, kinds=None) -> dict:
    if kinds is None:
        if rng.random() < p_plot:
            kind = rng.choice(["plot", "walks", "dists", "sumplot", "plot", "contour", "dist", "cloud", "point"])
        else:
            kind = rng.choice([*CHEAP_READS, "summary", "latex", "comp", "hdi"])
    else:
        kind = rng.choice(kinds)
    op: dict = {"r": kind, "n": rng.randrange(8)}
    if kind in (*PLOTS, "summary", "latex", "gr", "geweke", "maxpost"):
        if rng.random() < 0.35:
            op["sel"] = [rng.randrange(8) for _ in range(rng.choice([1, 2, 3]))]
            op["as_obj"] = rng.random() < 0.3
        if kind not in ("gr", "geweke", "maxpost") and rng.random() < 0.3:
            op["cols"] = [rng.randrange(4) for _ in range(rng.choice([1, 2]))]
    if kind == "latex":
        op["transpose"] = rng.random() < 0.4
        op["hlines"] = rng.random() < 0.7
    if kind in ("bounds", "text", "hdi"):
        op["col"] = rng.randrange(4)
    if kind == "comp":
        op["sort"] = rng.choice(["aic", "bic", "dic"])
        op["desc"] = rng.random() < 0.5
    if kind == "sumplot":
        op["errorbar"] = rng.random() < 0.5
    if kind == "walks":
        if rng.random() < 0.4:
            op["convolve"] = rng.choice([1, 4, 5, 11])
        op["weights"] = rng.random() < 0.6
        op["posterior"] = rng.random() < 0.6
        op["log_weight"] = rng.random() < 0.3
    if kind == "dists":
        op["col_wrap"] = rng.choice([1, 2, 4])
    if kind in ("contour", "cloud", "point", "dist", "surface"):
        op["px"], op["py"] = rng.randrange(3), rng.randrange(3)
    return op


def random_state(rng: random.Random, *, n_chains=None, p_marker=0.15, p_config=0.5, p_override=0.25, p_truth=0.3,
                 names=None, **chain_kw) -> dict:
    k = n_chains or rng.choice([1, 2, 2, 3, 4])
    names = names or ["alpha", "beta", "model A", "A", "gamma", "m5", "z"]
    names = rng.sample(names, min(k, len(names)))
    chains = []
    for i, nm in enumerate(names):
        if i and rng.random() < p_marker:
            chains.append(random_marker(rng, nm))
        else:
            chains.append(random_chain(rng, nm, **chain_kw))
    return {
        "chains": chains,
        "truths": [random_truth(rng) for _ in range(rng.choice([1, 2]))] if rng.random() < p_truth else [],
        "config": random_config(rng) if rng.random() < p_config else None,
        "override": random_override(rng) if rng.random() < p_override else None,
    }


def random_override(rng: random.Random) -> dict:
    pool = {
        "statistics": lambda: rng.choice(["max", "mean", "cumulative", "max_central"]),
        "summary_area": lambda: rng.choice([0.4, 0.8, 0.95]),
        "sigmas": lambda: rng.choice([[0, 1], [0, 1, 1.5], [0, 2], [0, 0.75]]),
        "color": lambda: rng.choice(COLOURS),
        "linestyle": lambda: rng.choice(["--", ":", "-"]),
        "linewidth": lambda: rng.choice([0.1, 0.7, 1.0, 3.0]),
        "shade": lambda: rng.random() < 0.5,
        "shade_alpha": lambda: rng.choice([0.0, 0.2, 0.5, 0.8]),
        "shade_gradient": lambda: rng.choice([0.0, 0.4, 1.0]),
        "bar_shade": lambda: rng.random() < 0.5,
        "bins": lambda: rng.choice([7, 9, 15]),
        "smooth": lambda: rng.choice([0, 1, 2]),
        "zorder": lambda: rng.choice([0, rng.randint(1, 30)]),
        "show_contour_labels": lambda: rng.random() < 0.5,
        "plot_point": lambda: rng.random() < 0.7,
        "plot_cloud": lambda: rng.random() < 0.7,
        "num_cloud": lambda: rng.choice([15, 40]),
        "marker_style": lambda: rng.choice(["x", "o"]),
        "marker_size": lambda: rng.choice([15.0, 33.0]),
        "marker_alpha": lambda: rng.choice([0.0, 0.3, 1.0]),
        "cmap": lambda: rng.choice(["plasma", "viridis"]),
        "shift_params": lambda: True,
    }
    keys = rng.sample(sorted(pool), rng.choice([1, 2, 3, 4, 6]))
    return {k: pool[k]() for k in keys}
