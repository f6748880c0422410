"""C12: every surface reports the same numbers: tables, files, titles, error bars and shaded bands follow the summary."""

from __future__ import annotations

import copy
import math
import os
import re

import matplotlib.pyplot as plt
import numpy as np

from chainconsumer.analysis import Bound

from dst import world
from dst.disk import SimDisk, random_plan
from dst.kernel import Tracer, random_fault
from dst.sessions import disturbed_read, reset_rc
from dst.world import View, apply_edit, make_config, make_override

SHRINK = ["steps", "state/chains", "state/truths"]

TEXTS = ["", "Plain", "68\\% levels, 50% done", "%s and %d and %%", "{braces} and {0}", "a_b^2 $x$ \\alpha", "100%",
         "tab:x%y", "line\nbreak", "\\textbf{bold} % comment", "é ü π"]

EDIT_OPTS = {
    "summary_area": [0.3, 0.6827, 0.9],
    "statistics": ["max", "mean", "cumulative", "max_central"],
    "smooth": [0, 1, 2],
    "bins": [6, 9, 15],
    "power": [0.5, 1.0],
}


def random_interval(rng):
    """A center with two errors, over all scales and with all sorts of ratios between them."""
    scale = 10.0 ** rng.choice([rng.uniform(-12, 12), rng.uniform(-3, 3)])
    up = scale * rng.choice([1.0, 1.0, rng.uniform(0.1, 10), 10.0 ** rng.randint(-2, 2), 0.0])
    low = up if rng.random() < 0.3 and up else scale * rng.choice([1.0, rng.uniform(0.9, 1.1), rng.uniform(0.1, 10)])
    center = rng.choice([0.0, scale * rng.uniform(-30, 30), scale * rng.uniform(-0.1, 0.1), scale * 1e4])
    return [center, up, low]


def generate(rng, tier):
    chains = []
    k = rng.choice([1, 1, 2, 3])
    for i, nm in enumerate(rng.sample(["alpha", "model A", "A", "z 1"], k)):
        # no single-point markers: a parameter that never varies has no interval to report
        spec = world.random_chain(rng, nm, n=rng.choice([60, 120, 400]), cols=rng.sample(world.COLS, rng.choice([1, 2, 2, 3])),
                                  cheap=True, exclude=("kde", "multimodal"))
        o = spec["opts"]
        if rng.random() < 0.25:
            o["multimodal"] = True
            o.pop("statistics", None)
            o["smooth"] = rng.choice([1, 2])
            for c in spec["table"]["cols"]:
                if rng.random() < 0.6:
                    c["kind"] = "bimodal"
        elif rng.random() < 0.1:
            o.update(kde=rng.choice([True, 0.8]), bins=6, smooth=1)
        chains.append(spec)
    config = world.random_config(rng) if rng.random() < 0.7 else None
    if config:
        config.pop("extents", None)
        if rng.random() < 0.7:
            config["summarise"] = True
        if rng.random() < 0.2:
            config["labels"] = {c: "same" for c in rng.sample(world.COLS, rng.choice([2, 3]))}
    state = {"chains": chains, "truths": [], "config": config,
             "override": world.random_override(rng) if rng.random() < 0.25 else None}
    steps = []
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        if r < 0.22:
            kind = rng.choice(["opt", "opt", "inplace", "scale", "weights", "replace"])
            if kind == "opt":
                name = rng.choice(sorted(EDIT_OPTS))
                e = {"edit": "opt", "name": name, "value": rng.choice(EDIT_OPTS[name])}
            else:
                e = {"edit": kind, "col": rng.randrange(3), "row": rng.randrange(400), "value": rng.choice([2.5, 0.3]),
                     "rel": True}
                if kind == "scale":
                    e["value"] = rng.choice([2.5, 0.3, 1e3, 3e6, 1e9, 1e-4, 4e-9])
            steps.append({"s": "edit", "k": rng.randrange(3), "edit": e})
        elif r < 0.28:
            steps.append({"s": "config", "spec": world.random_config(rng)})
            steps[-1]["spec"].pop("extents", None)
        elif r < 0.34:
            steps.append({"s": "override", "spec": world.random_override(rng) if rng.random() < 0.6 else {}})
        elif r < 0.44:
            steps.append({"s": "read", "op": world.random_read(rng, 0.4), "fault": random_fault(rng, 100)})
        else:
            a = {"s": "audit", "what": rng.choice(["latex", "latex", "latex", "plot", "dists", "sumplot", "errorbar", "dist",
                                                   "matrix", "comp", "text", "text"])}
            if a["what"] == "text":
                a["bounds"] = [random_interval(rng) for _ in range(rng.choice([2, 6]))]
            if a["what"] == "latex":
                a |= {"transpose": rng.random() < 0.5, "hlines": rng.random() < 0.6, "caption": rng.choice(TEXTS),
                      "label": rng.choice(TEXTS), "blank": rng.choice(["--", "", "n/a"])}
            if a["what"] in ("matrix", "comp"):
                a |= {"caption": rng.choice(TEXTS), "label": rng.choice(TEXTS), "n": rng.randrange(3),
                      "cov": rng.random() < 0.5, "flags": rng.choice([[1, 1, 1], [1, 1, 0], [0, 1, 1], [0, 1, 0]])}
            if a["what"] == "dist":
                a |= {"n": rng.randrange(3), "px": rng.randrange(3), "config": rng.random() < 0.5}
            if rng.random() < 0.3:
                a["sel"] = [rng.randrange(3) for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.3:
                a["cols"] = [rng.randrange(4) for _ in range(rng.choice([1, 2]))]
            if a["what"] == "matrix" and rng.random() < 0.6:
                a["cols"] = rng.sample(range(4), rng.choice([2, 3, 4]))
            if a["what"] == "latex" and rng.random() < 0.5:
                a["filename"] = "t.tex"
                if rng.random() < 0.5:
                    a["plan"] = random_plan(rng, 1)
            steps.append(a)
    # Shifting by the mean is repeated for every figure, which is exact only up to rounding: keep shifted samples away
    # from values and statistics for which one last bit decides between two equally good intervals
    everywhere = any((x or {}).get("shift_params") for x in [state["override"], *[s["spec"] for s in steps if s["s"] == "override"]])
    for spec in chains:
        o = spec["opts"]
        if everywhere or o.get("shift_params"):
            if o.get("statistics") == "hdi" or o.pop("multimodal", None):
                o["statistics"] = "max"
            for c in spec["table"]["cols"]:
                if c["kind"] == "int":
                    c["kind"] = "normal"
    return {"state": state, "steps": steps}


def cells(table: str):
    """Column spec, rows of cells, and number of rules of a LaTeX table."""
    head, rest = table.split("\\begin{tabular}{", 1)
    spec, rest = rest.split("}", 1)
    body, tail = rest.rsplit("\\end{tabular}", 1)
    rules = body.count("\\hline")
    body = body.replace("\\hline", "")
    rows = []
    for ln in body.split("\\\\"):
        if ln.strip():
            rows.append([c.strip() for c in ln.split(" & ")] if " & " in ln else [ln.strip()])
    return spec, rows, rules, head + tail


def bands(ax):
    """The x (or y, when flipped) ranges of the filled regions of an axis."""
    out = []
    for c in ax.collections:
        if type(c).__name__ in ("PolyCollection", "FillBetweenPolyCollection"):
            for p in c.get_paths():
                v = np.asarray(p.vertices)
                out.append(((v[:, 0].min(), v[:, 0].max()), (v[:, 1].min(), v[:, 1].max())))
    return out


def curves(ax):
    """The ranges spanned by the drawn distributions."""
    out = []
    for ln in ax.lines:
        x = np.asarray(ln.get_xdata(), dtype=float)
        y = np.asarray(ln.get_ydata(), dtype=float)
        if len(x) > 2:
            out.append(((x.min(), x.max()), (y.min(), y.max())))
    for p in ax.patches:
        v = np.asarray(p.get_path().vertices)
        if len(v) > 2:
            out.append(((v[:, 0].min(), v[:, 0].max()), (v[:, 1].min(), v[:, 1].max())))
            # a stepped histogram is known at the centres of its bins, so that is where a band can start and end
            gaps = [np.diff(np.unique(v[:, k])) for k in (0, 1)]
            gaps = [g[g > 1e-7 * np.ptp(v[:, k])] for k, g in enumerate(gaps)]
            half = [g.min() / 2 if len(g) else 0 for g in gaps]
            out.append(tuple((v[:, k].min() + half[k], v[:, k].max() - half[k]) for k in (0, 1)))
    return out


def moments(chain, columns, cov: bool):
    """The weighted covariance, or correlation, of the samples; None where rounding would decide it."""
    frame = chain.samples
    w = frame[chain.weight_column].to_numpy(dtype=float) if chain.weight_column in frame else np.ones(len(frame))
    w = w / w.sum()
    x = np.array([frame[c].to_numpy(dtype=float) for c in columns])
    d = x - (x @ w)[:, None]
    spread = np.sqrt((d * d) @ w)
    if not (spread > 1e-6 * np.abs(x).max(axis=1)).all():
        return None
    m = (d * w) @ d.T
    if cov:
        return m / (1 - (w * w).sum())
    return m / np.outer(spread, spread)


NUMBER = r"-?\d+(?:\.\d+)?"


def stated(text: str):
    """The (center, upper error, lower error) a text states, or None when it does not read as a number with errors."""
    text = text.strip().strip("$").strip()
    m = re.fullmatch(r"\\left\( (.*) \\right\) \\times 10\^\{(-?\d+)\}", text)
    power = int(m.group(2)) if m else 0
    body = m.group(1) if m else text
    pm = re.fullmatch(rf"({NUMBER})\\pm ({NUMBER})", body)
    if pm:
        values = [pm.group(1), pm.group(2), pm.group(2)]
    else:
        m = re.fullmatch(rf"({NUMBER})\^\{{\+({NUMBER})\}}_\{{-({NUMBER})\}}", body)
        if not m:
            return None
        values = [m.group(1), m.group(2), m.group(3)]
    return [float(f"{v}e{power}") for v in values]


def text_problem(bound, text: str) -> str | None:
    """What is wrong with a text as a statement of an interval: it is to show two figures of the smaller error."""
    up, low = bound.upper - bound.center, bound.center - bound.lower
    if up < 0 or low < 0:
        return None  # the mode is outside its interval: no error notation can state that
    errors = [e for e in (up, low) if e > 0]
    if not errors:
        return None
    got = stated(text)
    if got is None:
        return "not a number with its errors"
    place = 10.0 ** (math.floor(math.log10(min(errors)) + 1e-9) - 1)
    for name, g, w in zip(("center", "upper error", "lower error"), got, (bound.center, up, low)):
        # rounded twice at most (to the digit kept, then to the digit shown); an error on the edge of a decade may go either way
        if abs(g - w) > 0.5501 * place + 4e-15 * max(abs(bound.center), abs(w)):
            return f"{name} {w!r} stated as {g!r}, more than half of {place!r} away"
    return None


class Auditor:
    def __init__(self, view, state, ctx):
        self.view, self.state, self.ctx = view, state, ctx
        self.cc = view.cc

    def blind(self, columns):
        b = (self.state["config"] or {}).get("blind", False)
        return list(columns) if b is True else list(b or [])

    def label(self, c):
        return (self.state["config"] or {}).get("labels", {}).get(c, c)

    def override(self):
        return self.state["override"] or {}

    def opt(self, spec, name, default):
        v = self.override().get(name, spec["opts"].get(name, default))
        for e in spec["edits"]:
            if e["edit"] == "opt" and e["name"] == name and name not in self.override():
                v = e["value"]
        return v

    def plotted_columns(self, spec):
        if "marker" in spec:
            return list(spec["marker"])
        chain = self.view.chains[[s["name"] for s in self.state["chains"]].index(spec["name"])]
        cols = list(chain.data_columns)
        if self.opt(spec, "plot_cloud", False):
            cols = [c for c in cols if c != spec["opts"].get("color_param")]
        return cols

    def contour(self, spec):
        return "marker" not in spec and spec["opts"].get("plot_contour", True)

    def visible(self, spec):
        return self.contour(spec) or "marker" in spec or self.opt(spec, "plot_cloud", False) or self.opt(spec, "plot_point", False)

    def selection(self, step):
        names = world.select(self.cc, step.get("sel"))
        specs = {s["name"]: s for s in self.state["chains"]}
        out = [specs[n] for n in (names if names is not None else specs)]
        return names, [s for s in out if self.visible(s)]

    def run(self, step, where):
        getattr(self, "audit_" + step["what"])(step, where)

    def expected_text(self, bound):
        return self.cc.analysis.get_parameter_text(bound, wrap=True) if bound is not None else ""

    def audit_text(self, step, where):
        """Every summary states its interval, at whatever scale it is."""
        cc, ctx = self.cc, self.ctx
        bounds = []
        for name, params in cc.analysis.get_summary().items():
            for p, b in params.items():
                bounds += [(f"{name} {p}", x) for x in (b if isinstance(b, list) else [b])]
        # ... and intervals like the ones which other data would have
        for c, u, w in step["bounds"]:
            bounds.append(("given", Bound(lower=c - w, center=c, upper=c + u)))
        for what, b in bounds:
            if b is None or b.lower is None or b.upper is None or b.center is None:
                continue
            for wrap in (False, True):
                text = cc.analysis.get_parameter_text(b, wrap=wrap)
                bad = text_problem(b, text)
                if not ctx.check(bad is None, "text-states-other-numbers", f"{where}: {what} {b} as {text!r}: {bad}"):
                    return
            ctx.stat("texts_read_back")

    # ---------------------------------------------------------------- tables
    def audit_latex(self, step, where):
        cc, ctx = self.cc, self.ctx
        names, shown = self.selection(step)
        cols = world.pick_columns(cc, step.get("cols"))
        if not shown:
            return
        summary = cc.analysis.get_summary()
        order: list[str] = []
        if cols is None:
            for s in shown:
                order += [c for c in self.plotted_columns(s) if c not in order]
        else:
            order = list(cols)
        hidden = self.blind(order)
        wanted = [c for c in order if c not in hidden]
        kw = {"chains": names, "columns": cols, "transpose": step["transpose"], "hlines": step["hlines"],
              "caption": step["caption"], "label": step["label"], "blank_fill": step["blank"]}
        path = None
        if "filename" in step:
            path = os.path.join(ctx.scratch, step["filename"])
            disk = SimDisk(ctx.scratch, step.get("plan"))
            with disk:
                try:
                    table = cc.analysis.get_latex_table(filename=path, **kw)
                except OSError:
                    if not disk.fired:
                        raise
                    for f in disk.fired:
                        ctx.stat("fault:disk-" + f)
                    table = None
            if table is None:
                table = cc.analysis.get_latex_table(filename=path, **kw)
            with open(path, encoding="utf-8") as f:
                ctx.check(f.read() == table, "file-differs", where)
        else:
            table = cc.analysis.get_latex_table(**kw)
        ctx.check("\\caption{" + step["caption"] + "}" in table, "caption-not-verbatim", f"{where}: {table[:300]!r}")
        ctx.check("\\label{" + step["label"] + "}" in table, "label-not-verbatim", f"{where}: {table[:300]!r}")
        # the caption may contain anything, so look at the tabular only
        spec, rows, rules, _ = cells(table[table.rindex("\\begin{tabular}"):])
        ctx.check(rules == (3 if step["hlines"] else 0), "rules", f"{where}: {rules}")

        def cell(name, p):
            if p not in summary.get(name, {}):
                return None
            return self.expected_text(summary[name][p])

        grid = [[cell(s["name"], p) for p in wanted] for s in shown]
        model = [s["name"] for s in shown]
        labels = [self.label(p) for p in wanted]
        if step["transpose"]:
            want = [["Parameter", *model], *[[lab, *[row[j] for row in grid]] for j, lab in enumerate(labels)]]
        else:
            want = [["Model", *labels], *[[m, *row] for m, row in zip(model, grid)]]
        # A parameter which another surface leaves out of the summary (a colour column) is not judged
        flat_w = [[step["blank"] if x is None else x.strip() for x in r] for r in want]
        if not ctx.check(len(rows) == len(flat_w), "table-rows", f"{where}: {rows} vs {flat_w}"):
            return
        ctx.check(spec.count("c") == len(flat_w[0]), "table-columns-declared", f"{where}: {spec} for {flat_w[0]}")
        skip = {c for s in self.state["chains"] for c in [s["opts"].get("color_param")] if c}
        for r, w in zip(rows, flat_w):
            if skip & set(order):
                continue
            r = [*r, *[""] * (len(w) - len(r))] if len(w) > len(r) and not w[-1] else r
            if not ctx.check(r == w, "table-cell", f"{where}: {r} vs {w}"):
                return

    def audit_matrix(self, step, where):
        cc, ctx = self.cc, self.ctx
        names = cc.get_names()
        chain = cc.get_chain(names[step["n"] % len(names)])
        if len(chain.samples) < 2 or not chain.data_columns:
            return
        cols = world.pick_columns(cc, step.get("cols"))
        cols = [c for c in cols if c in chain.data_columns] if cols else None
        cols = cols or None
        m = chain.get_covariance(cols) if step["cov"] else chain.get_correlation(cols)
        fn = cc.analysis.get_covariance_table if step["cov"] else cc.analysis.get_correlation_table
        table = fn(chain.name, columns=cols, caption=step["caption"], label=step["label"])
        want_cols = cols or list(chain.data_columns)
        ctx.check(list(m.columns) == want_cols and np.shape(m.matrix) == (len(want_cols),) * 2, "matrix-shape",
                  f"{where}: {m.columns} {np.shape(m.matrix)}")
        want = moments(chain, want_cols, step["cov"])
        if want is not None and np.shape(m.matrix) == want.shape:
            size = np.sqrt(np.outer(np.diag(want), np.diag(want)))
            ctx.check(bool((np.abs(np.asarray(m.matrix) - want) <= 1e-7 * size).all()), "matrix-value",
                      f"{where}: {np.asarray(m.matrix).tolist()} vs {want.tolist()}")
        ctx.check("\\caption{" + step["caption"] + "}" in table, "caption-not-verbatim", where)
        ctx.check("\\label{" + step["label"] + "}" in table, "label-not-verbatim", where)
        spec, rows, _, _ = cells(table[table.rindex("\\begin{tabular}"):])
        labels = [self.label(c) for c in want_cols]
        ctx.check([x for x in rows[0] if x] == labels, "matrix-header", f"{where}: {rows[0]}")
        for lab, row, got in zip(labels, np.atleast_2d(m.matrix), rows[1:]):
            want = [lab, *[f"{x:.2f}" for x in row]]
            if not ctx.check(got == want, "matrix-cell", f"{where}: {got} vs {want}"):
                return

    def audit_comp(self, step, where):
        cc, ctx = self.cc, self.ctx
        a, b, d = (bool(x) for x in step["flags"])
        try:
            table = cc.comparison.comparison_table(caption=step["caption"], label=step["label"], aic=a, bic=b, dic=d)
        except ZeroDivisionError:
            return
        ctx.check("\\caption{" + step["caption"] + "}" in table, "caption-not-verbatim", where)
        ctx.check("\\label{" + step["label"] + "}" in table, "label-not-verbatim", where)
        spec, rows, _, _ = cells(table[table.rindex("\\begin{tabular}"):])
        ctx.check(spec.count("c") == len(rows[0]) == 1 + a + b + d, "table-columns-declared", f"{where}: {spec} {rows[0]}")
        values = [x for x, use in (("aic", a), ("bic", b), ("dic", d)) if use]
        got = {k: getattr(cc.comparison, k)() for k in values}
        for row in rows[1:]:
            want = [row[0], *[f"{got[k].get(row[0], float('nan')):.1f}" for k in values]]
            ctx.check(row == want, "comparison-cell", f"{where}: {row} vs {want}")

    # --------------------------------------------------------------- figures
    def figure(self, step, call):
        reset_rc()
        try:
            return call()
        except (ValueError, ZeroDivisionError, np.linalg.LinAlgError, AssertionError) as exc:
            self.ctx.stat("plot_refused_" + type(exc).__name__)
            return None

    def check_bands(self, ax, spec_list, p, summary, where, kind):
        """Every filled region is the credible interval of one of the chains; every chain that shades has its own."""
        ctx = self.ctx
        got = bands(ax)
        cvs = curves(ax)
        flip = kind == "flipped"
        lo_hi = [b[1] if flip else b[0] for b in got]
        ranges = [c[1] if flip else c[0] for c in cvs]
        want = []
        for s in spec_list:
            if not self.contour(s) or p not in summary.get(s["name"], {}):
                continue
            bound = summary[s["name"]][p]
            many = bound if isinstance(bound, list) else [bound]
            shades = self.opt(s, "bar_shade", None)
            for b in many:
                if b is None or b.lower is None or b.upper is None:
                    continue
                want.append((b.lower, b.upper, shades is True or (shades is None and len(self.state["chains"]) < 5)))
        for lo, hi in lo_hi:
            tol = 1e-6 * max(abs(lo), abs(hi), 1e-300)
            ok = any(
                (abs(max(a, r[0]) - lo) <= tol or abs(a - lo) <= tol) and (abs(min(b, r[1]) - hi) <= tol or abs(b - hi) <= tol)
                for a, b, _ in want
                for r in ranges
            )
            if not ctx.check(ok, f"band:{kind}", f"{where}: {p} band {(lo, hi)} not in {want} (curves {ranges})"):
                return
        need = sum(1 for *_, sh in want if sh)
        ctx.check(len(lo_hi) >= need, f"band-missing:{kind}", f"{where}: {p}: {len(lo_hi)} bands for {want}")

    def title_of(self, name, p, summary):
        bound = summary.get(name, {}).get(p)
        if bound is None or (not isinstance(bound, list) and (bound.lower is None or bound.upper is None)):
            return ""
        return self.cc.analysis.get_parameter_text(bound, wrap=True, label=self.label(p).strip("$"))

    def audit_plot(self, step, where):
        cc, ctx = self.cc, self.ctx
        names, shown = self.selection(step)
        cols = world.pick_columns(cc, step.get("cols"))
        if not shown or world.too_heavy(self.view, {"r": "plot"}):
            return
        config = self.state["config"] or {}
        order: list[str] = []
        if cols is None:
            for s in shown:
                order += [c for c in self.plotted_columns(s) if c not in order]
        else:
            order = list(cols)
        if not config.get("plot_hists", True) or not order:
            return
        summary = cc.analysis.get_summary()
        fig = self.figure(step, lambda: cc.plotter.plot(chains=names, columns=cols))
        if fig is None:
            return
        n = len(order)
        contour = [s for s in shown if self.contour(s)]
        flip = n == 2 and config.get("flip", False)
        for i, p in enumerate(order):
            ax = fig.axes[i * n + i]
            single = len(contour) == 1 and config.get("summarise", True) and p not in self.blind(order)
            kind = "flipped" if flip and i == n - 1 else "plot"
            has = [s for s in contour if p in cc.get_chain(s["name"]).samples]
            if any(p not in summary.get(s["name"], {}) for s in has):
                continue
            if single and has:
                shade = self.opt(contour[0], "bar_shade", None)
                want = self.title_of(contour[0]["name"], p, summary)
                if shade is not False:
                    ctx.check(ax.get_title() == want, "title:plot", f"{where}: {p}: {ax.get_title()!r} vs {want!r}")
                else:
                    ctx.check(ax.get_title() in ("", want), "title:plot", f"{where}: {p}: {ax.get_title()!r} vs {want!r}")
            elif not single:
                ctx.check(ax.get_title() == "", "title-uninvited:plot", f"{where}: {p}: {ax.get_title()!r}")
            self.check_bands(ax, has, p, summary, where, kind)

    def audit_dists(self, step, where):
        cc, ctx = self.cc, self.ctx
        names, shown = self.selection(step)
        cols = world.pick_columns(cc, step.get("cols"))
        if not shown or world.too_heavy(self.view, {"r": "dists"}):
            return
        config = self.state["config"] or {}
        order: list[str] = []
        if cols is None:
            for s in shown:
                order += [c for c in self.plotted_columns(s) if c not in order]
        else:
            order = list(cols)
        if not all(any(p in self.plotted_columns(s) and self.contour(s) for s in shown) for p in order) or not order:
            return
        summary = cc.analysis.get_summary()
        fig = self.figure(step, lambda: cc.plotter.plot_distributions(chains=names, columns=cols))
        if fig is None:
            return
        for i, p in enumerate(order):
            ax = fig.axes[i]
            has = [s for s in shown if p in self.plotted_columns(s)]
            if any(p not in summary.get(s["name"], {}) for s in has):
                continue
            single = len(shown) == 1 and config.get("summarise", True) and p not in self.blind(order)
            if single and has and self.contour(has[0]):
                want = self.title_of(has[0]["name"], p, summary)
                shade = self.opt(has[0], "bar_shade", None)
                ok = ax.get_title() == want or (shade is False and ax.get_title() == "")
                ctx.check(ok, "title:dists", f"{where}: {p}: {ax.get_title()!r} vs {want!r}")
            elif not single:
                ctx.check(ax.get_title() == "", "title-uninvited:dists", f"{where}: {p}: {ax.get_title()!r}")
            self.check_bands(ax, has, p, summary, where, "dists")

    def audit_sumplot(self, step, where, errorbar=False):
        cc, ctx = self.cc, self.ctx
        names, shown = self.selection(step)
        cols = world.pick_columns(cc, step.get("cols"))
        if not shown or world.too_heavy(self.view, {"r": "sumplot"}):
            return
        order: list[str] = []
        if cols is None:
            for s in shown:
                order += [c for c in self.plotted_columns(s) if c not in order]
        else:
            order = list(cols)
        summary = cc.analysis.get_summary()
        fig = self.figure(step, lambda: cc.plotter.plot_summary(chains=names, columns=cols, errorbar=errorbar))
        if fig is None:
            return
        m = 1 + len(order)
        for i, s in enumerate(shown):
            for j, p in enumerate(order):
                ax = fig.axes[i * m + 1 + j]
                if p not in summary.get(s["name"], {}):
                    continue
                if not errorbar:
                    if self.contour(s):
                        self.check_bands(ax, [s], p, summary, where, "sumplot")
                    continue
                bound = summary[s["name"]][p]
                if isinstance(bound, list):  # an error bar only ever shows one interval
                    bound = cc.analysis.get_parameter_summary(self.effective(s), p)
                centers = [ln for ln in ax.lines if ln.get_marker() == "o"]
                segs = [np.asarray(x) for c in ax.collections for x in getattr(c, "get_segments", list)()]
                if bound is None or bound.lower is None or bound.upper is None:
                    ctx.check(not centers, "errorbar-uninvited", f"{where}: {s['name']} {p}")
                    continue
                if not bound.lower <= bound.center <= bound.upper:
                    continue  # (max_central) the mode is outside its interval: no error bar can show that
                if not ctx.check(len(centers) == 1 and len(segs) == 1, "errorbar-missing", f"{where}: {s['name']} {p}"):
                    return
                got = [segs[0][:, 0].min(), float(centers[0].get_xdata()[0]), segs[0][:, 0].max()]
                ctx.same(np.array([bound.lower, bound.center, bound.upper]), np.array(got), "errorbar-value",
                         f"{where}: {s['name']} {p}", rtol=1e-9)

    def effective(self, spec):
        chain = self.cc.get_chain(spec["name"])
        twin = copy.deepcopy(spec)
        if "marker" in twin:
            return chain
        # written into the chain's own options: what the override is documented to amount to
        c = world.make_chain(twin)
        for k, v in world.decode_opts(self.override()).items():
            setattr(c, k, v)
        if c.shift_params:
            frame = c.samples.copy()
            for p in c.data_columns:
                frame[p] -= np.average(frame[p], weights=c.weights)
            c.samples = frame
        return c

    def audit_errorbar(self, step, where):
        self.audit_sumplot(step, where, errorbar=True)

    def audit_dist(self, step, where):
        from chainconsumer import plotting

        cc, ctx = self.cc, self.ctx
        specs = [s for s in self.state["chains"] if "marker" not in s]
        if not specs:
            return
        s = specs[step["n"] % len(specs)]
        chain = cc.get_chain(s["name"])
        if not chain.data_columns or (chain.kde and chain.bins and chain.bins > 8):
            return
        p = chain.data_columns[step["px"] % len(chain.data_columns)]
        bound = cc.analysis.get_parameter_summary(chain, p)
        _, ax = plt.subplots()
        config = cc.plotter.config if step.get("config") else None
        if config is not None and p in self.blind([p]):
            return
        name = p if config is None else self.label(p).strip("$")
        if self.figure(step, lambda: plotting.plot_dist(ax, chain, p, config=config, summary=True) or ax) is None:
            return
        text = cc.analysis.get_parameter_text(bound) if bound is not None else ""
        want = f"${name} = {text}$" if text else f"${name} = {bound.center}$"
        ctx.check(ax.get_title() == want, "title:plot_dist", f"{where}: {ax.get_title()!r} vs {want!r}")
        got = bands(ax)
        if bound.lower is not None and bound.upper is not None and got:
            cv = curves(ax)
            lo, hi = got[0][0]
            ok = any(abs(max(bound.lower, r[0][0]) - lo) < 1e-6 * max(abs(lo), 1e-300) and
                     abs(min(bound.upper, r[0][1]) - hi) < 1e-6 * max(abs(hi), 1e-300) for r in cv)
            ctx.check(ok, "band:plot_dist", f"{where}: {(lo, hi)} vs {bound} ({cv})")


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    if not state["chains"]:
        return
    view = View(state)
    auditor = Auditor(view, state, ctx)
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        kind = step["s"]
        if kind == "edit":
            k = step["k"] % len(view.chains)
            spec = state["chains"][k]
            if "marker" in spec or (spec["opts"].get("multimodal") and step["edit"].get("name") in ("statistics", "smooth")):
                continue
            apply_edit(view.chains[k], step["edit"])
            spec["edits"].append(step["edit"])
        elif kind == "config":
            state["config"] = copy.deepcopy(step["spec"])
            view.config = make_config(step["spec"])
            view.cc.set_plot_config(view.config)
        elif kind == "override":
            state["override"] = copy.deepcopy(step["spec"])
            view.override = make_override(step["spec"])
            view.cc.set_override(view.override)
        elif kind == "read":
            if world.too_heavy(view, step["op"]):
                continue
            status, _, injected = disturbed_read(view.cc, step["op"], step["fault"], ctx)
            ctx.log(i, status, injected)
        else:
            with Tracer() as tracer:
                pass
            auditor.run(step, where)
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            ctx.stat("probe:" + step["what"])
            ctx.log(i, step["what"], len(ctx.violations))
            ctx.state(step["what"], step.get("transpose"), bool(step.get("sel")), bool(step.get("cols")), len(view.chains),
                      [s["opts"].get("statistics") or s["opts"].get("multimodal") for s in state["chains"]],
                      bool(state["override"]))
            if ctx.violations:
                return
        world.close_figures()
