"""C18: every figure shows exactly what was asked for, each thing once, in its place and from its own samples."""

from __future__ import annotations

import copy

import matplotlib.colors as mc
import numpy as np
from matplotlib.collections import PathCollection
from matplotlib.path import Path
from scipy.ndimage import gaussian_filter
from scipy.stats import norm

from dst import world
from dst.data import random_mesh
from dst.kernel import Tracer, random_fault
from dst.sessions import disturbed_read, reset_rc
from dst.world import View, apply_edit, make_config, make_override, make_truth, prepare_read

SHRINK = ["steps", "state/chains", "state/truths"]

KINDS = ["normal", "normal", "skew", "offset", "small", "uniform", "big"]
OV_KEYS = ("shade", "bar_shade", "shade_alpha", "sigmas", "color", "linewidth", "linestyle", "zorder", "plot_point",
           "plot_cloud", "num_cloud", "marker_style", "marker_size", "marker_alpha", "bins", "smooth",
           "plot_contour", "show_contour_labels")


def random_config(rng, cols):
    c = world.random_config(rng)
    if rng.random() < 0.3:
        c["extents"] = {k: [round(rng.uniform(-9, -6), 2), round(rng.uniform(6, 9), 2)] for k in rng.sample(cols, rng.choice([1, 2]))}
    if rng.random() < 0.4:
        c["labels"] = {k: rng.choice([rf"$\{g}$", f"the {g}", g.upper()]) for k, g in
                       zip(rng.sample(cols, 2), ("alpha", "beta"))}
    if rng.random() < 0.2:
        c["legend_location"] = rng.choice([[0, -1], [0, 0], [-1, 0]])
    if rng.random() < 0.15:
        c["show_legend"] = True
    if rng.random() < 0.3:
        c["flip"] = True
    return c


def random_truth(rng):
    t = world.random_truth(rng)
    if rng.random() < 0.3:
        t["zorder"] = rng.choice([1, 55])
    if rng.random() < 0.3:
        t["line_width"] = rng.choice([0.5, 2.5])
    if rng.random() < 0.3:
        t["alpha"] = rng.choice([0.3, 0.8])
    if rng.random() < 0.3:
        t["location"][rng.choice(["zz", "a"])] = 0.0
    return t


def random_chain(rng, name):
    if rng.random() < 0.15:
        table = random_mesh(rng, rng.sample(world.COLS, rng.choice([1, 2, 2])))
        opts = world.random_opts(rng, table, heavy=False, exclude=("walkers", "plot_cloud", "shift_params", "bins"))
        opts["grid"] = True
        if rng.random() < 0.5:
            opts.pop("smooth", None)
        return {"name": name, "table": table, "opts": opts, "edits": []}
    spec = world.random_chain(rng, name, n=rng.choice([300, 600, 1200]), cols=rng.sample(world.COLS, rng.choice([1, 2, 2, 3])),
                              heavy=False, exclude=("kde", "multimodal", "walkers"), kinds=KINDS)
    o = spec["opts"]
    if rng.random() < 0.08:
        o["color"] = None
    if rng.random() < 0.12:
        o |= {"kde": rng.choice([True, 0.5, 0.7, 1.5, 2, 3]), "bins": rng.choice([8, 12]), "smooth": rng.choice([1, 2])}
        spec["table"]["n"] = 300
        if rng.random() < 0.4:
            o["power"] = rng.choice([0.5, 2.0, 3.0])
    if rng.random() < 0.15:
        o["num_cloud"] = rng.choice([7, 50, 299, 1e4])
        if "seed" in spec["table"] and rng.random() < 0.5:
            spec["table"]["n"] += rng.choice([1, 7, 11, 53])
            o["num_cloud"] = rng.choice([7, 31, 50, 67, 113, 299])
        o["plot_cloud"] = True
    if o.get("smooth") == 0 and o.get("bins", 100) > 20:
        o["bins"] = 12
    return spec


def long_walks(rng):
    """Chains so long that a walk shows every k-th sample only."""
    chains = []
    for i in range(rng.choice([1, 1, 2])):
        n = rng.choice([100_001, 130_000, 199_999, 200_000, 250_000, 330_000]) if not i or rng.random() < 0.5 else 700
        chains.append(world.random_chain(rng, f"long {i}", n=n, cols=rng.sample(world.COLS, rng.choice([1, 2])), heavy=False,
                                         exclude=("kde", "multimodal", "walkers", "plot_cloud", "bins"), kinds=KINDS))
    state = {"chains": chains, "truths": [random_truth(rng) for _ in range(rng.choice([0, 1]))],
             "config": random_config(rng, world.COLS) if rng.random() < 0.3 else None, "override": None}
    op = {"r": "walks", "posterior": rng.random() < 0.8, "weights": rng.random() < 0.8, "log_weight": rng.random() < 0.3}
    if rng.random() < 0.4:
        op["convolve"] = rng.choice([5, 20, 101])
    return {"state": state, "steps": [{"s": "audit", "op": op}]}


def generate(rng, tier):
    if rng.random() < 0.012:
        return long_walks(rng)
    names = rng.sample(["alpha", "beta", "model A", "A", "gamma", "m_5", "z"], 7)
    chains = []
    for i in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 5])):
        if i and rng.random() < 0.15:
            chains.append(world.random_marker(rng, names[i]))
        else:
            chains.append(random_chain(rng, names[i]))
    if len(chains) > 1 and rng.random() < 0.15:
        # Several coloured clouds in the same panels
        for spec in chains:
            if "marker" in spec or spec["opts"].get("grid"):
                continue
            own = [c["name"] for c in spec["table"]["cols"]] + [spec["table"][k]["name"] for k in ("weights", "posterior")
                                                                 if spec["table"].get(k)]
            spec["opts"] |= {"plot_cloud": True, "num_cloud": rng.choice([20, 60]), "color_param": rng.choice(own)}
    state = {
        "chains": chains,
        "truths": [random_truth(rng) for _ in range(rng.choice([0, 1, 2, 3]))],
        "config": random_config(rng, world.COLS) if rng.random() < 0.75 else None,
        "override": override(rng) if rng.random() < 0.25 else None,
    }
    steps = []
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        if r < 0.14:
            steps.append({"s": "edit", "k": rng.randrange(6), "edit": {
                "edit": rng.choice(["inplace", "scale", "weights", "replace", "posterior"]), "col": rng.randrange(3),
                "row": rng.randrange(400), "value": rng.choice([2.5, 0.3]), "rel": True}})
        elif r < 0.2:
            steps.append({"s": "truth", "spec": random_truth(rng)})
        elif r < 0.26:
            steps.append({"s": "truth-edit", "k": rng.randrange(3), "value": round(rng.uniform(-2, 2), 3)})
        elif r < 0.33:
            steps.append({"s": "config", "spec": random_config(rng, world.COLS)})
        elif r < 0.39:
            steps.append({"s": "override", "spec": override(rng) if rng.random() < 0.7 else {}})
        elif r < 0.44:
            steps.append({"s": "remove", "k": rng.randrange(6)})
        elif r < 0.5:
            steps.append({"s": "add", "chain": random_chain(rng, f"new {len(steps)}")})
        elif r < 0.62:
            steps.append({"s": "alone", "what": rng.choice(["surface", "surface", "dist", "dist", "dist", "contour", "cloud", "point"]),
                          "k": rng.randrange(6), "cols": [rng.randrange(4), rng.randrange(4)], "truths": rng.random() < 0.5,
                          "config": rng.choice([None, "own", "default"])})
        elif r < 0.7:
            steps.append({"s": "read", "op": world.random_read(rng, 0.8), "fault": random_fault(rng, 150)})
        else:
            kind = rng.choice(["plot", "plot", "plot", "walks", "dists", "sumplot"])
            op = world.random_read(rng, kinds=[kind])
            if kind == "sumplot":
                op["errorbar"] = rng.random() < 0.3
            if kind == "plot" and rng.random() < 0.3:
                op["figsize"] = rng.choice([[4.0, 6.0], 5, 7])
            steps.append({"s": "audit", "op": op})
    if not any(s["s"] == "audit" for s in steps):
        steps.append({"s": "audit", "op": {"r": rng.choice(["plot", "walks", "dists", "sumplot"])}})
    return {"state": state, "steps": steps}


def override(rng):
    spec = world.random_override(rng)
    spec = {k: v for k, v in spec.items() if k in OV_KEYS}
    if rng.random() < 0.1:
        spec["plot_contour"] = False
        spec["plot_cloud"] = True
    if rng.random() < 0.1:
        spec["color"] = None
    if spec.get("smooth") == 0:
        spec["smooth"] = 1
    return spec


# ------------------------------------------------------------------------------------------------ reference


def effective(view, specs, ov) -> list[dict]:
    """What the documentation promises to be in force for each chain."""
    from chainconsumer import colors

    n = sum(1 for s in specs if ov.get("plot_contour", "marker" not in s and s["opts"].get("plot_contour", True)))
    palette = colors.next_colour()
    out = []
    for s, chain in zip(specs, view.chains):
        o = s["opts"]
        marker = "marker" in s
        alpha = (1.0 / np.sqrt(n) if n else 1.0) * (0.5 if ov.get("show_contour_labels", o.get("show_contour_labels")) else 1.0)
        e = {
            "name": s["name"], "chain": chain, "marker": marker,
            "plot_contour": not marker and o.get("plot_contour", True),
            "plot_point": marker or o.get("plot_point", False),
            "plot_cloud": o.get("plot_cloud", False), "num_cloud": o.get("num_cloud", 10000),
            "color_param": o.get("color_param"),
            "cmap": o.get("cmap", "viridis"),
            "shade": o.get("shade", n < 5), "bar_shade": o.get("bar_shade", n < 5), "shade_alpha": o.get("shade_alpha", alpha),
            "sigmas": o.get("sigmas", [0, 1, 2]),
            "linewidth": o.get("linewidth", 1.0), "linestyle": o.get("linestyle", "-"), "zorder": o.get("zorder", 10),
            "marker_style": o.get("marker_style", "."), "marker_alpha": o.get("marker_alpha", 1.0),
            "marker_size": o.get("marker_size", 20.0 if marker else 10.0),
            "label": o.get("show_label_in_legend", True), "power": o.get("power", 1.0),
            "height": o.get("histogram_relative_height", 1.0), "grid": o.get("grid", False),
            "written": ov.get("show_contour_labels", o.get("show_contour_labels", False)),
            "bins": o.get("bins"), "smooth": o.get("smooth"), "kde": o.get("kde", False),
        }
        own = ov["color"] if "color" in ov else o.get("color")
        e["color"] = colors.format(own) if own is not None else next(palette)
        for k in OV_KEYS:
            if k in ov and k not in ("color", "show_contour_labels"):
                e[k] = ov[k]
        e["color"] = mc.to_hex(e["color"])
        if e["smooth"] is None:
            e["smooth"] = 0 if e["grid"] else 3
        if e["bins"] is None:
            e["bins"] = 35 if e["smooth"] else 100
        chain_cols = [c for c in chain.samples.columns if c in ("a", "b", "c", "d")]
        e["cols"] = chain_cols
        e["plotting"] = [c for c in chain_cols if not (e["plot_cloud"] and c == e["color_param"])]
        e["skip"] = not (e["plot_contour"] or e["plot_point"] or e["plot_cloud"])
        e["weights"] = np.asarray(chain.samples[chain.weight_column], dtype=float)
        p = chain.posterior_column
        e["logp"] = np.asarray(chain.samples[p], dtype=float) if p in chain.samples else None
        shift = o.get("shift_params", False)
        e["data"] = {}
        for c in chain_cols:
            x = np.asarray(chain.samples[c], dtype=float)
            e["data"][c] = x - np.average(x, weights=e["weights"]) if shift else x
        out.append(e)
    return out


def moments(x, w):
    m = np.average(x, weights=w)
    return m, np.sqrt(np.average((x - m) ** 2, weights=w))


def best(e):
    """Rows with the highest posterior."""
    if e["logp"] is None:
        return None
    return np.flatnonzero(e["logp"] == e["logp"].max())


class Judge:
    def __init__(self, view, state, eff, op, fig, ctx, where):
        self.view, self.state, self.op, self.fig, self.ctx, self.where = view, state, op, fig, ctx, where
        self.cfg = view.cc.plotter.config
        self.truths = view.truths
        everything = {e["name"]: e for e in eff}
        sel = world.select(view.cc, op.get("sel"))
        self.shown = [e for e in ([everything[n] for n in sel] if sel is not None else eff) if not e["skip"]]
        cols = world.pick_columns(view.cc, op.get("cols"))
        if cols is None:
            cols = []
            for e in self.shown:
                cols += [c for c in e["plotting"] if c not in cols]
        self.cols = cols

    def ok(self, cond, cls, detail=""):
        return self.ctx.check(bool(cond), f"{cls}:{self.op['r']}", f"{self.where}: {detail}")

    def label(self, p):
        return self.cfg.labels.get(p, p)

    # -------------------------------------------------------------------------------------- pieces
    def drop_truth_lines(self, ax, wanted, where):
        """Takes the truth lines [(truth, 'v'|'h', value)] off the axes' lines; complains about missing ones."""
        lines = list(ax.lines)
        for t, kind, value in wanted:
            hit = None
            for ln in lines:
                xs, ys = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
                if len(xs) != 2:
                    continue
                along, across = (xs, ys) if kind == "v" else (ys, xs)
                if (np.allclose(along, value, rtol=1e-9, atol=0) and sorted(across) == [0, 1]
                        and mc.to_hex(ln.get_color()) == mc.to_hex(t.color) and ln.get_linestyle() == t.line_style
                        and np.isclose(ln.get_linewidth(), t.line_width) and ln.get_zorder() == t.zorder
                        and np.isclose(1.0 if ln.get_alpha() is None else ln.get_alpha(), t.alpha)):
                    hit = ln
                    break
            if self.ok(hit is not None, "truth-missing", f"{where}: {kind}line at {value} of {t}"):
                lines.remove(hit)
        for ln in lines:
            xs, ys = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
            if len(xs) == 2 and (sorted(xs) == [0, 1] or sorted(ys) == [0, 1]) and (xs[0] == xs[1] or ys[0] == ys[1]):
                self.ok(False, "stray-line", f"{where}: a line at x={xs} y={ys}")
        return lines

    def curve_matches(self, e, p, xs, ys, area):
        """Is this density curve one of this chain's own samples?"""
        x, w = e["data"][p], e["weights"]
        m, s = moments(x, w)
        span = x.max() - x.min()
        if e["power"] != 1.0:
            tol = 0.6 * s + span * 0.1
        else:
            tol = 0.12 * s + span * 0.6 / max(1, (e["bins"] - 1 if not e["smooth"] else 2 * e["smooth"] * e["bins"]))
        if ys.sum() <= 0:
            return f"{p}: an empty curve"
        if e["grid"] and not e["kde"] and e["power"] == 1.0:
            return self.distribution_matches(e, p, xs, ys)
        if e["kde"]:
            why = self.kernels_match(e, p, xs, ys)
            if why or e["kde"] > 1.5 or e["power"] != 1.0:
                # wide kernels are cut off where the curve ends: only the estimate itself says what it should be
                return why
        got = np.average(xs, weights=ys)
        if abs(got - m) > tol:
            return f"{p}: centred on {got:.6g}, samples on {m:.6g} (tolerance {tol:.3g})"
        if xs.min() < x.min() - 0.5 * span or xs.max() > x.max() + 0.5 * span:
            return f"{p}: spans {xs.min()} to {xs.max()}, samples {x.min()} to {x.max()}"
        if e["power"] == 1.0:
            why = self.distribution_matches(e, p, xs, ys)
            if why:
                return why
            sd = np.sqrt(np.average((xs - got) ** 2, weights=ys))
            if not 0.55 * s < sd < 1.9 * s + 2 * tol:
                return f"{p}: width {sd:.4g}, samples {s:.4g}"
            if not 0.85 * e["height"] < area < 1.15 * e["height"]:
                return f"{p}: area {area:.4g}, should be {e['height']}"
        return None

    def distribution_matches(self, e, p, xs, ys):
        """The curve, cumulated, lies with the samples' own distribution, give or take the smoothing."""
        x, w = e["data"][p], e["weights"]
        if e["grid"] and not e["kde"]:
            cells, at = np.unique(x, return_inverse=True)
            h = np.bincount(at, weights=w) / (w.sum() * (cells[1] - cells[0]))
            if e["smooth"]:
                h = gaussian_filter(h, e["smooth"], mode="reflect")
            off = np.abs(np.interp(xs, cells, h * e["height"]) - ys).max() / ys.max()
            return f"{p}: {off:.3f} of its height away from the grid" if off > 0.01 else None
        order = np.argsort(x, kind="stable")
        x, w = x[order], np.cumsum(w[order]) / w.sum()
        if e["kde"]:
            factor = 1.0 if e["kde"] is True else e["kde"]
            step = np.ptp(xs) / 199
            reach = 3 * 2.0 * factor * len(x) ** -0.2 * moments(e["data"][p], e["weights"])[1] + step
        else:
            if e["grid"]:
                step = np.diff(np.unique(x)).max()
            elif e["smooth"]:
                step = 1.4 * np.ptp(x) / (2 * e["smooth"] * e["bins"] - 1)
            else:
                step = np.ptp(x) / max(1, e["bins"] - 1)
            reach = (2.5 * e["smooth"] + 1) * step
        order = np.argsort(xs, kind="stable")
        xs, ys = xs[order], ys[order]
        got = np.concatenate([[0.0], np.cumsum(0.5 * (ys[1:] + ys[:-1]) * np.diff(xs))])
        if got[-1] <= 0:
            return f"{p}: an empty curve"
        got = got / got[-1]
        below = np.concatenate([[0.0], w])[np.searchsorted(x, xs - reach, side="left")]
        above = np.concatenate([[0.0], w])[np.searchsorted(x, xs + reach, side="right")]
        off = max((below - got).max(), (got - above).max())
        return f"{p}: cumulated {off:.3f} away from the samples" if off > (0.02 if e["smooth"] else 0.04) else None

    def kernels_match(self, e, p, xs, ys):
        """A kernel estimate is the sum of the kernels of the samples near by, tails included."""
        x, w = e["data"][p], e["weights"]
        factor = 1.0 if e["kde"] is True else e["kde"]
        sd = np.sqrt(np.cov(x, aweights=w))
        sigma = 2.0 * factor * len(x) ** -0.2 * sd
        h = np.ptp(xs) / 199  # it is found at this many places and drawn straight in between
        if not sigma > 0 or h > sigma:
            return None
        far = np.abs(xs[:, None] - x[None, :]) / sigma
        kernel = np.exp(-0.5 * far**2) * w
        most, least = kernel.sum(axis=1), np.where(far < 2.9, kernel, 0.0).sum(axis=1)  # beyond three they may be left out
        top = int(np.argmax(ys))
        with np.errstate(divide="ignore"):
            logs = np.log(ys) / e["power"]
        scale = np.log(least[top]) - logs[top]
        bend = (far.min(axis=1) + 3) * h / sigma
        slack = 0.15 + 0.25 * bend**2
        with np.errstate(divide="ignore"):
            got = logs + scale
            over, under = got - np.log(most) - slack, np.log(least) - got - slack
        judged = (most > most[top] * 1e-100) & (bend < 2)
        over, under = over[judged], under[judged & (least > least[top] * 1e-100)]
        if len(over) and over.max() > 0:
            return f"{p}: its kernel estimate is {np.exp(over.max()):.3g} times too high in places"
        if len(under) and under.max() > 0:
            return f"{p}: its kernel estimate is {np.exp(under.max()):.3g} times too low in places"
        return None

    def curves(self, ax, lines, flip):
        """[(colour, linestyle, linewidth, zorder, xs, ys)] of smooth lines and step histograms."""
        out = []
        for ln in lines:
            xs, ys = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
            if flip:
                xs, ys = ys, xs
            order = np.argsort(xs, kind="stable")
            area = float(np.trapezoid(ys[order], xs[order]))
            out.append((mc.to_hex(ln.get_color()), ln.get_linewidth(), ln.get_zorder(), xs, ys, area))
        for patch in ax.patches:
            v = np.asarray(patch.get_path().vertices, float)
            xs, ys = (v[:, 1], v[:, 0]) if flip else (v[:, 0], v[:, 1])
            # a step outline: turn it into heights at bin centres
            edges = np.unique(xs)
            centres = 0.5 * (edges[1:] + edges[:-1])
            heights = np.zeros(len(centres))
            for (x0, y0), (x1, y1) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
                if y0 == y1 and x0 != x1:
                    inside = (centres > min(x0, x1)) & (centres < max(x0, x1))
                    heights[inside] = np.maximum(heights[inside], y0)
            area = float((heights * np.diff(edges)).sum())
            out.append((mc.to_hex(patch.get_edgecolor()), patch.get_linewidth(), patch.get_zorder(), centres, heights, area))
        return out

    def density_panel(self, ax, members, p, where, flip=False, truths=True):
        wanted = [(t, "h" if flip else "v", t.location[p]) for t in self.truths if p in t.location] if truths else []
        lines = self.drop_truth_lines(ax, wanted, where)
        curves = self.curves(ax, lines, flip)
        self.ok(len(curves) == len(members), "curve-count", f"{where}: {len(curves)} curves for chains {[e['name'] for e in members]}")
        top = 0.0
        for e in sorted(members, key=lambda e: e["power"] != 1.0):  # the least settled last
            why, hit = f"no curve in {e['color']}", None
            for c in curves:
                if c[0] != e["color"] or not np.isclose(c[1], e["linewidth"]) or c[2] != e["zorder"]:
                    continue
                why = self.curve_matches(e, p, c[3], c[4], c[5])
                if why is None:
                    hit = c
                    break
            if self.ok(hit is not None, "curve", f"{where}: chain {e['name']}: {why}"):
                curves = [c for c in curves if c is not hit]
                top = max(top, float(hit[4].max()))
        lim = ax.get_xlim() if flip else ax.get_ylim()
        if members:
            self.ok(top <= max(lim) and min(lim) <= 0, "curve-cut-off", f"{where}: limits {lim}, highest curve {top}")
            self.ok(top > 0.3 * max(lim), "curve-flat", f"{where}: limits {lim}, highest curve {top}")
        fills = [c for c in ax.collections if "Poly" in type(c).__name__]
        allowed = sorted(e["color"] for e in members if e["bar_shade"])
        for c in fills:
            hexa = mc.to_hex(c.get_facecolor()[0])
            self.ok(hexa in allowed, "band", f"{where}: a band in {hexa}")

    def limits(self, lim, p, where):
        """Configured extents exactly; otherwise everything drawn has room."""
        lo, hi = lim
        if p in self.cfg.extents:
            self.ok(np.allclose((lo, hi), self.cfg.extents[p]), "extents", f"{where}: {p}: {lim}, configured {self.cfg.extents[p]}")
            return
        for e in self.shown:
            if p not in e["cols"]:
                continue
            x, w = e["data"][p], e["weights"]
            if e["plot_contour"] or e["plot_cloud"]:
                inside = w[(x >= lo) & (x <= hi)].sum() / w.sum()
                need = (0.8 if self.op.get("errorbar") else 0.98) - 2 * w.max() / w.sum()
                self.ok(inside >= need, "extents-cut-chain", f"{where}: {p} {lim}: {inside:.3f} of chain {e['name']}")
            elif best(e) is not None:
                v = x[best(e)]
                slack = 1e-9 * max(abs(lo), abs(hi))
                self.ok(bool(((v >= lo - slack) & (v <= hi + slack)).any()), "extents-cut-point", f"{where}: {p} {lim}: {v}")

    def surface_panel(self, ax, px, py, where):
        wanted, markers = [], []
        for t in self.truths:
            if px in t.location and py in t.location and t.marker is not None:
                markers.append(t)
                continue
            if px in t.location:
                wanted.append((t, "v", t.location[px]))
            if py in t.location:
                wanted.append((t, "h", t.location[py]))
        rest = self.drop_truth_lines(ax, wanted, where)
        self.ok(not rest, "stray-line", f"{where}: {len(rest)} lines")
        scatters = [c for c in ax.collections if isinstance(c, PathCollection)]
        contours = [c for c in ax.collections if type(c).__name__ == "QuadContourSet"]
        for t in markers:
            hit = [c for c in scatters if len(c.get_offsets()) == 1 and np.allclose(c.get_offsets()[0], (t.location[px], t.location[py]), rtol=1e-9)
                   and c.get_zorder() == t.zorder and mc.to_hex(c.get_facecolor()[0] if len(c.get_facecolor()) else c.get_edgecolor()[0]) == mc.to_hex(t.color)]
            if self.ok(hit, "truth-marker-missing", f"{where}: {t}"):
                scatters = [c for c in scatters if c is not hit[0]]
        for e in self.shown:
            if px not in e["plotting"] or py not in e["plotting"]:
                continue
            x, y = e["data"][px], e["data"][py]
            here = f"{where}: chain {e['name']}"
            if e["plot_cloud"]:
                hit = None
                for c in scatters:
                    off = np.asarray(c.get_offsets(), float)
                    if c.get_zorder() == e["zorder"] - 5 and self.is_cloud(e, x, y, off, c):
                        hit = c
                        break
                if self.ok(hit is not None, "cloud", here):
                    scatters = [c for c in scatters if c is not hit]
            if e["plot_contour"]:
                contours = self.take_contours(contours, e, x, y, here)
            if e["plot_point"] and best(e) is not None:
                points = np.column_stack([x, y])[best(e)]
                hit = [c for c in scatters if len(c.get_offsets()) == 1
                       and (np.isclose(points, np.asarray(c.get_offsets()[0]), rtol=1e-7, atol=1e-9 * np.ptp(points) + 1e-12).all(axis=1)).any()
                       and c.get_zorder() == e["zorder"] + 1 and np.isclose(c.get_sizes()[0], e["marker_size"])
                       and (e["plot_contour"] or mc.to_hex((c.get_facecolor() if len(c.get_facecolor()) else c.get_edgecolor())[0]) == e["color"])]
                if self.ok(hit, "point", f"{here}: {points[:3]}"):
                    scatters = [c for c in scatters if c is not hit[0]]
        self.ok(not scatters, "stray-points", f"{where}: {[len(c.get_offsets()) for c in scatters]}")
        self.ok(not contours, "stray-contours", f"{where}: {len(contours)}")

    def is_cloud(self, e, x, y, off, c):
        n = len(x)
        if not (min(n, e["num_cloud"]) <= len(off) <= max(2 * e["num_cloud"] + 1, 1)):
            return False
        if len(off) > n:
            return False
        # equally spaced rows of the chain, the first among them
        step = max(1, int(n / e["num_cloud"]))
        want = np.column_stack([x[::step], y[::step]])
        if off.shape != want.shape or not np.allclose(off, want, rtol=1e-9, atol=1e-9 * max(np.abs(want).max(), 1e-300)):
            return False
        if e["color_param"] is not None:
            v = e["chain"].samples[e["color_param"]].to_numpy()
            if e["color_param"] in e["data"]:
                v = e["data"][e["color_param"]]
            arr = c.get_array()
            return arr is not None and np.allclose(np.asarray(arr, float), np.asarray(v, float)[::step], atol=1e-9 * np.abs(v).max()) and c.get_cmap().name == e["cmap"]
        return c.get_array() is None and mc.to_hex(c.get_facecolor()[0]) == e["color"]

    def take_contours(self, contours, e, x, y, where):
        need = [True] if e["shade"] and e["shade_alpha"] > 0 else []
        need = [*need, False]
        sig = np.array(e["sigmas"], float)
        levels = 1 - np.exp(-0.5 * sig**2) if self.cfg.sigma2d else 2 * norm.cdf(sig) - 1
        for filled in need:
            hit, why = None, "none left"
            for c in contours:
                if c.filled != filled:
                    continue
                z = e["zorder"] - 2 if filled else e["zorder"]
                if c.get_zorder() != z or len(c.levels) != len(levels) or not np.allclose(c.levels, levels):
                    why = f"zorder {c.get_zorder()} levels {c.levels}, expected {z} {levels}"
                    continue
                if filled and not np.isclose(c.get_alpha(), e["shade_alpha"]):
                    why = f"alpha {c.get_alpha()} expected {e['shade_alpha']}"
                    continue
                if not filled:
                    if not np.isclose(np.ravel(c.get_linewidth())[0], e["linewidth"]):
                        why = "line width"
                        continue
                if not self.same_hue(c, e, filled):
                    why = f"colour {c.get_facecolor() if filled else c.get_edgecolor()} for {e['color']}"
                    continue
                why = self.contour_matches(c, e, x, y, filled)
                if why is None:
                    hit = c
                    break
            if self.ok(hit is not None, "contour" if not filled else "shade", f"{where}: {why}"):
                contours = [c for c in contours if c is not hit]
        return contours

    def same_hue(self, c, e, filled):
        """Contours are drawn in lighter and darker versions of the chain's colour."""
        base = np.array(mc.rgb_to_hsv(mc.to_rgb(e["color"])))
        cols = c.get_facecolor() if filled else c.get_edgecolor()
        near = []  # of those whose hue can be told; the lightest may have lost theirs
        for rgba in cols:
            h = mc.rgb_to_hsv(rgba[:3])
            if base[1] < 0.15 or h[1] < 0.15 or base[2] < 0.2 or h[2] < 0.2 or h[2] > 0.995:
                continue
            d = abs(h[0] - base[0])
            near.append(min(d, 1 - d) <= 0.09)
        return not near or any(near)

    def contour_matches(self, c, e, x, y, filled):
        """The lines enclose the fraction of the chain's own samples that their level says."""
        w = e["weights"]
        lo = np.array([x.min(), y.min()])
        hi = np.array([x.max(), y.max()])
        span = hi - lo
        boxes = [s for segs in c.allsegs for s in segs if len(s)]
        if not boxes:
            return None if e["power"] != 1 or e["written"] else "nothing drawn"
        v = np.vstack(boxes)
        slack = 0.3 * span + 1e-300
        if (v.min(axis=0) < lo - slack).any() or (v.max(axis=0) > hi + slack).any():
            return f"drawn over {v.min(axis=0)} to {v.max(axis=0)}, samples {lo} to {hi}"
        centre = np.array([np.average(x, weights=w), np.average(y, weights=w)])
        closed = all(np.allclose(s[0], s[-1], rtol=0, atol=1e-6 * span.max()) for s in boxes)  # else they run off the histogram
        if closed and e["power"] == 1 and not e["written"] and ((v.min(axis=0) > centre + 0.1 * span).any() or (v.max(axis=0) < centre - 0.1 * span).any()):
            return f"drawn over {v.min(axis=0)} to {v.max(axis=0)}, samples centred on {centre}"
        if not filled and e["kde"] and not e["written"]:
            why = self.level_matches(c, e, x, y)
            if why:
                return why
        wide = e["kde"] and 2.0 * e["kde"] * len(x) ** (-1 / 6) > 1.0
        if filled or e["power"] != 1.0 or e["grid"] or not e["smooth"] or e["written"] or wide:
            return None
        for level, segs in zip(c.levels, c.allsegs):
            segs = [s for s in segs if len(s) > 3]
            if not 0.3 < level < 0.9 or not segs:
                continue
            if any(np.linalg.norm((s[0] - s[-1]) / np.where(span > 0, span, 1)) > 1e-6 for s in segs):
                continue  # runs off the histogram
            inside = np.zeros(len(x), dtype=bool)
            pts = np.column_stack([x, y])
            for s in segs:
                inside ^= Path(s).contains_points(pts)
            frac = w[inside].sum() / w.sum()
            effective_n = w.sum() ** 2 / (w**2).sum()  # few samples are smoothed out wide
            if not level - 0.2 < frac < (min(1.01, level + 0.3) if effective_n > 200 else 1.01):
                return f"level {level:.3f} encloses {frac:.3f}"
        return None

    def level_matches(self, c, e, x, y):
        """Every line of a level runs where the density estimate of the samples is the same."""
        w = e["weights"]
        d = np.column_stack([x, y])
        mean = np.average(d, weights=w, axis=0)
        white = np.linalg.cholesky(np.linalg.inv(np.cov((d - mean).T, aweights=w)))
        z = (d - mean) @ white
        width = 2.0 * (1.0 if e["kde"] is True else e["kde"]) * len(x) ** (-1 / 6)

        def density(points):
            v = (points - mean) @ white
            return np.exp(-0.5 * ((v[:, None, :] - z[None]) ** 2).sum(axis=2) / width**2) @ w

        side = [np.linspace(q.min(), q.max(), 40) for q in (x, y)]
        mesh = density(np.column_stack([q.ravel() for q in np.meshgrid(*side)])) ** e["power"]
        for level, segs in zip(c.levels, c.allsegs):
            segs = [s for s in segs if len(s)]
            if not 0.3 < level < 0.96 or not segs:
                continue
            v = np.vstack(segs)
            dens = density(v[:: max(1, len(v) // 150)])
            spread = np.std(np.log(dens + 1e-300))
            if spread > 0.3:
                return f"level {level:.3f}: the logarithm of the density varies by {spread:.3f} along its line"
            frac = mesh[mesh >= np.median(dens) ** e["power"]].sum() / mesh.sum()
            # With kernels as wide as the samples the density does not end where the histogram does
            if width <= 1.0 and abs(frac - level) > 0.1:
                return f"level {level:.3f} encloses {frac:.3f} of the density estimate to the power {e['power']}"
        return None

    # -------------------------------------------------------------------------------------- whole figures
    def legend(self, grid):
        show = self.cfg.show_legend if self.cfg.show_legend is not None else len(self.shown) > 1
        legends = [ax for ax in self.fig.axes if ax.get_legend() is not None]
        if not show:
            self.ok(not legends, "legend-shown", "")
            return
        if not self.ok(len(legends) == 1, "legend", f"{len(legends)} legends"):
            return
        flip = self.flip
        loc = self.cfg.legend_location or ((-1, 0) if flip else (0, -1))
        self.ok(legends[0] is grid[loc[0], loc[1]], "legend-place", f"not in panel {loc}")
        leg = legends[0].get_legend()
        want = [(e["name"], e["color"]) for e in self.shown if e["label"]]
        got = [(h.get_label().strip(), mc.to_hex(h.get_color())) for h in leg.get_lines()]
        self.ok(got == want, "legend-entries", f"{got}, expected {want}")
        texts = [(t.get_text().strip(), mc.to_hex(t.get_color())) for t in leg.get_texts()]
        if self.cfg.legend_color_text:
            self.ok(texts == want, "legend-text", f"{texts}, expected {want}")
        else:
            self.ok([t[0] for t in texts] == [w[0] for w in want], "legend-text", f"{texts}, expected {want}")

    def alone(self, ax, step, e, px, py):
        """The functions that draw into an axis of the user's own."""
        self.shown = [e]
        what = step["what"]
        where = f"{what} of {e['name']} ({px}, {py})"
        if not step["truths"]:
            self.truths = []
        if what in ("surface", "contour", "cloud", "point"):
            if what != "surface":
                for k in ("contour", "cloud", "point"):
                    e[f"plot_{k}"] = k == what
                if what == "point":
                    e["plot_contour"] = step["contoured"]  # only decides the shade of its colour
                    points = np.column_stack([e["data"][px], e["data"][py]])[best(e)] if best(e) is not None else []
                    off = [np.asarray(c.get_offsets(), float) for c in ax.collections]
                    self.ok(len(off) == (len(points) > 0) and all(np.isclose(points, o[0]).all(axis=1).any() for o in off), "point", f"{where}: {off}")
                    return
            self.surface_panel(ax, px, py, where)
            return
        wanted = [(t, "v", t.location[px]) for t in self.truths if px in t.location]
        curves = self.curves(ax, self.drop_truth_lines(ax, wanted, where), False)
        if not self.ok(len(curves) == 1, "curve-count", f"{where}: {len(curves)}"):
            return
        c = curves[0]
        self.ok(c[0] == e["color"] and np.isclose(c[1], e["linewidth"]) and c[2] == e["zorder"], "curve-style", f"{where}: {c[:3]}")
        area = c[5]
        if e["kde"]:
            area = e["height"]  # in no particular units
        why = self.curve_matches(e, px, c[3], c[4], area)
        self.ok(why is None, "curve", f"{where}: {why}")
        fills = [f for f in ax.collections if "Poly" in type(f).__name__]
        bound = self.view.cc.analysis.get_parameter_summary(e["chain"], px)
        shade = e["shade"] and e["shade_alpha"] > 0 and bound is not None and bound.lower is not None and bound.upper is not None
        if self.ok(len(fills) == (1 if shade else 0), "band", f"{where}: {len(fills)} bands for {bound}") and shade:
            v = fills[0].get_paths()[0].vertices[:, 0]
            span = np.ptp(e["data"][px])
            ends = [max(bound.lower, c[3].min()), min(bound.upper, c[3].max())]
            self.ok(np.allclose([v.min(), v.max()], ends, atol=1e-6 * span, rtol=0) and mc.to_hex(fills[0].get_facecolor()[0]) == e["color"],
                    "band", f"{where}: from {v.min()} to {v.max()}, interval {ends}")

    def axis_label(self, got, p, where):
        want = self.label(p)
        self.ok(got.strip() == want or (got.startswith(want + " [") and got.endswith("]")), "axis-label", f"{where}: {got!r} for {p} ({want!r})")

    def triangle(self):
        n = len(self.cols)
        hists = self.cfg.plot_hists
        k = n if hists else n - 1
        self.flip = hists and n == 2 and self.cfg.flip
        if k < 1:
            return
        if not self.ok(len(self.fig.axes) >= k * k, "panels", f"{len(self.fig.axes)} axes for {n} parameters"):
            return
        grid = np.array(self.fig.axes[: k * k], dtype=object).reshape(k, k)
        bars = {e["color_param"] for e in self.shown if e["plot_cloud"] and e["color_param"] is not None
                and any(p in e["plotting"] and q in e["plotting"] for i, p in enumerate(self.cols) for q in self.cols[:i])}
        self.ok(len(self.fig.axes) == k * k + len(bars), "panels", f"{len(self.fig.axes)} axes for {n} parameters and {len(bars)} colours")
        names = {"weight": "Weights", "log_weight": "log(Weights)", "posterior": "log(Posterior)"}
        got = sorted(ax.get_ylabel() for ax in self.fig.axes[k * k:])
        self.ok(got == sorted(names.get(self.label(b), self.label(b)) for b in bars), "colorbar-label", f"{got} for {bars}")
        ys = self.cols if hists else self.cols[1:]
        xs = self.cols if hists else self.cols[:-1]
        logs = self.cfg.log_scales
        for i, p in enumerate(ys):
            for j, q in enumerate(xs):
                ax = grid[i, j]
                where = f"panel {i},{j} ({q} across, {p} up)"
                if i < j:
                    self.ok(not ax.lines and not ax.collections and not ax.patches, "above-diagonal", where)
                    continue
                if hists and i == j:
                    flip = self.flip and i == 1
                    members = [e for e in self.shown if e["plot_contour"] and p in e["cols"]]
                    self.density_panel(ax, members, p, where + (" turned" if flip else ""), flip)
                    self.limits(ax.get_ylim() if flip else ax.get_xlim(), p, where)
                    self.ok((ax.get_yscale() if flip else ax.get_xscale()) == ("log" if p in logs else "linear"), "scale", where)
                else:
                    self.surface_panel(ax, q, p, where)
                    self.limits(ax.get_xlim(), q, where)
                    self.limits(ax.get_ylim(), p, where)
                    self.ok((ax.get_xscale(), ax.get_yscale()) == ("log" if q in logs else "linear", "log" if p in logs else "linear"), "scale", where)
        for j, q in enumerate(xs):
            if not (self.flip and j == k - 1):
                self.axis_label(grid[k - 1, j].get_xlabel(), q, f"bottom {j}")
        for i, p in enumerate(ys):
            if not (hists and i == 0):
                self.axis_label(grid[i, 0].get_ylabel(), p, f"left {i}")
        self.legend(grid)
        size = self.op.get("figsize")
        if isinstance(size, list):
            self.ok(np.allclose(self.fig.get_size_inches(), size), "figsize", f"{self.fig.get_size_inches()} for {size}")
        elif size is not None:
            self.ok(np.allclose(self.fig.get_size_inches(), (size, size)), "figsize", f"{self.fig.get_size_inches()} for {size}")

    def watermark(self):
        if self.cfg.watermark:
            texts = [t.get_text() for t in self.fig.texts] + [t.get_text() for ax in self.fig.axes for t in ax.texts]
            self.ok(texts.count(self.cfg.watermark) == 1, "watermark", f"{texts}")

    def dists(self):
        n = len(self.cols)
        wrap = self.op.get("col_wrap", 4)
        self.ok(len(self.fig.axes) >= n and len(self.fig.axes) == int(np.ceil(n / wrap)) * min(n, wrap), "panels", f"{len(self.fig.axes)} for {n}")
        for i, ax in enumerate(self.fig.axes):
            if i >= n:
                self.ok(not ax.axison, "panels", f"panel {i} of {n}")
                continue
            p = self.cols[i]
            where = f"panel {i} ({p})"
            members = [e for e in self.shown if e["plot_contour"] and p in e["plotting"]]
            self.density_panel(ax, members, p, where)
            self.limits(ax.get_xlim(), p, where)
            self.ok(ax.get_xlabel() == self.label(p), "axis-label", f"{where}: {ax.get_xlabel()}")
            self.ok(ax.get_xscale() == ("log" if p in self.cfg.log_scales else "linear"), "scale", where)

    def sumplot(self):
        n, k = len(self.shown), len(self.cols)
        if not self.ok(len(self.fig.axes) == n * (k + 1), "panels", f"{len(self.fig.axes)} for {n} chains, {k} parameters"):
            return
        grid = np.array(self.fig.axes, dtype=object).reshape(n, k + 1)
        for i, e in enumerate(self.shown):
            texts = [(t.get_text(), mc.to_hex(t.get_color())) for t in grid[i, 0].texts if t.get_text() != self.cfg.watermark]
            self.ok(texts == [(e["name"], e["color"] if self.cfg.legend_color_text else "#000000")], "row-name", f"row {i}: {texts}, {e['name']}")
            for j, p in enumerate(self.cols):
                ax = grid[i, j + 1]
                where = f"row {i} column {j} ({e['name']}, {p})"
                self.limits(ax.get_xlim(), p, where)
                self.ok(ax.get_xscale() == ("log" if p in self.cfg.log_scales else "linear"), "scale", where)
                if i == 0:
                    self.ok(ax.get_title() == self.label(p), "axis-label", f"{where}: {ax.get_title()}")
                else:
                    self.ok(not ax.get_title(), "axis-label", f"{where}: {ax.get_title()}")
                wanted = [(t, "v", t.location[p]) for t in self.truths if p in t.location]
                if self.op.get("errorbar"):
                    lines = self.drop_truth_lines(ax, wanted, where)
                    if p not in e["cols"]:
                        self.ok(not lines and not ax.containers, "stray-line", where)
                        continue
                    self.ok(len(ax.containers) <= 1, "errorbar", f"{where}: {len(ax.containers)}")
                    for con in ax.containers:
                        v = float(con.lines[0].get_xdata()[0])
                        x = e["data"][p]
                        self.ok(x.min() <= v <= x.max() and mc.to_hex(con.lines[0].get_color()) == e["color"], "errorbar", f"{where}: at {v}")
                    continue
                members = [e] if p in e["cols"] and e["data"][p].min() < e["data"][p].max() else []
                self.summary_panel(ax, members, p, where)
        if not self.op.get("errorbar"):
            for j in range(k):
                lims = {tuple(np.round(ax.get_ylim(), 9)) for ax in grid[:, j + 1]}
                self.ok(len(lims) == 1, "row-scale", f"column {j}: {lims}")

    def summary_panel(self, ax, members, p, where):
        wanted = [(t, "v", t.location[p]) for t in self.truths if p in t.location]
        lines = self.drop_truth_lines(ax, wanted, where)
        curves = self.curves(ax, lines, False)
        self.ok(len(curves) == len(members), "curve-count", f"{where}: {len(curves)}")
        for e, c in zip(members, curves):
            why = None if c[0] == e["color"] else f"colour {c[0]}, chain has {e['color']}"
            why = why or self.curve_matches(e, p, c[3], c[4], c[5])
            self.ok(why is None, "curve", f"{where}: {why}")
            self.ok(float(c[4].max()) <= ax.get_ylim()[1], "curve-cut-off", f"{where}: {ax.get_ylim()}")

    def walks(self):
        op = self.op
        logp = op.get("posterior", True) and any(e["logp"] is not None for e in self.shown)
        weights = op.get("weights", True)
        rows = (["logp"] if logp else []) + (["weight"] if weights else []) + self.cols
        if not self.ok(len(self.fig.axes) == len(rows), "panels", f"{len(self.fig.axes)} for {rows}"):
            return
        for ax, r in zip(self.fig.axes, rows):
            series = []
            for e in self.shown:
                if r == "logp" and e["logp"] is not None:
                    series.append((e, e["logp"] - e["logp"].max()))
                elif r == "weight":
                    series.append((e, np.log10(e["weights"]) if op.get("log_weight") else e["weights"]))
                elif r in e["cols"]:
                    series.append((e, e["data"][r]))
            where = f"row {r}"
            wanted = [(t, "h", t.location[r]) for t in self.truths if r in t.location] if r in self.cols else []
            lines = self.drop_truth_lines(ax, wanted, where)
            scatters = [c for c in ax.collections if isinstance(c, PathCollection)]
            longest = max((len(c.get_offsets()) for c in scatters), default=0)
            self.ok(len(scatters) == len(series), "walk-count", f"{where}: {len(scatters)} walks for {len(series)} chains")
            for e, full in series:
                hit, y = None, full
                for c in scatters:
                    off = np.asarray(c.get_offsets(), float)
                    y = self.walk_shown(np.asarray(full), len(off))
                    if off.shape == (len(y), 2) and np.array_equal(off[:, 0], np.arange(len(y))) and np.allclose(
                            off[:, 1], y, rtol=1e-9, atol=1e-9 * np.abs(y).max() + 1e-300) and mc.to_hex(c.get_facecolor()[0]) == e["color"]:
                        hit = c
                        break
                if self.ok(hit is not None, "walk", f"{where}: chain {e['name']}"):
                    scatters = [c for c in scatters if c is not hit]
                if op.get("convolve") and len(y) > op["convolve"]:
                    width = op["convolve"]
                    trim = width // 2
                    want = np.convolve(y, np.ones(width) / width, mode="valid")
                    tol = 1e-9 * np.abs(y).max() + 1e-300
                    near = [ln for ln in lines if len(ln.get_ydata()) >= len(want) - 2 and self.smoothed(ln, want, trim, tol)]
                    if self.ok(near, "walk-average", f"{where}: chain {e['name']} over {width}"):
                        lines.remove(near[0])
            if not op.get("convolve"):
                self.ok(not lines, "stray-line", f"{where}: {len(lines)}")
            if series:
                lo, hi = ax.get_xlim()
                self.ok(lo <= 0 and hi >= longest - 1 or longest <= 1, "walk-cut-off", f"{where}: shown from {lo} to {hi} of {longest}")
            if r in self.cols:
                self.limits(ax.get_ylim(), r, where)
                self.ok(ax.get_ylabel() == self.label(r), "axis-label", f"{where}: {ax.get_ylabel()}")
                self.ok(ax.get_yscale() == ("log" if r in self.cfg.log_scales else "linear"), "scale", where)

    @staticmethod
    def walk_shown(y, points):
        """Up to 100000 samples a walk shows each; of a longer chain, every k-th from the first to the end."""
        if len(y) <= 100_000 or points < 50_000:
            return y
        for k in range(1, len(y) // 50_000 + 1):
            if len(y[::k]) == points:
                return y[::k]
        return y

    @staticmethod
    def smoothed(ln, want, trim, tol):
        xs, ys = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        at = {int(a): b for a, b in zip(xs, ys)}
        keys = [i for i in range(trim, trim + len(want)) if i in at]
        return keys and len(keys) >= 0.9 * len(want) - 1 and all(abs(at[i] - want[i - trim]) <= tol for i in keys)


def supported(view, specs, eff, op, ov):
    """Loads whose outcome the documentation settles."""
    names = set(world.select(view.cc, op.get("sel")) or view.cc.get_names())
    shown = [e for e in eff if e["name"] in names and not e["skip"]]
    if not shown:
        return False
    if op["r"] == "plot" and not any(e["plot_contour"] or e["plot_cloud"] or e["logp"] is not None for e in shown):
        return False  # points of chains without a posterior: nothing to draw
    cols = world.pick_columns(view.cc, op.get("cols"))
    drawn = cols if cols is not None else {p for e in shown for p in e["plotting"]}
    if op["r"] == "plot" and not view.cc.plotter.config.plot_hists and len(drawn) < 2:
        return False  # no panel to draw
    if cols is not None:
        # asked for parameters nobody (or only chains that use them as colours) has
        return all(any(p in e["plotting"] for e in shown) for p in cols)
    return any(e["plotting"] for e in shown)


def draw_alone(view, specs, step, ctx, where) -> bool:
    import matplotlib.pyplot as plt
    from chainconsumer import PlotConfig, colors
    from chainconsumer.plotting import contours as C
    from chainconsumer.plotting import plot_truths

    k = step["k"] % len(specs)
    chain, spec = view.chains[k], specs[k]
    e = effective(view, specs, {})[k]
    o = spec["opts"]
    e |= {"shade": o.get("shade", True), "shade_alpha": o.get("shade_alpha", 0.5)}
    if o.get("color") is None:  # a line without a colour takes the first of matplotlib's
        e["color"] = mc.to_hex("C0" if step["what"] == "dist" else colors.format(None))
    if o.get("shift_params"):  # only consumers follow the samples
        e["data"] = {c: np.asarray(chain.samples[c], dtype=float) for c in e["cols"]}
    cols = e["plotting"]
    what = step["what"]
    if not cols or (what == "dist" and e["marker"]) or (what == "contour" and e["marker"]):
        return False
    px, py = cols[step["cols"][0] % len(cols)], cols[step["cols"][1] % len(cols)]
    if what != "dist" and px == py:
        return False
    reset_rc()
    cfg = {None: None, "own": view.cc.plotter.config, "default": PlotConfig()}[step["config"]]
    fig, ax = plt.subplots()
    try:
        if step["truths"]:
            plot_truths(ax, view.truths, px=px, **({} if what == "dist" else {"py": py}))
        if what == "point" and step["truths"]:
            fig, ax = plt.subplots()
        if what == "surface":
            C.plot_surface(ax, [chain], px, py, cfg)
        elif what == "dist":
            C.plot_dist(ax, chain, px, cfg, summary=step["k"] % 2 == 0)
        elif what == "contour":
            C.plot_contour(ax, chain, px, py, cfg)
        else:
            getattr(C, f"plot_{what}")(ax, chain, px, py)
    except Exception as exc:  # noqa: BLE001
        import traceback

        tb = traceback.extract_tb(exc.__traceback__)[-1]
        ctx.violation(f"raises:alone:{what}", f"{where}: {exc!r} at {tb.name} {tb.lineno}")
        return True
    j = Judge(view, None, [e], {"r": "alone"}, fig, ctx, where)
    j.cfg = cfg or PlotConfig()
    step = dict(step, contoured=e["plot_contour"])
    j.alone(ax, step, e, px, py)
    world.close_figures()
    ctx.stat("audits:alone")
    ctx.state("alone", what, e["marker"], e["grid"], bool(e["kde"]), step["truths"], step["config"])
    return True


def execute(trace, ctx):
    state = copy.deepcopy(trace["state"])
    view = View(state)
    specs = state["chains"]
    ov = state["override"] or {}
    history = []
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        kind = step["s"]
        if kind == "edit":
            k = step["k"] % len(specs)
            if "marker" in specs[k] or specs[k]["opts"].get("grid"):
                continue
            apply_edit(view.chains[k], step["edit"])
        elif kind == "truth":
            view.truths.append(make_truth(step["spec"]))
            view.cc.add_truth(view.truths[-1])
        elif kind == "truth-edit":
            if not view.truths:
                continue
            loc = view.truths[step["k"] % len(view.truths)].location
            loc[sorted(loc)[0]] = step["value"]
        elif kind == "config":
            view.cc.set_plot_config(make_config(step["spec"]))
        elif kind == "override":
            ov = step["spec"]
            view.cc.set_override(make_override(ov))
        elif kind == "remove":
            k = step["k"] % len(specs)
            if len(specs) < 2:
                continue
            view.cc.remove_chain(specs[k]["name"])
            view.chains.pop(k)
            specs.pop(k)
        elif kind == "add":
            spec = copy.deepcopy(step["chain"])
            view.chains.append(world.make_chain(spec))
            view.cc.add_chain(view.chains[-1])
            specs.append(spec)
        elif kind == "alone":
            if not draw_alone(view, specs, step, ctx, where):
                continue
            ctx.log(i, step["what"])
        elif kind == "read":
            status, _, injected = disturbed_read(view.cc, step["op"], step["fault"], ctx)
            world.close_figures()
            ctx.log(i, status, injected)
        else:
            op = step["op"]
            eff = effective(view, specs, ov)
            if not supported(view, specs, eff, op, ov):
                continue
            reset_rc()
            call = prepare_read(view.cc, op)
            tracer = Tracer()
            try:
                with tracer:
                    fig = call()
            except Exception as exc:  # noqa: BLE001
                import traceback

                tb = traceback.extract_tb(exc.__traceback__)[-1]
                ctx.violation(f"raises:{op['r']}", f"{where}: {exc!r} at {tb.name} {tb.lineno}")
                return
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            j = Judge(view, state, eff, op, fig, ctx, where)
            {"plot": j.triangle, "dists": j.dists, "sumplot": j.sumplot, "walks": j.walks}[op["r"]]()
            j.watermark()
            world.close_figures()
            ctx.stat("audits:" + op["r"])
            ctx.log(i, op["r"], len(j.shown), j.cols)
            ctx.state(op["r"], sorted(k for k in op if k != "r"), len(j.shown), len(j.cols), len(view.truths), history[-2:])
        history.append(kind)
        if ctx.violations:
            return
