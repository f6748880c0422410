"""Deterministic sample tables built from JSON specs."""

from __future__ import annotations

import random

import numpy as np
import pandas as pd

NAMES = ["a", "b", "c", "d", "x_1", "Omega", "w"]


def random_table(rng: random.Random, *, n=None, cols=None, weights=None, posterior=None, kinds=None, walkers=1) -> dict:
    """A table spec.  `weights`/`posterior`: None for a random choice, False for none, or a column name."""
    if n is None:
        n = rng.choice([60, 96, 120, 240, 360, 600])
    n = max(walkers, n - n % walkers)
    if cols is None:
        cols = rng.sample(["a", "b", "c", "d"], rng.choice([1, 2, 2, 3]))
    kinds = kinds or ["normal", "normal", "skew", "bimodal", "offset", "small", "uniform", "big", "int"]
    spec: dict = {
        "seed": rng.randrange(10**6),
        "n": n,
        "cols": [{"name": c, "kind": rng.choice(kinds), "loc": round(rng.uniform(-3, 3), 3)} for c in cols],
    }
    if weights is None:
        weights = rng.choice([False, False, "weight"])
    if posterior is None:
        posterior = rng.choice([False, "log_posterior", "log_posterior"])
    if weights:
        spec["weights"] = {"name": weights, "kind": rng.choice(["uniform", "gamma", "spread", "int"])}
    if posterior:
        spec["posterior"] = {"name": posterior, "kind": rng.choice(["gauss", "gauss", "noise"])}
    spec["index"] = rng.choice(["range", "range", "range", "offset", "shuffled"])
    spec["order"] = rng.choice(["end", "end", "front", "mixed"])
    return spec


def _column(kind: str, loc: float, n: int, g: np.random.Generator) -> np.ndarray:
    if kind == "normal":
        return g.normal(loc, 1.0, n)
    if kind == "skew":
        return loc + g.gamma(2.0, 0.7, n)
    if kind == "bimodal":
        return np.where(g.random(n) < 0.5, g.normal(loc - 4, 0.6, n), g.normal(loc + 4, 0.7, n))
    if kind == "offset":
        return 1.0e3 + loc + g.normal(0, 0.5, n)
    if kind == "small":
        return (loc + g.normal(0, 1.0, n)) * 1e-5
    if kind == "big":
        return (loc + g.normal(0, 1.0, n)) * 1e6
    if kind == "uniform":
        return g.uniform(loc, loc + 2, n)
    if kind == "int":
        return g.integers(-20, 60, n)
    if kind == "positive":
        return np.exp(g.normal(abs(loc), 0.4, n))
    if kind == "walk":
        return np.cumsum(g.normal(0, 0.1, n)) + loc
    if kind == "grid":
        return np.linspace(loc, loc + 3, n)
    raise KeyError(kind)


def build_table(spec: dict) -> pd.DataFrame:
    if "literal" in spec:
        return pd.DataFrame(spec["literal"])
    if "mesh" in spec:
        return build_mesh(spec["mesh"])
    g = np.random.default_rng(spec["seed"])
    n = spec["n"]
    cols: dict[str, np.ndarray] = {}
    for c in spec["cols"]:
        cols[c["name"]] = _column(c["kind"], c.get("loc", 0.0), n, g)
    extra: dict[str, np.ndarray] = {}
    w = spec.get("weights")
    if w:
        kind = w["kind"]
        extra[w["name"]] = {
            "uniform": lambda: g.uniform(0.2, 1.5, n),
            "gamma": lambda: g.gamma(2.0, 1.0, n) + 1e-3,
            "spread": lambda: 10 ** g.uniform(-3, 1, n),
            "int": lambda: g.integers(1, 6, n),
        }[kind]()
    p = spec.get("posterior")
    if p:
        if p["kind"] == "gauss" and spec["cols"]:
            z = np.zeros(n)
            for c in spec["cols"]:
                v = np.asarray(cols[c["name"]], dtype=float)
                z += (v - v.mean()) ** 2 / (v.var() + 1e-300)
            extra[p["name"]] = -0.5 * z - 3.0
        elif p["kind"] == "ties":
            extra[p["name"]] = g.integers(-5, 0, n).astype(float)
        elif p["kind"] == "huge":
            extra[p["name"]] = -1e6 - g.gamma(2.0, 3.0, n)
        elif p["kind"] == "close":  # large next to what sets the samples apart
            extra[p["name"]] = p.get("base", -1e9) + g.integers(-40, 0, n) / 8.0
        elif p["kind"] == "positive":
            extra[p["name"]] = g.gamma(2.0, 3.0, n)
        else:
            extra[p["name"]] = -g.gamma(2.0, 3.0, n)
        if p.get("grain"):
            # Values whose sum does not depend on the order they are added in
            extra[p["name"]] = np.round(extra[p["name"]] * 64) / 64
    order = spec.get("order", "end")
    names = list(cols)
    if order == "front":
        names = list(extra) + names
    elif order == "mixed" and names:
        names = names[:1] + list(extra) + names[1:]
    else:
        names = names + list(extra)
    both = cols | extra
    df = pd.DataFrame({k: both[k] for k in names})
    idx = spec.get("index", "range")
    if idx == "offset":
        df.index = np.arange(1000, 1000 + n)
    elif idx == "shuffled":
        df.index = g.permutation(n)
    elif idx == "dup":
        df.index = g.integers(0, max(2, n // 3), n)
    elif idx == "zeros":
        df.index = np.zeros(n, dtype=int)
    elif idx == "str":
        df.index = [f"r{i}" for i in g.permutation(n)]
    elif idx == "reversed":
        df.index = np.arange(n)[::-1]
    return df


def random_mesh(rng: random.Random, cols: list) -> dict:
    """A likelihood evaluated on a regular grid."""
    cols = cols[:2]
    sizes = [rng.choice([9, 12, 17, 24]) for _ in cols]
    mesh = {
        "cols": cols,
        "sizes": sizes,
        "loc": [round(rng.uniform(-3, 3), 3) for _ in cols],
        "width": [rng.choice([0.01, 1.0, 1.0, 50.0]) for _ in cols],
        "tilt": round(rng.uniform(-0.6, 0.6), 2),
        "off": [round(rng.uniform(-0.8, 0.8), 3) for _ in cols],  # where the peak is, in widths off the middle
        "shuffle": rng.choice([None, None, rng.randrange(1000)]),
    }
    return {"seed": 0, "n": int(np.prod(sizes)), "cols": [{"name": c, "kind": "mesh"} for c in cols], "mesh": mesh}


def build_mesh(m: dict) -> pd.DataFrame:
    axes = [loc + w * np.linspace(-3, 3, k) for loc, w, k in zip(m["loc"], m["width"], m["sizes"])]
    points = [x.ravel() for x in np.meshgrid(*axes, indexing="ij")]
    z = [(x - loc) / w - o for x, loc, w, o in zip(points, m["loc"], m["width"], m["off"])]
    q = sum(v**2 for v in z)
    if len(z) > 1:
        q = q + 2 * m["tilt"] * z[0] * z[1]
    df = pd.DataFrame(dict(zip(m["cols"], points)))
    df["weight"] = np.exp(-0.5 * q) + 1e-12
    df["log_posterior"] = -0.5 * q
    if m["shuffle"] is not None:
        order = np.random.default_rng(m["shuffle"]).permutation(len(df))
        df = df.iloc[order]
    return df
