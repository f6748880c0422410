"""Comparable, picklable digests of anything the package returns, and their tolerant comparison."""

from __future__ import annotations

import math
from enum import Enum

import numpy as np
import pandas as pd


def digest(v):
    from matplotlib.figure import Figure

    from .figdig import fig_digest

    if v is None or isinstance(v, bool | str | bytes):
        return v
    if isinstance(v, Enum):
        return ("enum", v.value)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, int | np.integer):
        return int(v)
    if isinstance(v, float | np.floating):
        return float(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object or v.dtype.kind in "US":
            return ("array-o", v.shape, [digest(x) for x in v.ravel().tolist()])
        return np.array(v)
    if isinstance(v, pd.DataFrame):
        return ("frame", list(map(str, v.columns)), [np.array(v[c]) for c in v.columns], [str(i) for i in v.index])
    if isinstance(v, pd.Series):
        return ("series", str(v.name), [str(i) for i in v.index], np.array(v))
    if isinstance(v, dict):
        return ("dict", [(digest(k), digest(x)) for k, x in v.items()])
    if isinstance(v, list | tuple):
        return ["seq", *[digest(x) for x in v]]
    if isinstance(v, set | frozenset):
        return ("set", sorted(map(repr, v)))
    if isinstance(v, Figure):
        return ("figure", fig_digest(v))
    if hasattr(v, "model_fields_set") and hasattr(type(v), "model_fields"):
        return (type(v).__name__, [(k, digest(getattr(v, k))) for k in type(v).model_fields])
    return ("object", type(v).__name__)


def diff(a, b, rtol=1e-7, path="") -> str | None:
    """None when equal, otherwise where and how they differ."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if a.size == 0:
            return None
        if a.dtype.kind in "fiucb" and b.dtype.kind in "fiucb":
            fa, fb = a.astype(complex if "c" in (a.dtype.kind, b.dtype.kind) else float), b.astype(
                complex if "c" in (a.dtype.kind, b.dtype.kind) else float
            )
            if rtol == 0:
                bad = ~((fa == fb) | (np.isnan(fa) & np.isnan(fb)))
            else:
                both = np.concatenate([np.abs(fa).ravel(), np.abs(fb).ravel()])
                scale = np.max(both[np.isfinite(both)], initial=0.0)
                bad = ~np.isclose(fa, fb, rtol=rtol, atol=rtol * 1e-2 * scale, equal_nan=True)
            if bad.any():
                i = int(np.argmax(bad.ravel()))
                return f"{path}: element {i}: {fa.ravel()[i]!r} vs {fb.ravel()[i]!r} ({int(bad.sum())} of {a.size} differ)"
            return None
        return None if (a == b).all() else f"{path}: arrays differ"
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b or a == b else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, int | float) and isinstance(b, int | float):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return None
        if rtol and math.isclose(a, b, rel_tol=rtol, abs_tol=1e-300):
            return None
        return f"{path}: {a!r} vs {b!r}"
    if type(a) is not type(b):
        return f"{path}: {_short(a)} vs {_short(b)}"
    if isinstance(a, list | tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}: {_short(a)} vs {_short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            label = f"{path}[{i}]"
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                label = f"{path}.{x[0]}"
            d = diff(x, y, rtol, label)
            if d:
                return d
        return None
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} vs {list(b)}"
        for k in a:
            d = diff(a[k], b[k], rtol, f"{path}.{k}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {_short(a)} vs {_short(b)}"


def _short(v) -> str:
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."
