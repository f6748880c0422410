"""A structural digest of a matplotlib figure: what is drawn where, in numbers and strings."""

from __future__ import annotations

import numpy as np
from matplotlib.colors import to_hex


def _hex(c):
    try:
        return to_hex(c, keep_alpha=True)
    except (ValueError, TypeError):
        return str(c)


def _text(t):
    return (
        t.get_text(),
        np.asarray(t.get_position(), dtype=float),
        _hex(t.get_color()),
        float(t.get_fontsize()),
        str(t.get_fontweight()),
        float(t.get_rotation()),
        bool(t.get_visible()),
    )


def _arr(v):
    v = np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)
    return np.array(v, dtype=float)


def _line(ln):
    return (
        "line",
        _arr(ln.get_xdata()),
        _arr(ln.get_ydata()),
        _hex(ln.get_color()),
        str(ln.get_linestyle()),
        float(ln.get_linewidth()),
        str(ln.get_marker()),
        float(ln.get_markersize()),
        ln.get_alpha(),
        float(ln.get_zorder()),
    )


def _collection(c):
    paths = [np.array(p.vertices, dtype=float) for p in c.get_paths()]
    array = c.get_array()
    cmap = c.get_cmap().name if array is not None else None
    return (
        type(c).__name__,
        _arr(c.get_offsets()),
        paths,
        [_hex(x) for x in np.atleast_2d(c.get_facecolor())[:40]] if array is None else [],
        [_hex(x) for x in np.atleast_2d(c.get_edgecolor())[:40]] if array is None else [],
        _arr(array) if array is not None else None,
        cmap,
        c.get_alpha() if not isinstance(c.get_alpha(), np.ndarray) else _arr(c.get_alpha()),
        np.asarray(c.get_linewidth(), dtype=float),
        str(c.get_linestyle()),
        _arr(c.get_sizes()) if hasattr(c, "get_sizes") else None,
        float(c.get_zorder()),
    )


def _patch(p):
    return (
        type(p).__name__,
        np.array(p.get_path().vertices, dtype=float) if p.get_path() is not None else None,
        _hex(p.get_facecolor()),
        _hex(p.get_edgecolor()),
        p.get_alpha(),
        float(p.get_linewidth()),
        str(p.get_linestyle()),
        float(p.get_zorder()),
    )


def tick_texts(axis):
    """The labels an axis shows: (major, minor, offset)."""
    if not axis.get_visible():
        return [], [], ""
    lo, hi = sorted(axis.get_view_interval())
    span = (hi - lo) * 1e-9

    def vis(ticks, labels):
        out = []
        for loc, lab in zip(ticks, labels):
            if lab.get_text() and lab.get_visible() and lo - span <= loc <= hi + span:
                out.append(lab.get_text())
        return out

    major_labels = axis.get_majorticklabels()
    major = vis(axis.get_majorticklocs(), major_labels)
    minor_labels = axis.get_minorticklabels()
    minor = vis(axis.get_minorticklocs(), minor_labels)
    offset = axis.get_offset_text()
    # What drawing would write there, whether or not the figure was drawn yet
    return major, minor, axis.get_major_formatter().get_offset() if offset.get_visible() else ""


def ax_digest(ax, ticks: bool = True):
    d = [
        ("axes-class", type(ax).__name__),
        ("position", np.asarray(ax.get_position().bounds, dtype=float)),
        ("visible", bool(ax.get_visible())),
        ("axison", bool(ax.axison)),
        ("frame", bool(ax.get_frame_on())),
        ("xlim", np.asarray(ax.get_xlim(), dtype=float)),
        ("ylim", np.asarray(ax.get_ylim(), dtype=float)),
        ("xscale", ax.get_xscale()),
        ("yscale", ax.get_yscale()),
        ("title", ax.get_title()),
        ("xlabel", ax.get_xlabel()),
        ("ylabel", ax.get_ylabel()),
        ("spines", [(k, bool(s.get_visible())) for k, s in ax.spines.items()]),
        ("lines", [_line(x) for x in ax.lines]),
        ("collections", [_collection(x) for x in ax.collections]),
        ("patches", [_patch(x) for x in ax.patches]),
        ("texts", [_text(x) for x in ax.texts]),
        ("images", len(ax.images)),
        ("containers", len(ax.containers)),
        ("artists", len(ax.artists)),
    ]
    leg = ax.get_legend()
    if leg is not None:
        d.append(
            (
                "legend",
                [
                    (t.get_text(), _hex(t.get_color()), str(t.get_fontweight()), float(t.get_fontsize()))
                    for t in leg.get_texts()
                ]
                + [_line(h) for h in leg.get_lines()],
            )
        )
    if ticks:
        d.append(("xticks", [list(x) if isinstance(x, list) else x for x in tick_texts(ax.xaxis)]))
        d.append(("yticks", [list(x) if isinstance(x, list) else x for x in tick_texts(ax.yaxis)]))
    return d


def fig_digest(fig, ticks: bool = True):
    return [
        ("size", np.asarray(fig.get_size_inches(), dtype=float)),
        ("dpi", float(fig.get_dpi())),
        ("fig-texts", [_text(t) for t in fig.texts]),
        ("fig-lines", len(fig.lines)),
        ("fig-patches", len(fig.patches)),
        ("fig-legends", len(fig.legends)),
        ("fig-images", len(fig.images)),
        ("axes", [ax_digest(a, ticks) for a in fig.axes]),
    ]


def all_texts(fig) -> list[str]:
    """Every visible string of the figure, in order."""
    out = []
    if fig._suptitle is not None:
        out.append("suptitle:" + fig._suptitle.get_text())
    for t in fig.texts:
        if t.get_visible():
            out.append("fig:" + t.get_text())
    for i, ax in enumerate(fig.axes):
        if not ax.get_visible():
            continue
        for loc in ("left", "center", "right"):
            if ax.get_title(loc=loc):
                out.append(f"ax{i}:title:{ax.get_title(loc=loc)}")
        for t in ax.texts:
            if t.get_visible():
                out.append(f"ax{i}:text:{t.get_text()}")
        leg = ax.get_legend()
        if leg is not None:
            out += [f"ax{i}:legend:{t.get_text()}" for t in leg.get_texts()]
        if not ax.axison:
            continue
        out.append(f"ax{i}:xlabel:{ax.get_xlabel()}")
        out.append(f"ax{i}:ylabel:{ax.get_ylabel()}")
        for which, axis in (("x", ax.xaxis), ("y", ax.yaxis)):
            major, minor, offset = tick_texts(axis)
            out += [f"ax{i}:{which}tick:{m}" for m in major]
            out += [f"ax{i}:{which}minor:{m}" for m in minor]
            if offset:
                out.append(f"ax{i}:{which}offset:{offset}")
    return out
