"""Pieces shared by the property modules: snapshots of a live consumer, faulted reads, a model of the world."""

from __future__ import annotations

import copy
import os

from .digest import digest
from .disk import SimDisk
from .kernel import Tracer
from .world import View, close_figures, prepare_read, run_read


def chain_snapshot(chain):
    fields = [(k, digest(getattr(chain, k))) for k in type(chain).model_fields if k != "samples"]
    df = chain.samples
    return [("fields", fields), ("samples", digest(df)), ("dtypes", [str(t) for t in df.dtypes])]


def consumer_snapshot(view: View):
    cc = view.cc
    return [
        ("names", list(cc.get_names())),
        ("chains", [(c.name, chain_snapshot(c)) for c in view.chains]),
        ("registered", [cc.get_chain(n) is c for n, c in zip(cc.get_names(), view.chains)]),
        ("truths", [digest(t) for t in view.truths]),
        ("config", digest(cc.plotter.config)),
        ("override", digest(view.override)),
    ]


def reset_rc() -> None:
    """Text drawn on a user's own axes depends on the two rc settings the plotter is documented to set (see C10)."""
    import matplotlib

    matplotlib.rcParams["text.usetex"] = False
    matplotlib.rcParams["font.family"] = ["sans-serif"]


def fill_op(op: dict, scratch: str) -> dict:
    """Resolves a relative file name inside the scratch directory."""
    if "filename" in op:
        op = dict(op)
        f = op["filename"]
        op["filename"] = [os.path.join(scratch, x) for x in f] if isinstance(f, list) else os.path.join(scratch, f)
    return op


def disturbed_read(cc, op: dict, fault: dict | None, ctx, keep=None, axes=None, plan=None):
    """Runs one read under an injected fault.

    Returns (status, digest or error name, fired): status ok / err / injected.
    """
    op = fill_op(op, ctx.scratch)
    disk = SimDisk(ctx.scratch, plan)
    injected: list = []
    reset_rc()
    call = prepare_read(cc, op, keep, axes)
    with disk:
        tracer = Tracer(fault=fault)
        try:
            with tracer:
                value = call()
            status, value = "ok", digest(value)
        except (KeyboardInterrupt, MemoryError, OSError) as exc:
            if tracer.fired or disk.fired:
                status, value = "injected", type(exc).__name__
            else:
                status, value = "err", type(exc).__name__
        except Exception as exc:  # noqa: BLE001
            status, value = "err", type(exc).__name__
    if fault is not None:
        ctx.stat("offered:" + fault["kind"])
        if tracer.fired:
            ctx.stat("fault:" + fault["kind"])
            injected.append(tracer.fired[0])
    for p in plan or []:
        ctx.stat("offered:disk-" + p["at"])
    for f in disk.fired:
        ctx.stat("fault:disk-" + f)
        injected.append(f)
    ctx.stat("steps")
    ctx.stat("lines", tracer.lines)
    return status, value, injected


def pristine_read(payload, scratch=None):
    """Evaluates a claim: build the state from nothing, do the one read."""
    view = View(payload["state"])
    op = {k: v for k, v in payload["op"].items() if k != "filename"}
    reset_rc()
    try:
        value = run_read(view.cc, op)
        return ("ok", digest(value))
    except Exception as exc:  # noqa: BLE001
        return ("err", type(exc).__name__)
    finally:
        close_figures()


def frozen(state: dict) -> dict:
    return copy.deepcopy(state)
