"""C03: corrupt input is refused whole, at whatever position and by whatever route it comes; sound input is accepted."""

from __future__ import annotations

import json

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer

from dst import world
from dst.data import build_table
from dst.kernel import Tracer, random_fault
from dst.world import decode_opts

SHRINK = ["steps"]

BAD_VALUES = ["nan", "inf", "-inf", "NA"]


def prepare():
    import arviz  # noqa: F401
    import emcee  # noqa: F401


def random_flaw(rng, route):
    """Something a sound table does not have (or, for `fine`, may have)."""
    r = rng.random()
    if r < 0.5 or route != "frame":
        return {"f": "value", "row": rng.randrange(2000), "col": rng.randrange(8), "value": rng.choice(BAD_VALUES),
                "end": rng.choice(["none", "none", "first", "last"])}
    if r < 0.62:
        return {"f": "weight", "row": rng.randrange(2000), "value": rng.choice([0.0, -1.0, -0.0, -1e-300, "nan", "inf"]),
                "end": rng.choice(["none", "first", "last"])}
    return {"f": rng.choice(["empty", "nocols", "intname", "noweightcol", "walkers", "colorparam", "neff", "nfree",
                             "color", "multimodal", "area", "walkers0", "weight-nan-row"]),
            "value": rng.choice(BAD_VALUES[:3])}


def generate(rng, tier):
    steps = []
    tables = []
    for _ in range(rng.choice([1, 2, 3])):
        tables.append(world.random_table(rng, n=rng.choice([1, 2, 12, 60, 240, 1200]),
                                         weights=rng.choice([False, "weight", "wt"]),
                                         posterior=rng.choice([False, "log_posterior", "lp"])))
    fault_rate = rng.choice([0.0, 0.2])
    for _ in range(rng.randint(8, 24)):
        k = rng.randrange(3)
        route = rng.choice(["frame", "frame", "frame", "emcee", "numpyro", "arviz", "marker"])
        step = {"s": "try", "k": k, "route": route, "flaws": []}
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            step["flaws"].append(random_flaw(rng, route))
        step["reuse"] = rng.random() < 0.6  # the caller's own buffers, corrupted in place and repaired later
        step["opts"] = rng.choice([{}, {}, {"walkers": 1}, {"shift_params": True}, {"num_free_params": 2},
                                   {"num_eff_data_points": 12.5}, {"color": "red"}])
        step["dtype"] = rng.choice(["", "", "", "float32", "Float64", "object"]) if route == "frame" else ""
        if rng.random() < 0.25:
            step["extreme"] = rng.choice(["tiny-weight", "huge-weight", "huge", "tiny", "allequal", "dupindex", "overflow"])
        if rng.random() < 0.15:
            step["race"] = {"line": rng.randint(1, 60), "row": rng.randrange(2000), "col": rng.randrange(8),
                            "value": rng.choice(["nan", "inf"])}
        elif rng.random() < fault_rate:
            step["fault"] = random_fault(rng, 25)
        steps.append(step)
    return {"tables": tables, "steps": steps}


class _Posterior:
    def __init__(self, data):
        self.data = data

    def get_samples(self):
        return self.data


def at(flaw, n):
    end = flaw.get("end")
    return 0 if end == "first" else n - 1 if end == "last" else flaw["row"] % n


def bad(v):
    return np.nan if v == "NA" else float(v) if isinstance(v, str) else v


def unsound(df: pd.DataFrame, opts: dict) -> bool:
    """The reference: must this input be refused?"""
    if df.shape[0] == 0 or df.shape[1] == 0:
        return True
    if any(not isinstance(c, str) for c in df.columns):
        return True
    for c in df.columns:
        v = df[c]
        if v.isna().any():
            return True
        if not np.isfinite(np.asarray(v.tolist(), dtype=float)).all():
            return True
    wc = opts.get("weight_column", "weight")
    if wc not in df.columns:
        if wc != "weight":
            return True
    elif (np.asarray(df[wc].tolist(), dtype=float) <= 0).any():
        return True
    if opts.get("walkers", 1) < 1 or len(df) % opts.get("walkers", 1):
        return True
    cp = opts.get("color_param")
    if cp is not None and cp not in df.columns and cp != wc:
        return True
    if opts.get("num_eff_data_points") is not None and not (0 <= opts["num_eff_data_points"] < np.inf):
        return True
    if opts.get("num_free_params") is not None and opts["num_free_params"] < 0:
        return True
    if opts.get("multimodal") and opts.get("statistics", "hdi") != "hdi":
        return True
    if not (0 <= opts.get("summary_area", 0.5) <= 1):
        return True
    return opts.get("color") == "not-a-colour"


def execute(trace, ctx):
    cc = ChainConsumer()
    model: list[str] = []
    clean = [build_table(t) for t in trace["tables"]]
    held = [df.copy() for df in clean]
    from dst.data import build_table as rebuild  # noqa: F401

    for i, step in enumerate(trace["steps"]):
        k = step["k"] % len(clean)
        spec = trace["tables"][k]
        where = f"step {i} {step}"
        name = f"chain {i}"
        opts = dict(step["opts"])
        route = step["route"]
        params = [c["name"] for c in spec["cols"]]
        if spec.get("weights") and spec["weights"]["name"] != "weight":
            opts["weight_column"] = spec["weights"]["name"]
        if spec.get("posterior") and spec["posterior"]["name"] != "log_posterior":
            opts["posterior_column"] = spec["posterior"]["name"]
        df = held[k] if step["reuse"] else clean[k].copy()
        # the caller fills their buffer again with good values, then things happen to it
        for c in clean[k].columns:
            df[c] = clean[k][c].to_numpy().copy()
        df.index = clean[k].index
        n = len(df)
        wc = opts.get("weight_column", "weight")
        ext = step.get("extreme")
        if ext in ("tiny-weight", "huge-weight"):
            df[wc] = 5e-324 if ext == "tiny-weight" else 1e280
        elif ext == "huge" and not opts.get("shift_params"):
            df[params[0]] = np.linspace(-1e300, 1e300, n)
        elif ext == "overflow" and not opts.get("shift_params"):
            # Every value is finite and their total is not
            df[params[-1]] = np.where(np.arange(n) % 5 == 4, 1e308, 1.7e308)
        elif ext == "tiny":
            df[params[0]] = np.linspace(1e-320, 1e-310, n)
        elif ext == "allequal":
            df[params[0]] = 0.0
        elif ext == "dupindex":
            df.index = np.zeros(n, dtype=int)
        if step["dtype"]:
            kind = step["dtype"]
            try:
                for c in params:
                    df[c] = df[c].astype(np.float32 if kind == "float32" else kind)
            except (TypeError, ValueError):
                pass
        corrupt = False
        if route != "frame":
            for key in ("weight_column", "posterior_column", "color_param"):
                opts.pop(key, None)
            df = df[params].astype(float)
            if route in ("arviz", "emcee") and len(df) % 2:
                df = df.iloc[:-1]
            if len(df) == 0 and route != "frame":
                continue
            n = len(df)
        frame = df
        for f in step["flaws"]:
            kind = f["f"]
            if kind == "value":
                col = frame.columns[f["col"] % frame.shape[1]] if frame.shape[1] else None
                if col is None or n == 0 or not len(frame):
                    continue
                v = pd.NA if f["value"] == "NA" and str(frame[col].dtype) == "Float64" else bad(f["value"])
                if str(frame[col].dtype) not in ("object", "Float64", "float32"):
                    frame[col] = frame[col].astype(float)
                frame.iloc[at(f, len(frame)), frame.columns.get_loc(col)] = v
            elif kind == "weight" and route == "frame":
                if wc not in frame.columns:
                    frame[wc] = 1.0
                frame[wc] = frame[wc].astype(float)
                if len(frame):
                    frame.iloc[at(f, len(frame)), frame.columns.get_loc(wc)] = bad(f["value"])
            elif kind == "weight-nan-row":
                frame = pd.concat([frame, pd.DataFrame({c: [np.nan if c == wc else 1.0] for c in frame.columns})])
            elif kind == "empty":
                frame = frame.iloc[:0]
            elif kind == "nocols":
                frame = frame[[]]
            elif kind == "intname":
                frame = frame.rename(columns={params[0]: 0})
            elif kind == "noweightcol":
                opts["weight_column"] = "not there"
            elif kind == "walkers":
                opts["walkers"] = len(frame) + 1
            elif kind == "walkers0":
                opts["walkers"] = 0
            elif kind == "colorparam":
                opts["color_param"] = "not there"
            elif kind == "neff":
                opts["num_eff_data_points"] = bad(f["value"])
            elif kind == "nfree":
                opts["num_free_params"] = -1
            elif kind == "color":
                opts["color"] = "not-a-colour"
            elif kind == "multimodal":
                opts["multimodal"] = True
                opts["statistics"] = "mean"
            elif kind == "area":
                opts["summary_area"] = 1.5
        if step["reuse"] and route == "frame" and frame is not held[k]:
            held[k] = clean[k].copy()
        # ---- the call
        marker = None
        if route == "marker":
            r = step["flaws"][0]["row"] % n if step["flaws"] and "row" in step["flaws"][0] else 0
            if step["flaws"] and step["flaws"][0].get("end") != "none" and "end" in step["flaws"][0]:
                r = at(step["flaws"][0], n)
            marker = {c: float(frame[c].iloc[r]) for c in frame.columns if isinstance(c, str)}
            opts.pop("walkers", None)
            opts.pop("shift_params", None)
            expected = unsound(pd.DataFrame(marker, index=[0]), opts) if marker else True
        else:
            expected = unsound(frame, opts)
        kw = decode_opts(opts)
        if route == "emcee":
            import emcee

            cols = list(frame.columns)
            sampler = emcee.EnsembleSampler(max(2, 2 * len(cols)), len(cols), lambda p: 0.0)
            nw = 2 if len(frame) % 2 == 0 else 1
            be = sampler.backend
            be.reset(nw, len(cols))
            be.grow(len(frame) // nw, None)
            be.chain[:] = frame.to_numpy().reshape(-1, nw, len(cols))
            be.iteration = len(frame) // nw
            be.initialized = True
            target = be.chain.reshape(-1, len(cols))

            def call():
                return Chain.from_emcee(sampler, cols, name, **kw)
        elif route == "numpyro":
            data = {c: frame[c].to_numpy(dtype=float).copy() for c in frame}
            target = data

            def call():
                return Chain.from_numpyro(_Posterior(data), name, **kw)
        elif route == "arviz":
            import arviz as az

            data = {c: frame[c].to_numpy(dtype=float).copy().reshape(2, -1) for c in frame}
            idata = az.from_dict(posterior=data)
            target = {c: idata.posterior[c].values for c in data}

            def call():
                return Chain.from_arviz(idata, name, **kw)
        elif route == "marker":
            target = None

            def call():
                return cc.add_marker(marker, name, **kw)
        else:
            target = frame

            def call():
                return Chain(samples=frame, name=name, **kw)

        race = step.get("race")
        raced = False
        tracer = Tracer(fault=step.get("fault"))
        if race and target is not None:

            def writer(*_):
                nonlocal raced
                if tracer.lines == race["line"]:
                    raced = True
                    try:
                        spoil(target, race)
                    except (ValueError, TypeError, IndexError, KeyError):
                        pass

            tracer.on_line = writer
            ctx.stat("offered:concurrent-writer")
        if step.get("fault"):
            ctx.stat("offered:" + step["fault"]["kind"])
        out, error, injected = None, None, False
        with tracer:
            try:
                out = call()
            except (KeyboardInterrupt, MemoryError) as exc:
                if not tracer.fired:
                    raise
                injected, error = True, exc
            except Exception as exc:  # noqa: BLE001
                error = exc
        ctx.stat("steps")
        ctx.stat("lines", tracer.lines)
        if injected:
            ctx.stat("fault:" + step["fault"]["kind"])
        if raced:
            ctx.stat("fault:concurrent-writer")
            if step["reuse"]:
                held[k] = clean[k].copy()
        ctx.log(i, type(error).__name__, raced)
        ctx.state(route, [f["f"] for f in step["flaws"]], step["dtype"], ext, type(error).__name__, raced)
        # ---- what must be true now
        if error is None:
            chain = cc.get_chain(name) if route == "marker" else out
            for c in chain.samples.columns:
                v = np.array([np.nan if x is pd.NA or x is None else x for x in chain.samples[c].tolist()], dtype=float)
                if not ctx.check(bool(np.isfinite(v).all()), f"accepted-nonfinite:{route}", f"{where}: column {c}"):
                    return
            ctx.check(bool((chain.weights > 0).all()), f"accepted-weight:{route}", where)
            if not raced and not ctx.check(not expected, f"accepted-corrupt:{route}", where):
                return
            if route == "marker":
                model.append(name)
            else:
                cc.add_chain(chain)
                model.append(name)
            ctx.stat("accepted")
        else:
            if not injected and not raced:
                if expected:
                    ctx.stat("assertions")
                elif step["dtype"] != "object":
                    ctx.violation(f"refused-sound:{route}", f"{where}: {error!r}"[:1500])
                    return
            if route == "marker" and injected:
                # may or may not have been registered, but never half way
                if name in cc.get_names():
                    model.append(name)
            ctx.stat("refused")
        if not ctx.check(cc.get_names() == model, "registry-changed", f"{where}: {cc.get_names()} vs {model}"):
            return
    ctx.stat("bytes", len(json.dumps(trace["steps"])))


def spoil(target, race):
    v = bad(race["value"])
    if isinstance(target, pd.DataFrame):
        if target.size:
            j = race["col"] % target.shape[1]
            col = target[target.columns[j]].to_numpy()
            if col.dtype.kind == "f" and col.flags.writeable:
                col[race["row"] % len(col)] = v
            else:
                target.iloc[race["row"] % len(target), j] = v
    elif isinstance(target, dict):
        c = sorted(target)[race["col"] % len(target)]
        target[c].ravel()[race["row"] % target[c].size] = v
    else:
        target.ravel()[race["row"] % target.size] = v
