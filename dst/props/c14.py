"""C14: convergence verdicts are what the walkers as held now say, for any sampling history that produced them."""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

from dst.kernel import Tracer, random_fault
from dst.world import close_figures, run_read

SHRINK = ["steps", "chains"]

NAMES = ["alpha", "model A", "A", "z 1"]
COLS = ["a", "b", "c", "d", "e", "f", "g", "h", "k"]


def generate(rng, tier):
    chains = []
    for nm in rng.sample(NAMES, rng.choice([1, 1, 2, 3])):
        m = rng.choice([1, 2, 3, 4, 4, 6, 8, 16])
        cols = rng.sample(COLS, rng.choice([1, 2, 3, 9 if m == 1 else 4]))
        n = rng.choice([20, 30, 50, 99, 100, 200])
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            faults.append({
                "f": rng.choice(["stall", "restart", "drift", "displaced", "slow", "stuck", "wide", "lost", "frozen"]),
                "walker": rng.randrange(m), "col": rng.randrange(len(cols)), "at": rng.randrange(n), "len": rng.randint(1, n),
                "size": rng.choice([0.02, 0.2, 1.0, 5.0]), "end": rng.random() < 0.5,
            })
        chains.append({
            "name": nm, "m": m, "n": n, "cols": cols, "seed": rng.randrange(10**6), "rho": rng.choice([0.0, 0.3, 0.7]),
            "loc": rng.choice([0.0, 3.0, 1000.0]), "scale": rng.choice([1e-4, 1.0, 50.0]), "faults": faults,
            "weights": rng.random() < 0.3, "posterior": rng.random() < 0.4, "front": rng.random() < 0.4,
            "index": rng.choice(["range", "range", "offset", "walker"]), "shift": rng.random() < 0.15,
        })
    steps = []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.12:
            steps.append({"s": "resume", "k": rng.randrange(3), "fault": {
                "f": rng.choice(["stall", "restart", "drift", "displaced", "wide"]), "walker": rng.randrange(16),
                "col": rng.randrange(4), "at": rng.randrange(200), "len": rng.randint(5, 100), "size": rng.choice([0.2, 3.0]),
                "end": rng.random() < 0.5}})
        elif r < 0.2:
            steps.append({"s": "walkers", "k": rng.randrange(3), "m": rng.choice([1, 2, 4, 5, 10])})
        elif r < 0.27:
            steps.append({"s": rng.choice(["remove", "readd", "divide"]), "k": rng.randrange(3)})
        elif r < 0.34:
            steps.append({"s": "read", "op": {"r": rng.choice(["walks", "maxpost", "cov"]), "n": rng.randrange(3)}})
        else:
            step = {"s": "judge", "what": rng.choice(["gelman_rubin", "gelman_rubin", "geweke"]),
                    "sel": rng.choice(["none", "name", "chain", "list", "list"]), "ks": [rng.randrange(3) for _ in range(rng.choice([1, 2, 2, 3]))],
                    "mix": rng.randrange(8), "strange": rng.random() < 0.15, "place": rng.choice(["default", "default", "above", "below", "fixed"]), "who": rng.randrange(8),
                    "fixed": rng.choice([0.001, 0.01, 0.1, 0.3, 0.9]),
                    "first": rng.choice([0.1, 0.1, 0.2, 0.25, 0.5]), "last": rng.choice([0.5, 0.5, 0.3, 0.25])}
            if rng.random() < 0.15:
                step["fault"] = random_fault(rng, 50)
            steps.append(step)
    return {"chains": chains, "steps": steps}


def disturb(x: np.ndarray, f: dict, scale: float, g) -> None:
    """A sampler fault, in the record x of one walker (steps by parameters), in place."""
    n, d = x.shape
    a = f["at"] % n
    b = min(n, a + f["len"])
    j = f["col"] % d
    size = f["size"] * scale
    if f["f"] == "stall":  # the walker rejects every proposal for a while
        x[a:b] = x[a]
    elif f["f"] == "restart":  # picked up again somewhere else
        x[a:, j] += size
    elif f["f"] == "drift":
        x[:, j] += np.linspace(0, size, n)
    elif f["f"] == "displaced":
        x[:, j] += size
    elif f["f"] == "slow":
        x[:, j] = np.cumsum(g.normal(0, size * 0.2, n)) + x[0, j]
    elif f["f"] == "stuck":
        x[:, j] = x[a, j]
    elif f["f"] == "wide":
        x[:, j] = x[:, j].mean() + (x[:, j] - x[:, j].mean()) * (1 + f["size"])
    elif f["f"] == "lost":  # the last stretch was never written: earlier steps stand in for it
        k = max(1, (b - a) // 2)
        x[n - k:] = x[:k].copy()


def sample(spec: dict) -> np.ndarray:
    """Simulates the ensemble: (walkers, steps, parameters)."""
    g = np.random.default_rng(spec["seed"])
    m, n, d = spec["m"], spec["n"], len(spec["cols"])
    rho = spec["rho"]
    e = g.normal(0, 1, (m, n, d))
    x = np.empty_like(e)
    x[:, 0] = e[:, 0]
    for t in range(1, n):
        x[:, t] = rho * x[:, t - 1] + math.sqrt(1 - rho * rho) * e[:, t]
    x = spec["loc"] + spec["scale"] * x
    for f in spec["faults"]:
        if f["f"] == "frozen":
            # never moved at all: every walker at the same value, each at its own, or one of them only.  Whole numbers,
            # so that the arithmetic is exact
            j = f["col"] % d
            for w in range(m):
                if f["end"] or w == f["walker"] % m:
                    x[w, :, j] = float(f["at"] % 7 - 3 + (w if f["len"] % 2 else 0))
        else:
            disturb(x[f["walker"] % m], f, spec["scale"], g)
    return x


def make(spec: dict):
    from chainconsumer import Chain

    x = sample(spec)
    g = np.random.default_rng(spec["seed"] + 1)
    rows = x.reshape(-1, x.shape[2])
    cols = {c: rows[:, j] for j, c in enumerate(spec["cols"])}
    extra = {}
    if spec["weights"]:
        extra["weight"] = g.uniform(0.5, 2, len(rows))
    if spec["posterior"]:
        extra["log_posterior"] = -g.gamma(2, 3, len(rows))
    frame = pd.DataFrame(extra | cols if spec["front"] else cols | extra)
    if spec["index"] == "offset":
        frame.index = frame.index + 1000
    elif spec["index"] == "walker":  # step numbers, repeated for every walker
        frame.index = np.tile(np.arange(spec["n"]), spec["m"])
    return Chain(samples=frame, name=spec["name"], walkers=spec["m"], shift_params=spec["shift"])


def walkers_of(chain) -> np.ndarray:
    cols = [c for c in chain.samples.columns if c not in (chain.weight_column, chain.posterior_column)]
    rows = np.array([chain.samples[c].to_numpy(dtype=np.longdouble) for c in cols]).T
    return rows.reshape(chain.walkers, -1, len(cols))


def frozen(x: np.ndarray) -> bool:
    """One value throughout, and a whole number: any way of working out its variance gives exactly zero."""
    return bool(np.all(x == x[0]) and x[0] == np.rint(x[0]) and abs(x[0]) < 1e6)


def rhat(x: np.ndarray):
    """Per parameter, the deviation from one under both published readings of the pooled variance; None if undefined."""
    m, n, d = x.shape
    out = []
    for j in range(d):
        means = x[:, :, j].mean(axis=1)
        b = n * ((means - means.mean()) ** 2).sum() / (m - 1)
        w = (((x[:, :, j] - means[:, None]) ** 2).sum(axis=1) / (n - 1)).mean()
        noise = 1e-14 * (np.abs(x[:, :, j]).max() ** 2)
        if all(frozen(x[i, :, j]) for i in range(m)):
            out.append((math.inf, math.inf))  # no variance to compare with: nothing shows that the walkers agree
            continue
        if w <= 1e6 * noise:
            return None  # (nearly) no variance within the walkers: nothing to compare with
        v1 = (n - 1) / n * w + b / n
        v2 = v1 + b / (n * m)
        out.append(tuple(float(abs(np.sqrt(v / w) - 1)) for v in (v1, v2)))
    return out


def spectral(x: np.ndarray) -> float:
    """Spectral density at zero frequency of an AR(2) fit (Yule-Walker)."""
    n = len(x)
    x = x - x.mean()
    r = np.array([(x[: n - k] * x[k:]).sum() / (n - k) for k in range(3)])
    if r[0] <= 0 or abs(r[0] ** 2 - r[1] ** 2) < 1e-9 * r[0] ** 2:
        return math.nan
    det = r[0] ** 2 - r[1] ** 2
    b1 = (r[1] * r[0] - r[2] * r[1]) / det
    b2 = (r[2] * r[0] - r[1] ** 2) / det
    s2 = r[0] - b1 * r[1] - b2 * r[2]
    if s2 <= 1e-9 * r[0]:
        return math.nan
    return float(s2 / (1 - b1 - b2) ** 2)


def geweke_p(x: np.ndarray, first: float, last: float):
    """The possible p-values (where a cut falls exactly between two steps, rounding may put it on either side)."""
    from scipy.stats import normaltest

    m, n, d = x.shape
    if m * d < 8:
        return None

    def cuts(v):
        near = round(v)
        return {near - 1, near} if abs(v - near) < 1e-9 else {math.floor(v)}

    out = []
    for start in cuts(first * n):
        for end in cuts((1 - last) * n):
            if start < 5 or n - end < 5:
                return None
            z = []
            for w in range(m):
                for j in range(d):
                    a, b = x[w, :start, j], x[w, end:, j]
                    if frozen(x[w, :, j]):
                        z.append(math.nan)  # no spectrum at all: this walker has not converged
                        continue
                    if len(np.unique(a)) < 4 or len(np.unique(b)) < 4:
                        return None
                    # conditioning: the spread must be visible next to the value
                    if min(a.std(), b.std()) < 1e-9 * np.abs(x[w, :, j]).max():
                        return None
                    s = spectral(a) / len(a) + spectral(b) / len(b)
                    if not math.isfinite(s) or s <= 0:
                        return None
                    z.append(float((a.mean() - b.mean()) / math.sqrt(s)))
            if any(math.isnan(v) for v in z):
                out.append(-1.0)
                continue
            p = float(normaltest(z)[1])
            if not math.isfinite(p):
                return None
            out.append(p)
    return out


def verdict(what, chain, threshold, step):
    """True, False, or None where the reference does not decide."""
    x = walkers_of(chain)
    if what == "gelman_rubin":
        r = rhat(x)
        if r is None:
            return None
        votes = set()
        for k in (0, 1):
            worst = max(v[k] for v in r)
            if abs(worst - threshold) <= 1e-7 * threshold + 1e-10:
                return None
            votes.add(worst < threshold)
    else:
        ps = geweke_p(x, step["first"], step["last"])
        if ps is None or any(abs(p - threshold) <= 1e-5 * threshold + 1e-12 for p in ps):
            return None
        votes = {p > threshold for p in ps}
    return votes.pop() if len(votes) == 1 else None


def threshold_for(step, chains) -> float:
    """Where to put the bar: at the default, somewhere, or right next to what one of the chains measures."""
    if step["place"] == "default":
        return 0.05
    if step["place"] == "fixed":
        return step["fixed"]
    x = walkers_of(chains[step["who"] % len(chains)])
    if step["what"] == "gelman_rubin":
        r = rhat(x) if x.shape[0] > 1 else None
        if r is None or any(math.isinf(v) for pair in r for v in pair):
            return 0.05
        return max(max(v) for v in r) * 1.002 if step["place"] == "above" else max(min(v) for v in r) * 0.998 or 0.05
    ps = geweke_p(x, step["first"], step["last"])
    if ps is None or min(ps) < 0:
        return 0.05
    return max(ps) * 1.002 if step["place"] == "above" else min(ps) * 0.998


def execute(trace, ctx):
    from chainconsumer import ChainConsumer

    if not trace["chains"]:
        return
    cc = ChainConsumer()
    chains = [make(s) for s in trace["chains"]]
    specs = [dict(s) for s in trace["chains"]]
    for c in chains:
        cc.add_chain(c)
    held = {c.name: c for c in chains}
    # Chains the consumer does not hold, under the names of some which it does
    strangers = {s["name"]: make({**s, "seed": s["seed"] + 77, "faults": [] if s["faults"] else [
        {"f": "displaced", "walker": 0, "col": 0, "at": 0, "len": 10, "size": 5.0, "end": True},
        {"f": "drift", "walker": 0, "col": 0, "at": 0, "len": 10, "size": 5.0, "end": True}]}) for s in specs}
    for i, step in enumerate(trace["steps"]):
        where = f"step {i} {step}"
        kind = step["s"]
        k = step.get("k", 0) % len(chains)
        chain, spec = chains[k], specs[k]
        if kind == "resume":
            # the sampler went on, and the record the user holds is brought up to date in place
            x = walkers_of(chain).astype(float)
            w = step["fault"]["walker"] % len(x)
            disturb(x[w], step["fault"], spec["scale"], np.random.default_rng(i))
            rows = x.reshape(-1, x.shape[2])
            cols = [c for c in chain.samples.columns if c not in (chain.weight_column, chain.posterior_column)]
            for j, c in enumerate(cols):
                chain.samples[c] = rows[:, j]
            ctx.stat("fault:sampler-" + step["fault"]["f"])
        elif kind == "walkers":
            if len(chain.samples) % step["m"] == 0:
                chain.walkers = step["m"]
        elif kind == "remove":
            if len(held) > 1 and chain.name in held:
                cc.remove_chain(chain)
                del held[chain.name]
        elif kind == "readd":
            if chain.name not in held:
                cc.add_chain(chain)
                held[chain.name] = chain
        elif kind == "divide":
            if chain.walkers > 1:
                parts = chain.divide()
                ctx.check(len(parts) == chain.walkers, "divide-count", where)
        elif kind == "read":
            run_read(cc, {**step["op"]})
            close_figures()
        else:
            names = list(held)
            if step["sel"] == "none":
                asked, arg = list(held.values()), None
            else:
                asked = [held[names[q % len(names)]] for q in step["ks"]]
                asked = asked if step["sel"] == "list" else asked[:1]
                if step.get("strange") and step["sel"] != "name":
                    asked = [strangers[c.name] for c in asked]
                arg = [c if step["mix"] >> q & 1 or c is strangers[c.name] else c.name for q, c in enumerate(asked)]
                if step["sel"] == "name":
                    arg = asked[0].name
                elif step["sel"] == "chain":
                    arg = asked[0]
            what = step["what"]
            threshold = threshold_for(step, asked)
            legal = what == "geweke" or all(c.walkers > 1 for c in asked)
            kw = {"threshold": threshold} if step["place"] != "default" else {}
            if what == "geweke" and (step["first"], step["last"]) != (0.1, 0.5):
                kw |= {"first": step["first"], "last": step["last"]}
            if any(walkers_of(c).shape[1] * step["first"] < 3 for c in asked) and what == "geweke":
                continue  # too few steps for a spectrum at all
            tracer = Tracer(fault=step.get("fault"))
            if step.get("fault"):
                ctx.stat("offered:" + step["fault"]["kind"])
            try:
                with tracer:
                    got = getattr(cc.diagnostic, what)(arg, **kw) if arg is not None or kw else getattr(cc.diagnostic, what)()
            except (KeyboardInterrupt, MemoryError):
                if not tracer.fired:
                    raise
                ctx.stat("fault:" + step["fault"]["kind"])
                continue
            except (AssertionError, np.linalg.LinAlgError):
                if legal and what == "gelman_rubin":
                    raise
                ctx.log(i, "refused")
                continue
            ctx.stat("steps")
            ctx.stat("lines", tracer.lines)
            if not ctx.check(legal, "verdict-on-one-walker", where):
                return
            want = {c.name: verdict(what, c, threshold, step) for c in asked}
            ctx.check(list(got.results) == list(want), "verdict-chains", f"{where}: {list(got.results)} vs {list(want)}")
            ctx.check(bool(got) is bool(got.passed) and bool(got.passed) == all(got.results.values()), "verdict-conjunction", f"{where}: {got}")
            for name, v in want.items():
                if v is None:
                    ctx.stat("undecided")
                    continue
                ctx.stat("probe:" + what + ("-pass" if v else "-fail"))
                if not ctx.check(bool(got.results[name]) == v, f"{what}-verdict", f"{where}: {name} threshold {threshold}: {got}"):
                    return
            ctx.log(i, what, [bool(v) for v in got.results.values()])
            ctx.state(what, step["place"], step["sel"], sorted(str(v) for v in want.values()),
                      sorted({f["f"] for s in trace["chains"] for f in s["faults"]}), [c.walkers for c in asked])
    for s in trace["chains"]:
        for f in s["faults"]:
            ctx.stat("fault:sampler-" + f["f"])
