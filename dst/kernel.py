"""The simulator core: one PRNG, a fault injector and a cooperative thread scheduler.

Every choice a simulated run makes comes out of `rng_for(seed, ...)`; nothing here reads a clock, the
environment or an unseeded generator.  The code under test runs unmodified: the seam for schedules and
for asynchronous faults is the interpreter's line event (`sys.settrace`), filtered to frames whose code
lives in the package directory of the tree under test.
"""

from __future__ import annotations

import dis
import hashlib
import json
import os
import random
import sys
import threading

PACKAGE_DIR: str | None = None
FAULTS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError}


def package_dir() -> str:
    global PACKAGE_DIR
    if PACKAGE_DIR is None:
        import chainconsumer

        PACKAGE_DIR = os.path.dirname(os.path.abspath(chainconsumer.__file__)) + os.sep
    return PACKAGE_DIR


def rng_for(*parts) -> random.Random:
    digest = hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode()).digest()
    return random.Random(int.from_bytes(digest[:16], "big"))


def stable_hash(value) -> str:
    return hashlib.sha256(json.dumps(value, sort_keys=True, default=repr).encode()).hexdigest()[:16]


class StepBudgetExceeded(BaseException):
    """Simulated time ran out: the code did not finish within its budget of executed lines."""


MUTATORS = {"append", "extend", "pop", "popitem", "update", "setdefault", "clear", "insert", "remove", "add", "discard",
            "sort", "reverse", "rc", "seterr", "seed", "simplefilter", "filterwarnings", "setLevel", "chdir", "use",
            "setattr", "set_config", "set_override"}
STORES: dict = {}


def store_lines(code) -> frozenset:
    """Lines after which something other threads, or later calls, could see may have changed.

    Only a heuristic of where to strike: attributes, globals and items of attributes written, mutating methods called.
    """
    found = STORES.get(code)
    if found is None:
        lines, line, attrs = set(), None, set()
        for ins in dis.get_instructions(code):
            if ins.positions is not None and ins.positions.lineno is not None and ins.positions.lineno != line:
                line, attrs = ins.positions.lineno, set()
            if ins.opname in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL", "LOAD_NAME", "LOAD_DEREF"):
                attrs.add(ins.opname)
            if ins.opname in ("STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF"):
                lines.add(line)
            elif ins.opname in ("STORE_SUBSCR", "DELETE_SUBSCR", "STORE_SLICE") and "LOAD_ATTR" in attrs:
                lines.add(line)
            elif ins.opname in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL") and ins.argval in MUTATORS:
                lines.add(line)
        found = STORES[code] = frozenset(lines)
    return found


class Tracer:
    """Line events of package frames of this thread, counted, optionally raising at one of them."""

    def __init__(self, fault: dict | None = None, budget: int | None = None, on_line=None):
        self.pkg = package_dir()
        self.lines = 0
        self.seen: set[tuple[str, int]] = set()
        self.fault = fault
        self.fired: tuple[str, int] | None = None
        self.budget = budget
        self.on_line = on_line
        self.trail_hash = 0
        self.wrote = False  # the line before this event wrote to something that is not local
        self.stores = 0
        self.store_seen: set[tuple[str, int]] = set()

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.pkg):
            return self._frame(store_lines(frame.f_code))
        return None

    def _frame(self, stores):
        """The trace function of one frame, which knows the line it ran last."""
        if not stores:
            return self._local
        last = [0]

        def local(frame, event, arg):
            if event == "line":
                if last[0] in stores:
                    self.wrote = True
                    self.stores += 1
                    self.store_seen.add((frame.f_code.co_filename, last[0]))
                last[0] = frame.f_lineno
            elif event == "return" and last[0] in stores:
                self.wrote = True  # seen by the caller's next line
                self.stores += 1
                self.store_seen.add((frame.f_code.co_filename, last[0]))
            self._local(frame, event, arg)
            return local

        return local

    def _local(self, frame, event, arg):
        if event != "line":
            return self._local
        self.lines += 1
        wrote, self.wrote = self.wrote, False
        key = (frame.f_code.co_filename, frame.f_lineno)
        novel = key not in self.seen
        if novel:
            self.seen.add(key)
        if self.budget is not None and self.lines > self.budget:
            self.budget = None
            raise StepBudgetExceeded(f"{frame.f_code.co_name}")
        f = self.fault
        if f is not None and self.fired is None:
            mode = f["mode"]
            at = {"novel": len(self.seen), "raw": self.lines, "store": len(self.store_seen)}[mode]
            if at >= f["k"] and (mode == "raw" or (novel if mode == "novel" else wrote)):
                self.fired = (frame.f_code.co_name, frame.f_lineno)
                raise FAULTS[f["kind"]]("injected")
        if self.on_line is not None:
            self.on_line(novel, wrote)
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
        return False


class Scheduler:
    """Real threads, of which exactly one runs at any time; who runs next is decided by `decisions`.

    `decisions` is a list of [lines, pick]: let the current client run for that many line events inside the
    package, then hand over to runnable client number `pick` (modulo how many there are).  Once the list is
    used up, clients run to completion one after another.  `novel` counts only lines not run before in that
    client (True), or only lines that follow a write to something shared ("store").
    """

    def __init__(self, decisions: list[list[int]], novel: bool | str = False, stuck_after: float = 20.0):
        self.decisions = list(decisions)
        self.novel = novel
        self.pos = 0
        self.left = decisions[0][0] if decisions else None
        self.sems: list[threading.Semaphore] = []
        self.alive: list[bool] = []
        self.current = 0
        self.switches: list[tuple[int, int, str]] = []
        self.stuck_after = stuck_after
        self.main = threading.Semaphore(0)
        self.progress = 0
        self.forced = 0

    def _next(self, pick: int) -> int | None:
        runnable = [i for i, a in enumerate(self.alive) if a]
        if not runnable:
            return None
        return runnable[pick % len(runnable)]

    def _pop(self) -> int:
        pick = self.decisions[self.pos][1] if self.pos < len(self.decisions) else 0
        self.pos += 1
        self.left = self.decisions[self.pos][0] if self.pos < len(self.decisions) else None
        return pick

    def _point(self, me: int, novel: bool, wrote: bool, frame_name: str = "") -> None:
        self.progress += 1
        if self.left is None:
            return
        if self.novel and not (wrote if self.novel == "store" else novel):
            return
        self.left -= 1
        if self.left > 0:
            return
        target = self._next(self._pop())
        if target is None or target == me:
            return
        self.switches.append((me, target, frame_name))
        self.current = target
        self.sems[target].release()
        self.sems[me].acquire()

    def run(self, clients) -> list:
        """clients: list of (callable(tracer) -> result, fault or None)."""
        results: list = [None] * len(clients)
        self.sems = [threading.Semaphore(0) for _ in clients]
        self.alive = [True] * len(clients)
        tracers = []

        def body(i, fn, fault):
            self.sems[i].acquire()
            tracer = Tracer(fault=fault, on_line=lambda novel, wrote: self._point(i, novel, wrote))
            tracers.append(tracer)
            try:
                results[i] = fn(tracer)
            except BaseException as exc:  # noqa: BLE001
                results[i] = ("crash", repr(exc))
            finally:
                sys.settrace(None)
                self.alive[i] = False
                target = self._next(self._pop() if self.left is not None else 0)
                if target is None:
                    self.main.release()
                else:
                    self.switches.append((i, target, "end"))
                    self.current = target
                    self.sems[target].release()

        threads = [
            threading.Thread(target=body, args=(i, fn, fault), daemon=True) for i, (fn, fault) in enumerate(clients)
        ]
        for t in threads:
            t.start()
        first = self._next(self._pop() if self.left is not None else 0)
        self.current = first
        self.sems[first].release()
        while True:
            before = self.progress
            if self.main.acquire(timeout=self.stuck_after):
                break
            if self.progress == before and any(self.alive):
                # The running client waits for something a parked client holds (a real lock): let others go on.
                self.forced += 1
                if self.forced > 20:
                    return [r if r is not None else ("crash", "deadlock") for r in results]
                others = [i for i, a in enumerate(self.alive) if a and i != self.current]
                if others:
                    self.current = others[self.forced % len(others)]
                    self.sems[self.current].release()
        for t in threads:
            t.join(5)
        self.lines = sum(t.lines for t in tracers)
        return results


def random_fault(rng: random.Random, kmax: int = 120) -> dict:
    kind = rng.choice(["KeyboardInterrupt", "MemoryError", "KeyboardInterrupt"])
    if rng.random() < 0.2:
        return {"kind": kind, "mode": "store", "k": rng.choice([1, 1, 2, 3, 5, 8, 13])}
    if rng.random() < 0.75:
        return {"kind": kind, "mode": "novel", "k": rng.randint(1, kmax)}
    return {"kind": kind, "mode": "raw", "k": int(2 ** rng.uniform(0, 12))}


def random_decisions(rng: random.Random, n_clients: int) -> tuple[list[list[int]], bool]:
    style = rng.random()
    n = rng.randint(5, 120)
    if rng.random() < 0.25:
        return [[rng.choice([1, 1, 1, 2, 3]), rng.randrange(n_clients)] for _ in range(3 * n)], "store"
    if style < 0.12:
        return [[rng.randint(1, 2), rng.randrange(n_clients)] for _ in range(6 * n)], True
    if style < 0.35:
        return [[rng.randint(1, 6), rng.randrange(n_clients)] for _ in range(n)], True
    if style < 0.6:
        return [[rng.randint(1, 3), rng.randrange(n_clients)] for _ in range(4 * n)], False
    return [[int(2 ** rng.uniform(0, 9)), rng.randrange(n_clients)] for _ in range(n)], False
