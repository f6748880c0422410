"""SimDisk: real files inside a scratch directory, behind an open() that injects storage faults.

A fault plan is a list of {"at": "open"|"write"|"close"|"replace", "nth": k, "after": bytes, "errno": name}.
`nth` counts opens for writing (1-based); a `write` fault lets `after` more bytes through in total on that file
and then fails for as long as the disk is not healed (a full disk), a `close` fault surfaces when the file is
closed.  `short` plans make raw writes return early (legal; the caller must carry on).
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import sys


class SimDisk:
    def __init__(self, root: str, plan: list[dict] | None = None):
        self.root = os.path.realpath(root) + os.sep
        self.plan = plan or []
        self.opens = 0
        self.fired: list[str] = []
        self.opened: list[str] = []
        self.written: dict[str, int] = {}

    def _mine(self, file) -> str | None:
        try:
            path = os.path.realpath(os.fspath(file))
        except TypeError:
            return None
        if isinstance(path, bytes):
            return None
        return path if (path + os.sep).startswith(self.root) else None

    def _fail(self, f: dict, where: str):
        self.fired.append(f"{where}:{f['errno']}")
        code = getattr(errno, f["errno"])
        raise OSError(code, os.strerror(code))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = self._mine(file)
        if path is None or not (set(mode) & set("wax+")):
            return self._open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        self.opened.append(path)
        mine = [f for f in self.plan if f.get("nth", 1) == self.opens or f.get("sticky")]
        for f in mine:
            if f["at"] == "open":
                self._fail(f, "open")
        rawmode = "".join(c for c in mode if c in "wax+r")
        raw = _Raw(self, path, rawmode, [f for f in mine if f["at"] in ("write", "close", "short")])
        buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def __enter__(self):
        self._open = io.open
        self._b, self._i, self._rep, self._ren = builtins.open, io.open, os.replace, os.rename
        builtins.open = self.open
        io.open = self.open

        def moved(real):
            def fn(src, dst, **kw):
                for f in self.plan:
                    if f["at"] == "replace" and self._mine(dst):
                        self._fail(f, "replace")
                return real(src, dst, **kw)

            return fn

        os.replace, os.rename = moved(self._rep), moved(self._ren)
        return self

    def __exit__(self, *exc):
        builtins.open, io.open, os.replace, os.rename = self._b, self._i, self._rep, self._ren
        return False


class _Raw(io.FileIO):
    def __init__(self, disk, path, mode, faults):
        super().__init__(path, mode)
        self._disk, self._path, self._faults, self._done = disk, path, faults, 0
        self._dead = False

    def fileno(self):
        if "PIL" in sys._getframe(1).f_globals.get("__name__", ""):
            raise io.UnsupportedOperation("fileno")
        return super().fileno()

    def write(self, data):
        view = memoryview(data).cast("B")
        for f in self._faults:
            if f["at"] == "write":
                room = f["after"] - self._done
                if room <= 0 or len(view) > room:
                    if room > 0:
                        super().write(view[:room])
                        self._done += room
                    self._disk._fail(f, "write")
            elif f["at"] == "short" and len(view) > f["after"]:
                view = view[: f["after"]]
                self._disk.fired.append("short")
        n = super().write(view)
        self._done += n
        self._disk.written[self._path] = self._disk.written.get(self._path, 0) + n
        return n

    def close(self):
        was = self.closed
        super().close()
        if not was:
            for f in self._faults:
                if f["at"] == "close":
                    self._disk._fail(f, "close")


def random_plan(rng, max_files: int = 2) -> list[dict]:
    nth = rng.randint(1, max_files)
    at = rng.choice(["open", "write", "write", "write", "close", "replace"])
    f: dict = {"at": at, "nth": nth, "errno": rng.choice(["ENOSPC", "EIO", "EACCES"] if at == "open" else ["ENOSPC", "EIO"])}
    if at == "write":
        f["after"] = rng.choice([0, 1, rng.randint(2, 300), rng.randint(300, 30000)])
    return [f]
