"""A second, differently disposed interpreter: other hash seed, ambient generators, clock, directory and environment.

It has the package imported and evaluates each request in a fork of itself, so every evaluation is pristine.
"""

from __future__ import annotations

import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile

from . import runner

_helper = None
_serial = 0


def _read(f, n):
    buf = b""
    while len(buf) < n:
        chunk = f.read(n - len(buf))
        if not chunk:
            raise EOFError
        buf += chunk
    return buf


def start() -> None:
    """In the worker, before any simulated process is forked from it."""
    global _helper
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str((int(env.get("PYTHONHASHSEED") or 0) * 31 + 7919) % 4294967295)
    env.update({"TZ": "Asia/Kathmandu", "LANG": "C", "COLUMNS": "33", "LINES": "9", "USER": "someone", "DST_ALIEN": "1",
                "SOURCE_DATE_EPOCH": "86400"})
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env["PYTHONPATH"] = os.pathsep.join(p for p in (env.get("PYTHONPATH"), root) if p)
    _helper = subprocess.Popen(
        [sys.executable, "-m", "dst.alien"], cwd="/", env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0
    )


def ask(pid: str, payload):
    """Evaluates a payload over there.  Called from a fork of the worker; requests never overlap."""
    global _serial
    _serial += 1
    serial = f"{os.getpid()}-{_serial}"
    data = pickle.dumps((serial, pid, payload))
    pipe = _helper.stdin
    pipe.write(struct.pack("<Q", len(data)))
    view = memoryview(data)
    while view:
        view = view[pipe.write(view):]
    while True:
        (n,) = struct.unpack("<Q", _read(_helper.stdout, 8))
        got, value = pickle.loads(_read(_helper.stdout, n))
        if got == serial:  # an answer to a request given up earlier is skipped
            return value


def serve() -> None:
    import random
    import time

    import numpy as np

    requests, answers = sys.stdin.buffer.raw, os.fdopen(os.dup(1), "wb", buffering=0)
    os.dup2(2, 1)
    scratch = tempfile.mkdtemp(prefix="ccdst-alien-")
    os.chdir(scratch)
    runner.prepare()
    real = time.time
    time.time = lambda: real() + 3.2e8  # the clock has jumped by ten years
    np.random.seed(987654321)
    random.seed("somewhere else")
    np.random.normal(size=17)
    try:
        while True:
            try:
                (n,) = struct.unpack("<Q", _read(requests, 8))
            except EOFError:
                return
            serial, pid, payload = pickle.loads(_read(requests, n))
            prop = runner.load_prop(pid)
            out = tempfile.mkdtemp(dir=scratch)
            status, value = runner.in_child(lambda: prop.over_there(payload, out), 80.0)  # noqa: B023
            shutil.rmtree(out, ignore_errors=True)
            data = pickle.dumps((serial, (status, value)))
            answers.write(struct.pack("<Q", len(data)))
            view = memoryview(data)
            while view:
                view = view[answers.write(view):]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    serve()
