"""A second process (other hash seed, other working directory) that executes functions of this package on request.

Parent:  Helper(env, dir).ask("module", "function", args...)  ->  function(state, *args) as computed there.
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys


class Died(Exception):
    pass


class RemoteError(Exception):
    pass


def _read(f):
    head = f.read(8)
    if len(head) < 8:
        return None
    n, = struct.unpack("<q", head)
    body = f.read(n)
    return body if len(body) == n else None


def _write(f, body):
    f.write(struct.pack("<q", len(body)))
    f.write(body)
    f.flush()


class Helper:
    def __init__(self, hashseed, cwd):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        os.makedirs(cwd, exist_ok=True)
        self.p = subprocess.Popen([sys.executable, "-m", "pbt.helper"], cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, module, function, *args):
        try:
            _write(self.p.stdin, pickle.dumps((module, function, args)))
            body = _read(self.p.stdout)
        except OSError:
            body = None
        if body is None:
            raise Died("the other process died (%s)" % self.p.wait())
        ok, value = pickle.loads(body)
        if not ok:
            raise RemoteError(value)
        return value


def main():
    import traceback

    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    src = os.fdopen(os.dup(0), "rb")
    from pbt import worker  # noqa: F401 (Hypothesis, quiet logging)
    state = {}
    while True:
        body = _read(src)
        if body is None:
            os._exit(0)
        try:
            module, function, args = pickle.loads(body)
            value = True, getattr(importlib.import_module("pbt." + module), function)(state, *args)
            answer = pickle.dumps(value)
        except Exception:
            answer = pickle.dumps((False, traceback.format_exc()[-1500:]))
        _write(out, answer)


if __name__ == "__main__":
    main()
