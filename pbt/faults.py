"""Faults injected into file operations below a directory."""
import builtins
import contextlib
import errno
import io
import os
import resource
import sys

from .core import Violation


class Crash(BaseException):
    """Stands for an interrupt at a file operation."""


_state = None
_installed = False
EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.link", "os.truncate", "os.rmdir", "shutil.copyfile", "shutil.move"}


def _hook(event, args):
    s = _state
    if s is None or event not in EVENTS or not args:
        return
    paths = [a for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))]
    if not any(os.path.abspath(os.fsdecode(p)).startswith(s["root"]) for p in paths):
        return
    s["seen"] += 1
    if s["seen"] == s["at"]:
        s["fired"] = True
        if s["error"]:
            raise OSError(errno.ENOSPC, "%s at file operation %d fails" % (event, s["at"]))
        raise Crash("%s at file operation %d" % (event, s["at"]))


class Writer:
    """A file opened for writing whose writes are counted; one of them fails, once."""

    def __init__(self, f, info):
        self.__dict__.update(f=f, info=info)

    def count(self):
        self.info["seen"] += 1
        if self.info["seen"] == self.info["at"]:
            self.info["fired"] = True
            raise OSError(errno.ENOSPC, "write %d fails" % self.info["at"])

    def write(self, data):
        self.count()
        return self.f.write(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __setattr__(self, name, value):
        setattr(self.f, name, value)

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *exc):
        return self.f.__exit__(*exc)

    def __iter__(self):
        return iter(self.f)

    def __next__(self):
        return next(self.f)


@contextlib.contextmanager
def failing_writes(info):
    old = builtins.open, io.open

    def opened(file, mode="r", *args, **kwargs):
        f = old[0](file, mode, *args, **kwargs)
        if set(mode) & set("wax+") and isinstance(file, (str, bytes, os.PathLike)) and os.path.abspath(os.fsdecode(file)).startswith(info["root"]):
            return Writer(f, info)
        return f

    builtins.open = io.open = opened
    try:
        yield
    finally:
        builtins.open, io.open = old


@contextlib.contextmanager
def fault(spec, root):
    """spec: None, ["event", n] (interrupted at the n-th file operation below `root`), ["error", n]
    (that operation fails), ["write", n] (the n-th write to a file below `root` fails, the ones after
    it do not) or ["size", n] (no file can become longer than n bytes, as on a full disk)."""
    global _state, _installed
    info = dict(root=os.path.abspath(root), seen=0, at=None, fired=False, error=False)
    if spec is None:
        yield info
    elif spec[0] == "write":
        info["at"] = spec[1]
        with failing_writes(info):
            yield info
    elif spec[0] in ("event", "error"):
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        info.update(at=spec[1], error=spec[0] == "error")
        _state = info
        try:
            yield info
        finally:
            _state = None
    else:
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (spec[1], old[1]))
        try:
            yield info
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)


def attempt(spec, root, fn):
    """Runs fn under the fault; True if it completed."""
    try:
        with fault(spec, root):
            fn()
    except Crash:
        return False
    except Violation:
        raise
    except Exception:
        if spec is None:
            raise
        return False
    return True
