"""Thin helpers around the code under test."""
import contextlib
import importlib
import os
import sys

import numpy as np

import bm25s
from bm25s.tokenization import Tokenized

from .core import HarnessError, expect

REPO = os.environ.get("VERIF_REPO", "/repo")
if not os.path.abspath(bm25s.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise HarnessError("bm25s was imported from %s, not from %s" % (bm25s.__file__, REPO))


def build(p, docs, backend="numpy", create_empty_token=True, cls=None, **kw):
    r = (cls or bm25s.BM25)(backend=backend, **p, **kw)
    r.index(docs, create_empty_token=create_empty_token, show_progress=False)
    return r


def tokenized(docs, vocab):
    return Tokenized(ids=[[vocab[t] for t in d] for d in docs], vocab=dict(vocab))


def retrieve(r, queries, k, **kw):
    kw.setdefault("show_progress", False)
    return r.retrieve(queries, k=k, **kw)


def results(r, queries, k, **kw):
    """retrieve as a tuple and check the shapes."""
    res = retrieve(r, queries, k, **kw)
    docs, scores = res.documents, res.scores
    n = len(queries.ids) if isinstance(queries, Tokenized) else len(queries)
    expect(np.shape(docs) == (n, k) and np.shape(scores) == (n, k),
           "result shapes %s / %s, expected %s", np.shape(docs), np.shape(scores), (n, k))
    return np.asarray(docs), np.asarray(scores)


def all_scores(r, query, n):
    """Scores of all n documents for a list of token strings, via get_scores (empty: zeros)."""
    if len(query) == 0:
        return np.zeros(n)
    s = r.get_scores(list(query))
    return np.array(s, dtype=np.float64)


def close(a, b, t, what):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    expect(a.shape == b.shape, "%s: shapes %s and %s", what, a.shape, b.shape)
    bad = ~(np.abs(a - b) <= t)
    if bad.any():
        j = int(np.argmax(bad.ravel()))
        expect(False, "%s: %r instead of %r at %d (tolerance %g)", what, float(a.ravel()[j]), float(b.ravel()[j]), j,
               float(np.broadcast_to(t, a.shape).ravel()[j]))


_copies = {}
DEPENDENCIES = {"orjson": ["orjson"], "numba": ["numba"], "jax": ["jax", "jax.lax", "jax.numpy"], "tqdm": ["tqdm", "tqdm.auto"], "Stemmer": ["Stemmer"],
                "resource": ["resource"]}


@contextlib.contextmanager
def missing(names):
    """As on a machine where the optional dependencies `names` are not installed."""
    modules = [m for n in names for m in DEPENDENCIES[n]]
    had = {m: sys.modules[m] for m in modules if m in sys.modules}
    for m in modules:
        sys.modules[m] = None
    try:
        yield
    finally:
        for m in modules:
            if m in had:
                sys.modules[m] = had[m]
            else:
                sys.modules.pop(m, None)


def without(names):
    """A second copy of the package, imported where the dependencies `names` are missing."""
    key = tuple(sorted(names))
    if key not in _copies:
        mine = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "bm25s" or k.startswith("bm25s.")}
        try:
            with missing(key):
                m = importlib.import_module("bm25s")
                for sub in ("tokenization", "utils.json_functions", "utils.corpus", "utils.beir", "utils.benchmark", "hf"):
                    importlib.import_module("bm25s." + sub)
        finally:
            for k in list(sys.modules):
                if k == "bm25s" or k.startswith("bm25s."):
                    del sys.modules[k]
            sys.modules.update(mine)
        if m is bm25s:
            raise HarnessError("no second copy of bm25s")
        _copies[key] = m
    return _copies[key]


def alt():
    """A second copy of the package, imported as on a machine without orjson."""
    return without(["orjson"])


def impl(name):
    """The package with the JSON implementation `name` ("default" or "builtin")."""
    return alt() if name == "builtin" else bm25s


def foreign_locale():
    """Text files the package opens without naming an encoding get cp1252, as on many Windows systems
    (no such locale is installed here)."""
    import builtins
    import io

    real = io.open

    def patched(file, mode="r", buffering=-1, encoding=None, *args, **kw):
        if encoding is None and isinstance(mode, str) and "b" not in mode:
            f = sys._getframe(1)
            for _ in range(3):
                if f is None:
                    break
                if f.f_globals.get("__name__", "").split(".")[0] == "bm25s":
                    encoding = "cp1252"
                    break
                f = f.f_back
        return real(file, mode, buffering, encoding, *args, **kw)

    builtins.open = io.open = patched
