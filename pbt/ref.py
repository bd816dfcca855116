"""Reference oracles.  Plain float64 / plain Python, no code shared with /repo."""
import math
import re
from collections import Counter

import numpy as np

METHODS = ["robertson", "lucene", "atire", "bm25l", "bm25+"]


# ---------------------------------------------------------------- BM25

def idf(kind, df, n):
    if kind == "robertson":
        return max(0.0, math.log((n - df + 0.5) / (df + 0.5)))
    if kind == "lucene":
        return math.log(1.0 + (n - df + 0.5) / (df + 0.5))
    if kind == "atire":
        return math.log(n / df)
    if kind == "bm25l":
        return math.log((n + 1.0) / (df + 0.5))
    if kind == "bm25+":
        return math.log((n + 1.0) / df)
    raise AssertionError(kind)


def tfc(kind, tf, ld, avg, k1, b, delta):
    """Term frequency component; for tf == 0 only BM25L and BM25+ are non-zero."""
    if tf == 0:
        if kind == "bm25l":
            return (k1 + 1.0) * delta / (k1 + delta)
        if kind == "bm25+":
            return float(delta)
        return 0.0
    norm = 1.0 - b + b * ld / avg
    if kind in ("robertson", "lucene"):
        return tf / (k1 * norm + tf)
    if kind == "atire":
        return tf * (k1 + 1.0) / (tf + k1 * norm)
    if kind == "bm25l":
        c = tf / norm
        return (k1 + 1.0) * (c + delta) / (k1 + c + delta)
    if kind == "bm25+":
        return (k1 + 1.0) * tf / (k1 * norm + tf) + delta
    raise AssertionError(kind)


class Index:
    """Scores of a corpus given as lists of (hashable) tokens."""

    def __init__(self, docs, k1=1.5, b=0.75, delta=0.5, method="lucene", idf_method=None, **_):
        self.n = len(docs)
        self.lens = [len(d) for d in docs]
        self.avg = sum(self.lens) / max(1, self.n)
        self.k1, self.b, self.delta = float(k1), float(b), float(delta)
        self.method, self.idf_method = method, idf_method or method
        self.post = {}
        for i, d in enumerate(docs):
            for t, tf in Counter(d).items():
                self.post.setdefault(t, []).append((i, tf))
        self.cache = {}

    def token(self, t):
        """-> (scores, magnitudes) of one query token."""
        if t in self.cache:
            return self.cache[t]
        post = self.post.get(t)
        if not post:
            r = None
        else:
            w = idf(self.idf_method, len(post), self.n)
            base = w * tfc(self.method, 0, 0, self.avg, self.k1, self.b, self.delta)
            s = np.full(self.n, base)
            m = np.full(self.n, abs(base))
            for i, tf in post:
                s[i] = w * tfc(self.method, tf, self.lens[i], self.avg, self.k1, self.b, self.delta)
                m[i] = abs(s[i]) + 2 * abs(base)
            r = (s, m)
        self.cache[t] = r
        return r

    def scores(self, query, dtype="float32"):
        """-> (expected scores, tolerance) for a list of tokens."""
        s, m = np.zeros(self.n), np.zeros(self.n)
        n = 0
        for t, mult in Counter(query).items():
            r = self.token(t)
            if r is not None:
                s += mult * r[0]
                m += mult * r[1]
                n += mult
        return s, tol(m, n, dtype)


def tol(magnitude, terms, dtype):
    """Rounding allowed: a few ulps of the score type per term (for float64, of the logarithm of
    numbers close to one as well)."""
    if str(dtype) == "float32":
        return (terms + 12) * 1.2e-7 * magnitude + 1e-9
    return (terms + 12) * 5e-12 * magnitude + 1e-15


# ---------------------------------------------------------------- tokenization

def split(text, pattern, lower):
    if lower:
        text = text.lower()
    return re.compile(pattern).findall(text)


# ---------------------------------------------------------------- top-k

def check_topk(scores_ret, ids_ret, scores, k, sorted_, tolr, what):
    """ids/scores returned for one query against the full score vector `scores` (with tolerance
    `tolr`, scalar or per document)."""
    from .core import expect

    n = len(scores)
    ids = [int(i) for i in np.asarray(ids_ret).tolist()]
    vals = np.asarray(scores_ret, dtype=np.float64)
    scores = np.asarray(scores, dtype=np.float64)
    t = np.broadcast_to(np.asarray(tolr, dtype=np.float64), (n,))
    expect(len(ids) == k and vals.shape == (k,), "%s: %d results instead of %d", what, len(ids), k)
    expect(all(0 <= i < n for i in ids), "%s: invalid document index in %s", what, ids[:50])
    expect(len(set(ids)) == k, "%s: duplicate documents %s", what, ids[:50])
    d = np.abs(vals - scores[ids])
    bad = ~(d <= t[ids])
    if bad.any():
        j = int(np.argmax(bad))
        expect(False, "%s: document %d returned with score %r, its score is %r (tol %g)", what, ids[j],
               float(vals[j]), float(scores[ids[j]]), float(t[ids[j]]))
    if k < n:
        left = np.ones(n, dtype=bool)
        left[ids] = False
        lo = np.min(scores[ids] + t[ids])
        over = np.where(left, scores - t, -np.inf)
        j = int(np.argmax(over))
        expect(over[j] <= lo, "%s: document %d (score %r) left out although one with %r is returned", what, j,
               float(scores[j]), float(np.min(scores[ids])))
    if sorted_ and k > 1:
        expect(bool(np.all(vals[1:] <= vals[:-1])), "%s: scores not in non-increasing order: %s", what,
               vals[:30].tolist())
