"""Shared strategies.  Everything they produce is JSON."""
import random

from hypothesis import strategies as st

from .ref import METHODS

# words of awkward kinds next to plain ones (no lone surrogates)
WORDS = ["cat", "dog", "feline", "a", "b", "c", "x1", "the"]
ODD = ["été", "naïve", "ß", "İstanbul", "\u65e5\u672c", "\U0001f600", "e\u0301", "\u00e9", "0", "1", "-1", "1.0",
       " ", "a b", "\t", "\n", "\r\n", "\u2028", "\u0085", "\ufeff", "\x00", "a\x00", "\x1f", "\\", "\"", "'", "\\u00e9",
       "null", "true", "NaN", "__proto__", "{}", "CAT", "Cat", "caT", "\ufb01", "fi", "x" * 300, "\x7f", "\ud7ff", "\uffff"]

# words that something other than a string could be taken for
KINDS = [["0", "1", "2", "10", "303", "7"], ["0", "-1", "+2", "007", "1_0"], ["1.0", "1e3", ".5", "inf", "NaN"], ["True", "False", "None", "null"],
         ["(1,)", "[0]", "{}", "()"], ["0x1", "0b1", "\u0661", "\u00b2", "\uff11"]]

text_char = st.characters(exclude_categories=["Cs"])


def words(min_size=1, max_size=8, odd=True, empty=False):
    pool = [st.sampled_from(WORDS)]
    if odd:
        pool += [st.sampled_from(WORDS), st.sampled_from(ODD), st.text(text_char, min_size=1, max_size=5)]
    s = st.one_of(pool)
    if empty:
        s = st.one_of(s, s, s, s, s, st.just(""))
    mixed = st.lists(s, min_size=min_size, max_size=max_size, unique=True)
    if not odd:
        return mixed
    # now and then words all of one kind
    return st.integers(0, 11).flatmap(lambda i: mixed if i > 1 else st.lists(
        st.integers(0, 30 if i else 10**6).map(str) if i == 0 else st.sampled_from(KINDS).flatmap(st.sampled_from),
        min_size=min_size, max_size=max_size, unique=True))


@st.composite
def docs_over(draw, n_words, min_docs=1, max_docs=10, max_len=8, empty_docs=True):
    """Documents as lists of word numbers; frequent repeats of tokens and of whole documents."""
    n = draw(st.integers(min_docs, max_docs))
    out = []
    idx = st.integers(0, n_words - 1)
    for _ in range(n):
        kind = draw(st.integers(0, 9))
        if kind == 0 and out:
            out.append(list(out[draw(st.integers(0, len(out) - 1))]))  # a tie
        elif kind == 1 and empty_docs:
            out.append([])
        elif kind == 2:
            w, c = draw(idx), draw(st.sampled_from([2, 3, 10, 130, 300]))
            out.append([w] * c + draw(st.lists(idx, max_size=3)))
        else:
            out.append(draw(st.lists(idx, min_size=0 if empty_docs else 1, max_size=max_len)))
    return out


@st.composite
def corpus(draw, odd=True, empty_word=False, big=True, nonempty=False, max_docs=10, min_docs=1):
    """{"words": [...], "docs": [[i, ...]]} or {"rng": {...}} (expanded by expand())."""
    if big and draw(st.integers(0, 11)) == 0:
        return {"rng": dict(
            seed=draw(st.integers(0, 10**6)),
            docs=draw(st.sampled_from([20, 37, 64, 130, 257, 400])),
            vocab=draw(st.sampled_from([3, 10, 50, 300, 1000])),
            length=draw(st.sampled_from([1, 3, 10, 40])),
            minlen=1 if nonempty else 0,
        )}
    w = draw(words(odd=odd, empty=empty_word))
    d = draw(docs_over(len(w), min_docs=min_docs, max_docs=max_docs, empty_docs=not nonempty))
    if nonempty:
        d = [x or [0] for x in d]
    elif not any(d):
        d[0] = [0]
    return {"words": w, "docs": d}


def big_corpus(seed=7, docs=300, vocab=100, length=5, minlen=0, marks=False, every=False):
    """marks: documents of their own kind at the ends and around powers of two (the best ones for the word "w1");
    every: all documents begin with "w0"."""
    return {"rng": dict(seed=seed, docs=docs, vocab=vocab, length=length, minlen=minlen, **(dict(marks=True) if marks else {}),
                        **(dict(every=True) if every else {}))}


def mark_positions(n):
    out = [0, 1, 2, n // 2, n - 4, n - 3, n - 2, n - 1]
    for e in range(8, 18):
        out += [2 ** e - 1, 2 ** e, 2 ** e + 1]
    return sorted({i for i in out if 0 <= i < n})


_cache = {}


def expand(c):
    """-> list of documents, each a list of token strings."""
    if "rng" in c:
        r = c["rng"]
        key = tuple(sorted(r.items()))
        if key not in _cache:
            if len(_cache) > 4:
                _cache.clear()
            g = random.Random(r["seed"])
            v, mx = r["vocab"], r["length"]
            out = []
            for i in range(r["docs"]):
                n = g.randint(r.get("minlen", 0), mx)
                # half skewed towards frequent words, half uniform (rare words)
                out.append(["w%d" % (int(v * g.random() ** 3) if g.random() < 0.5 else g.randrange(v))
                            for _ in range(n)])
            if r.get("marks"):
                pos = mark_positions(len(out))
                g.shuffle(pos)
                for j, i in enumerate(pos):
                    out[i] = ["w1"] * (3 + j)
            if r.get("every"):
                out = [["w0"] + d for d in out]
            if not any(out):
                out[0] = ["w0"]
            _cache[key] = out
        return [list(d) for d in _cache[key]]
    w = c["words"]
    return [[w[i] for i in d] for d in c["docs"]]


def vocab_of(docs):
    seen = {}
    for d in docs:
        for t in d:
            if t not in seen:
                seen[t] = len(seen)
    return seen


OOV = ["zzz", "qqq-unknown", "\u00fcnknown", "CATS", "w999999", "cat ", "\U0001f40d"]


@st.composite
def query_tokens(draw, c, min_size=1, max_size=6, oov=True, known_first=False):
    """A list of token strings for corpus spec `c` (from its words, sometimes unknown ones)."""
    n = draw(st.integers(min_size, max_size))
    out = []
    for _ in range(n):
        if oov and draw(st.integers(0, 5)) == 0:
            out.append(draw(st.sampled_from(OOV)))
        elif "rng" in c:
            out.append("w%d" % draw(st.integers(0, c["rng"]["vocab"] - 1)))
        else:
            out.append(draw(st.sampled_from(c["words"])))
    if out and draw(st.integers(0, 14)) == 0:
        out = out * draw(st.sampled_from([2, 5, 40, 260 // len(out) + 1]))
    return out


@st.composite
def queries(draw, c, min_size=1, max_size=4, empty=True, oov=True):
    n = draw(st.integers(min_size, max_size))
    out = []
    for _ in range(n):
        kind = draw(st.integers(0, 9))
        if empty and kind == 0:
            out.append([])
        elif empty and kind == 1:
            out.append(draw(st.lists(st.sampled_from(OOV), min_size=1, max_size=3)))
        elif kind == 2 and out:
            out.append(list(out[draw(st.integers(0, len(out) - 1))]))
        else:
            out.append(draw(query_tokens(c, oov=oov)))
    return out


@st.composite
def params(draw, numba=None, dtypes=True):
    """Constructor arguments.  numba: a shard profile to restrict the types to."""
    method = draw(st.sampled_from(METHODS))
    if numba is not None:
        method = draw(st.sampled_from(["bm25l", "bm25+"] if numba["nnoc"] else ["robertson", "lucene", "atire"]))
    p = dict(
        k1=draw(st.one_of(st.sampled_from([1.5, 1.2, 0.9, 2, 1, 0.001, 50, 0, 0.0]), st.floats(0.03, 8).map(lambda x: round(x, 4)))),
        b=draw(st.one_of(st.sampled_from([0.75, 0.4, 0, 1, 0.0, 1.0, 1e-4, 1e-7, 1e-9]), st.floats(0, 1).map(lambda x: round(x, 4)))),
        delta=draw(st.one_of(st.sampled_from([0.5, 1, 0, 1.5]), st.floats(0, 3).map(lambda x: round(x, 4)))),
        method=method,
        idf_method=draw(st.one_of(st.none(), st.none(), st.sampled_from(METHODS))),
    )
    if p["k1"] == 0 and (method == "bm25+" or (method == "bm25l" and p["delta"] == 0)):
        p["k1"] = 1.5  # 0 / 0 for documents without the token
    if numba is not None:
        p.update(dtype=numba["dtype"], int_dtype=numba["int_dtype"])
    elif dtypes:
        p.update(dtype=draw(st.sampled_from(["float32", "float32", "float64"])),
                 int_dtype=draw(st.sampled_from(["int32", "int32", "int64"])))
    return p


def is_nnoc(p):
    return p["method"] in ("bm25l", "bm25+")


def pick_k(draw, n):
    return draw(st.one_of(st.integers(1, min(n, 12)), st.just(n), st.integers(1, n), st.just(max(1, n - 1))))


def labels_params(p):
    out = ["method=" + p["method"], "dtype=%s/%s" % (p.get("dtype", "float32"), p.get("int_dtype", "int32"))]
    if p.get("idf_method") and p["idf_method"] != p["method"]:
        out.append("mixed idf")
    if p["b"] in (0, 1):
        out.append("b at bound")
    return out


def labels_corpus(c):
    if "rng" in c:
        return ["corpus: random large"]
    out = ["corpus: small"]
    if any(len(d) == 0 for d in c["docs"]):
        out.append("has empty document")
    if any(len(d) > 100 for d in c["docs"]):
        out.append("has tf>100 document")
    if len({tuple(sorted(d)) for d in c["docs"]}) < len(c["docs"]):
        out.append("duplicate documents (ties)")
    return out
