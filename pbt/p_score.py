"""C01 formula, C06 algebra."""
import random

import numpy as np
from hypothesis import strategies as st

from . import gen, ref, sut
from .core import Prop, expect, register


def index_with_extras(case, docs):
    """Index the documents; case["extras"]: words put in the vocabulary that no document uses."""
    p = case["params"]
    backend = "numba" if case.get("via") == "numba" else "numpy"
    if case.get("extras") is None:
        return sut.build(p, docs, backend=backend)
    g = random.Random(case["shuffle"])
    ws = list(gen.vocab_of(docs))
    ws += [e for e in case["extras"] if e not in set(ws)]
    g.shuffle(ws)
    vocab = {w: i for i, w in enumerate(ws)}
    return sut.build(p, sut.tokenized(docs, vocab), backend=backend)


def scores_via(case, r, q, n):
    via = case["via"]
    if via == "get_scores":
        return sut.all_scores(r, q, n)
    if via == "ids" and q:
        ids = [r.vocab_dict[t] for t in q if t in r.vocab_dict]
        return np.array(r.get_scores_from_ids(ids), dtype=np.float64)
    if via == "scorer":
        r.activate_numba_scorer()
        return sut.all_scores(r, q, n)
    bs = "auto" if via in ("numba", "auto") else "numpy"
    docs, scores = sut.results(r, [q], n, backend_selection=bs)
    out = np.full(n, np.nan)
    out[docs[0].astype(int)] = scores[0]
    return out


def extra_words(draw):
    return draw(st.one_of(st.none(), st.lists(st.sampled_from(gen.OOV + ["extra%d" % i for i in range(6)]),
                                              max_size=5, unique=True)))


@register
class C01(Prop):
    pid = "C01"
    rule = ("corpus x variant x idf x k1,b,delta x types x observation (get_scores, ids, compiled scorer, retrieve on "
            "numpy/auto/numba) drawn at random; non-trivial: some query has a token that occurs in a document")
    examples = dict(quick=675, thorough=40000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            via = draw(st.sampled_from(["get_scores"] * 5 + ["retrieve", "ids", "scorer", "numba", "numba"]))
            p = draw(gen.params(numba=prof if via in ("numba", "scorer") else None))
            c = draw(gen.corpus())
            q = draw(gen.queries(c, max_size=3))
            return dict(params=p, corpus=c, queries=q, via=via, extras=extra_words(draw),
                        shuffle=draw(st.integers(0, 999)))
        return f()

    def fixed(self, ctx):
        P = [dict(k1=1.5, b=0.75, delta=0.5, method=m, idf_method=i, dtype=d, int_dtype=t)
             for m, i, d, t in [("lucene", None, "float32", "int32"), ("bm25l", "atire", "float64", "int64"),
                                ("bm25+", "robertson", "float32", "int64"), ("robertson", "bm25l", "float64", "int32"),
                                ("atire", "lucene", "float32", "int32"), ("bm25+", None, "float64", "int32")]]
        for n, p in enumerate(P):
            big = [gen.big_corpus(1, 40000, 20, 2), gen.big_corpus(2, 900, 80000, 120),
                   dict(words=["a", "b", "c"], docs=[[0] * 70000 + [1], [1], [0, 2], []]),
                   gen.big_corpus(3, 3, 60000, 70000, 66000), dict(words=["a"], docs=[[0]] * 500),
                   gen.big_corpus(5, 70000, 5, 1)][n]
            w = ["w0", "w1", "w19", "w300", "w66000", "a", "b", "zzz"]
            qs = [w, ["w0"] * 300, ["a", "a"], ["w%d" % i for i in range(0, 900, 2)]]
            for via in ["get_scores", "retrieve"]:
                yield dict(params=p, corpus=big, queries=qs, via=via, extras=["zzz"] if n % 2 else None, shuffle=n)

        # many words together with many documents, or with long documents
        for n, (c, qs) in enumerate([
                (gen.big_corpus(11, 220, 150000, 2500), [["w%d" % j for j in range(i, 150000, 997)] for i in (0, 5)] + [["w17"]]),
                (gen.big_corpus(12, 70000, 3000, 2, every=True), [["w0"], ["w0", "w2999"], ["w%d" % j for j in range(1, 3000, 7)]])]):
            for m in (P[0], P[1]):
                yield dict(params=m, corpus=c, queries=qs, via=["get_scores", "retrieve"][n], extras=None, shuffle=n)
        # more than 2**20 entries
        yield dict(params=P[0], corpus=gen.big_corpus(13, 17000, 30000, 150), queries=[["w0", "w29999"], ["w5"], ["w%d" % j for j in range(7, 30000, 977)]],
                   via="retrieve", extras=None, shuffle=0)
        # term frequencies beyond 2**8 and 2**16, on their own and with others
        g = random.Random(3)
        for i in range(20):
            tf = [65537, 65540, 257, 33000, 131073, 300][i % 6]
            p = dict(k1=[1.5, 200.0, 100000.0, 2.0][i % 4], b=[0.0, 0.75, 0.3][i % 3], delta=0.5, method=ref.METHODS[i % 5], idf_method=[None, "lucene"][i % 2],
                     dtype=["float32", "float64"][i // 3 % 2], int_dtype="int32")
            yield dict(params=p, corpus=dict(words=["a", "b", "c"], docs=[[0] * tf + [1], [0] * 2 + [1] * g.randint(1, 400), [2], [1, 2], [2] * 3]),
                       queries=[["a"], ["b"], ["a", "b", "a"]], via=["get_scores", "retrieve", "ids"][i % 3], extras=None, shuffle=i)

    def labels(self, case):
        out = gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + ["via " + case["via"]]
        if case["extras"]:
            out.append("vocabulary words in no document")
        if any(len(set(q)) < len(q) for q in case["queries"]):
            out.append("repeated query token")
        return out

    def nontrivial(self, case):
        known = None if "rng" in case["corpus"] else set(
            case["corpus"]["words"][i] for d in case["corpus"]["docs"] for i in d)
        return any(t[0:1] == "w" if known is None else t in known for q in case["queries"] for t in q)

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p = case["params"]
        r = index_with_extras(case, docs)
        model = ref.Index(docs, **p)
        for q in case["queries"]:
            want, t = model.scores(q, p["dtype"])
            got = scores_via(case, r, q, len(docs))
            sut.close(got, want, t, "score of query %r (%s)" % (q[:20], case["via"]))


@register
class C06(Prop):
    pid = "C06"
    rule = ("corpus x parameters x query, with a random permutation of documents, of the tokens of every document, of the "
            "query, a random injective renaming, and a random split of the query; non-trivial: at least two documents and "
            "two query tokens")
    examples = dict(quick=700, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            via = draw(st.sampled_from(["get_scores"] * 6 + ["retrieve", "numba"]))
            p = draw(gen.params(numba=prof if via == "numba" else None))
            c = draw(gen.corpus(min_docs=2))
            return dict(params=p, corpus=c, query=draw(gen.query_tokens(c, min_size=1, max_size=8)), via=via,
                        perm=draw(st.integers(0, 10**6)), extras=extra_words(draw), shuffle=draw(st.integers(0, 99)),
                        rename=draw(st.sampled_from(["prefix", "reverse", "numbers", "unicode"])),
                        tf=draw(st.lists(st.integers(0, 12), min_size=2, max_size=5)), pad=draw(st.sampled_from([0] * 8 + [1, 7, 100, 3000, 5000])))
        return f()

    def fixed(self, ctx):
        for i, m in enumerate(ref.METHODS):
            yield dict(params=dict(k1=1.2, b=0.5, delta=0.7, method=m, idf_method=None, dtype="float32", int_dtype="int32"),
                       corpus=gen.big_corpus(i, 3000, 50, 6), query=["w1", "w2", "w1", "zzz", "w49"], via="get_scores",
                       perm=i, extras=None, shuffle=1, rename="prefix", tf=[0, 1, 300, 2])
        for i in range(10):
            yield dict(params=dict(k1=1.2, b=[0.9, 0.4][i % 2], delta=0.7, method=ref.METHODS[i % 5], idf_method=None, dtype="float32", int_dtype="int32"),
                       corpus=gen.big_corpus(i, 6, [20, 30000][i % 2], 20000), query=["w1", "w2", "w1", "zzz", "w19"], via="get_scores",
                       perm=i, extras=None, shuffle=1, rename="prefix", tf=[1, 2, 40, 300, 301, 4000, 4001], pad=[0, 5000, 70000][i % 3])

    def labels(self, case):
        return gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + [
            "via " + case["via"], "renaming " + case["rename"]]

    def nontrivial(self, case):
        return len(case["query"]) >= 2

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p, q, n = case["params"], case["query"], len(docs)
        g = random.Random(case["perm"])
        r = index_with_extras(case, docs)
        base = scores_via(case, r, q, n)
        model = ref.Index(docs, **p)
        t = 3 * model.scores(q, p["dtype"])[1]  # the reference only supplies the rounding bound
        # additivity
        parts = sum(scores_via(case, r, [x], n) for x in q)
        sut.close(base, parts, t, "query score vs. sum of its tokens %r" % q[:20])
        cut = g.randint(0, len(q))
        halves = scores_via(case, r, q[:cut], n) + scores_via(case, r, q[cut:], n)
        sut.close(base, halves, t, "query score vs. its two halves %r" % q[:20])
        # query order
        q2 = list(q)
        g.shuffle(q2)
        sut.close(scores_via(case, r, q2, n), base, t, "reordered query %r" % q2[:20])
        # document order and token order
        perm = list(range(n))
        g.shuffle(perm)
        docs2 = []
        for i in perm:
            d = list(docs[i])
            g.shuffle(d)
            docs2.append(d)
        r2 = index_with_extras(dict(case, shuffle=case["shuffle"] + 1), docs2)
        sut.close(scores_via(case, r2, q, n), base[perm], t[perm], "reordered corpus, query %r" % q[:20])
        # renaming
        ws = sorted({x for d in docs for x in d} | set(q) | set(case["extras"] or []))
        names = {"prefix": lambda i, w: "~" + w, "reverse": lambda i, w: "n%d" % (len(ws) - i),
                 "numbers": lambda i, w: str(i), "unicode": lambda i, w: chr(0x4E00 + i % 20000) * (1 + i // 20000)}
        ren = {w: names[case["rename"]](i, w) for i, w in enumerate(ws)}
        ex = None if case["extras"] is None else [ren[e] for e in case["extras"]]
        r3 = index_with_extras(dict(case, extras=ex), [[ren[x] for x in d] for d in docs])
        sut.close(scores_via(case, r3, [ren[x] for x in q], n), base, t, "renamed tokens, query %r" % q[:20])
        # more occurrences never score lower among equally long documents
        tf = case["tf"]
        L = max(tf) + case.get("pad", 0)
        if L > 0:
            # the rest of a document: one word, or as many as there is room, or something between
            fill = lambda i, m: ["F%d" % (j % [1, L, 1, 5, L // 2 + 1][(i + case["perm"]) % 5]) for j in range(m)]
            fam = [["T"] * f + fill(i, L - f) for i, f in enumerate(tf)] + [[], ["other"]]
            rf = sut.build(p, fam)
            s = sut.all_scores(rf, ["T"], len(fam))
            tt = 2 * ref.Index(fam, **p).scores(["T"], p["dtype"])[1]
            for i in range(len(tf)):
                for j in range(len(tf)):
                    if tf[i] < tf[j]:
                        expect(s[i] <= s[j] + max(tt[i], tt[j]), "tf %d scores %r but tf %d scores %r", tf[i], s[i], tf[j], s[j])
