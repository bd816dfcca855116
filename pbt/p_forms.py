"""C04: equivalent input forms of corpus and query agree."""
import collections
import random

import numpy as np
from hypothesis import strategies as st

from bm25s.tokenization import Tokenized

from . import gen, ref, sut
from .core import Prop, expect, register
from .p_retrieve import prof_params

INDEX_FORMS = ["list", "generator", "iter", "tuple_of_docs", "deque", "tokenized", "tuple", "object", "rawids", "rawids_gap", "rawids_generator",
               "docs_tuples", "docs_arrays", "array", "ids_tuples", "ids_arrays", "rawids_arrays", "items"]
QUERY_FORMS = ["strings", "tokenized", "tuple", "ids", "lists", "stream"]


class Obj:
    def __init__(self, ids, vocab):
        self.ids, self.vocab = ids, vocab


def numbering(words, extras, seed, order):
    """A dict word -> id with ids 0..n-1 in some order (and some insertion order)."""
    g = random.Random(seed)
    ws = list(words) + [e for e in extras if e not in set(words)]
    if order == "sorted":
        ws.sort()
    elif order == "unused first":
        w = set(words)
        ws.sort(key=lambda x: x in w)
    else:
        g.shuffle(ws)
    v = {w: i for i, w in enumerate(ws)}
    if order == "shuffled twice":
        items = list(v.items())
        g.shuffle(items)
        v = dict(items)
    return v


@register
class C04(Prop):
    pid = "C04"
    rule = ("corpus x 18 index forms x vocabulary numbering (random order, unused words anywhere, gaps for bare ids) x 6 query forms "
            "with their own numbering (also with gaps) x numpy/numba; all compared with the reference scores of the token strings; non-trivial: "
            "a query token occurs in the corpus")
    examples = dict(quick=840, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            numba = draw(st.integers(0, 4)) == 0
            c = draw(gen.corpus(max_docs=8))
            return dict(params=draw(gen.params(numba=prof if numba else None)), corpus=c, numba=numba,
                        forms=draw(st.lists(st.sampled_from(INDEX_FORMS), min_size=1, max_size=3, unique=True)),
                        qforms=draw(st.lists(st.sampled_from(QUERY_FORMS), min_size=1, max_size=4, unique=True)),
                        queries=draw(gen.queries(c, max_size=3, empty=False)),
                        extras=draw(st.lists(st.sampled_from(["unused%d" % i for i in range(5)] + gen.OOV), max_size=5, unique=True)),
                        order=draw(st.sampled_from(["sorted", "unused first", "shuffled", "shuffled twice"])),
                        seed=draw(st.integers(0, 10**6)), gaps=draw(st.sampled_from([0, 0, 2, 3, 1000003])), create=draw(st.booleans()))
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        for i in range(12):
            yield dict(params=pp, corpus=gen.big_corpus(i, [2, 900][i % 2], [70000, 30][i % 2], [40000, 4][i % 2]), numba=bool(i % 2),
                       forms=[INDEX_FORMS[(i // 2 + j) % len(INDEX_FORMS)] for j in (0, 5, 9, 14)], qforms=QUERY_FORMS, queries=[["w1", "w2", "w1"], ["w29", "zzz"]],
                       extras=["zzz", "unused1"], gaps=[0, 2][i // 2 % 2], order=["shuffled", "unused first"][i % 2], seed=i, create=True)

        # words that could be taken for ids
        for i, ws in enumerate(gen.KINDS + [["1", "22", "303", "5"]]):
            for order in ["sorted", "shuffled"]:
                yield dict(params=dict(pp, method="lucene") if i % 2 else pp, corpus=dict(words=ws, docs=[[0, 1], [1, 1, 2], [0], [len(ws) - 1] * 3, []]), numba=False,
                           forms=INDEX_FORMS, qforms=QUERY_FORMS, queries=[[w] for w in ws] + [ws, ["9", ws[0]]], extras=[["404"], []][i % 2],
                           gaps=0, order=order, seed=i, create=bool(i % 3))

    def labels(self, case):
        return gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + ["index " + f for f in case["forms"]] + [
            "query " + f for f in case["qforms"]] + ["numbering " + case["order"]] + (["unused words"] if case["extras"] else [])

    def nontrivial(self, case):
        c = case["corpus"]
        ws = None if "rng" in c else {c["words"][i] for d in c["docs"] for i in d}
        return any(ws is None or t in ws for q in case["queries"] for t in q)

    def index(self, form, case, docs):
        """-> (index, function token -> id or None)"""
        g = random.Random(case["seed"])
        words = list(gen.vocab_of(docs))
        v = numbering(words, case["extras"], case["seed"], case["order"])
        copy = [list(d) for d in docs]
        backend = "numba" if case["numba"] else "numpy"
        raw = None
        if form == "list":
            corpus = copy
        elif form == "generator":
            corpus = (d for d in copy)
        elif form == "iter":
            corpus = iter(copy)
        elif form == "tuple_of_docs":
            corpus = tuple(copy) if len(copy) != 2 else copy
        elif form == "deque":
            corpus = collections.deque(copy)
        elif form == "docs_tuples":
            corpus = [tuple(d) for d in copy]
        elif form in ("docs_arrays", "array"):
            corpus = [np.array(d, dtype=object) for d in copy]
            if form == "array":
                corpus = np.empty(len(copy), dtype=object)
                corpus[:] = copy
        elif form == "items":  # some other iterable of some other iterables
            corpus = {i: collections.deque(d) for i, d in enumerate(copy)}.values()
        elif form.startswith("rawids"):
            if form == "rawids":
                raw = {w: i for w, i in v.items()}
            else:
                pool = g.sample(range(0, 3 * len(v) + 10), len(v))
                raw = {w: pool[i] for w, i in v.items()}
            corpus = [[raw[t] for t in d] for d in docs]
            if form == "rawids_arrays":
                corpus = [np.array(d, dtype=object) for d in corpus]
            if form == "rawids_generator":
                corpus = (d for d in corpus)
        else:
            ids = [[v[t] for t in d] for d in docs]
            if form == "ids_tuples":
                ids = [tuple(d) for d in ids]
            if form == "ids_arrays":
                ids = [np.array(d, dtype=np.int32) for d in ids]
            corpus = {"ids_tuples": (ids, v), "ids_arrays": Tokenized(ids=ids, vocab=v), "tokenized": Tokenized(ids=ids, vocab=v), "tuple": (ids, v), "object": Obj(ids, v)}[form]
        r = sut.build(case["params"], corpus, backend=backend, create_empty_token=case["create"] or raw is not None)
        return r, (raw.get if raw is not None else r.vocab_dict.get), raw is not None

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p, n = case["params"], len(docs)
        model = ref.Index(docs, **p)
        present = set(gen.vocab_of(docs))
        for form in case["forms"]:
            r, idof, raw = self.index(form, case, docs)
            for qform in (["ids"] if raw else case["qforms"]):
                qs = [list(q) for q in case["queries"]]
                if qform == "strings":
                    req = qs
                elif qform == "lists":
                    req = tuple(qs)
                elif qform == "ids":
                    qs = [[t for t in q if (t in present if raw else idof(t) is not None)] for q in qs]
                    qs = [q for q in qs if q] or [[docs_word(docs)]]
                    req = [[idof(t) for t in q] for q in qs]
                else:
                    v = numbering({t for q in qs for t in q}, ["spare1", "spare2"] + sorted(present)[:3], case["seed"] + 1, case["order"])
                    if case.get("gaps"):
                        v = {w: case["gaps"] * (i + 1) - i % 2 for w, i in v.items()}
                    ids = [[v[t] for t in q] for q in qs]
                    req = Tokenized(ids=ids, vocab=v) if qform == "tokenized" else (ids, v) if qform == "tuple" else ((x for x in ids), v)
                what = "indexed as %s, queried as %s" % (form, qform)
                res = r.retrieve(req, k=n, show_progress=False, **({} if case["numba"] else dict(backend_selection="numpy")))
                D, S = np.asarray(res.documents), np.asarray(res.scores)
                expect(D.shape == (len(qs), n), "%s: shape %s", what, D.shape)
                for i, q in enumerate(qs):
                    want, t = model.scores(q, p["dtype"])
                    ref.check_topk(S[i], D[i], want, n, True, t, what + ", query %r" % q[:20])
                    if qform in ("strings", "ids"):
                        sut.close(r.get_scores(list(req[i])), want, t, "get_scores, %s, query %r" % (what, q[:20]))
                    if qform == "ids":
                        sut.close(r.get_scores_from_ids(list(req[i])), want, t, "get_scores_from_ids, %s, query %r" % (what, q[:20]))
                        sut.close(r.get_scores_from_ids(np.array(req[i])), want, t, "get_scores_from_ids(array), %s, query %r" % (what, q[:20]))


def docs_word(docs):
    return next(t for d in docs for t in d)
