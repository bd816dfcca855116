"""C07: returned documents are the corpus entries of the returned indices."""
import json
import os
import random

import numpy as np
from hypothesis import strategies as st

import bm25s

from . import gen, sut
from .compare import same
from .core import Prop, expect, register
from .p_retrieve import FIXED_P, cfg, cfg_labels, config, n_docs, needs_profile, prof_params

text = st.one_of(st.sampled_from(["", "a cat", "dog", "été \U0001f600", "line\nbreak", "x" * 200, " ", "\u2028", "1", "\x00a"]),
                 st.text(gen.text_char, max_size=8)).filter(lambda s: not s.endswith("\x00"))
num = st.one_of(st.integers(-5, 5), st.integers(-2**63, 2**63 - 1))
flt = st.floats(allow_nan=False, allow_infinity=False)
leaf = st.one_of(text, num, flt, st.booleans(), st.none())
jsonv = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(text, c, max_size=3)), max_leaves=5)

ELEMENTS = {
    "str": text.map(lambda v: ["s", v]),
    "int": num.map(lambda v: ["s", v]),
    "float": flt.map(lambda v: ["s", v]),
    "dict": st.dictionaries(text, jsonv, max_size=3).map(lambda v: ["s", v]),
    "list": st.lists(jsonv, max_size=3).map(lambda v: ["s", v]),
    "list2": st.lists(num, min_size=2, max_size=2).map(lambda v: ["s", v]),
    "tuple": st.lists(leaf, max_size=3).map(lambda v: ["t", v]),
    "tuple2": st.lists(text, min_size=2, max_size=2).map(lambda v: ["t", v]),
}
ELEMENTS["flags"] = st.one_of(st.booleans(), st.integers(-1, 2)).map(lambda v: ["s", v])
ELEMENTS["unsigned"] = st.one_of(st.integers(2**63, 2**64 - 1), st.integers(2**63, 2**64 - 1), st.integers(-3, 3)).map(lambda v: ["s", v])
ELEMENTS["mix"] = st.one_of([ELEMENTS[k] for k in sorted(ELEMENTS)])
ELEMENTS["numbers"] = st.one_of(ELEMENTS["int"], ELEMENTS["float"])


def decode(e):
    return tuple(e[1]) if e[0] == "t" else e[1]


def check_docs(got, elements, ids, what):
    got = np.asarray(got)
    expect(got.shape == ids.shape, "%s: documents of shape %s, expected %s", what, got.shape, ids.shape)
    for i in range(ids.shape[0]):
        for j in range(ids.shape[1]):
            e = elements[int(ids[i, j])]
            g = got[i, j]
            expect(same(g, e), "%s: document [%d, %d] is %r instead of corpus[%d] = %r", what, i, j, g, int(ids[i, j]), e)


class Seq:
    """A collection that offers only length and access by index."""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        if type(i) is not int:
            raise TypeError("indices are integers, not %r" % (i,))
        return self._items[i]


@register
class C07(Prop):
    pid = "C07"
    rule = ("index x batch x k x backend x corpus elements (strings, numbers, dictionaries, lists, tuples, equal-length lists, mixes) x "
            "container (list, tuple, array, rows of a 2-d array, custom sequence) x route (argument, attached, both, saved and loaded in memory / memory-mapped); "
            "non-trivial: at least two different documents")
    examples = dict(quick=260, thorough=20000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            c = draw(config())
            p = draw(gen.params(numba=prof if needs_profile([c]) else None))
            corpus = draw(gen.corpus(max_docs=8, big=False))
            n = len(corpus["docs"])
            kind = draw(st.sampled_from(sorted(ELEMENTS)))
            route = draw(st.sampled_from(["arg", "arg", "attached", "both", "set", "loaded", "mmap", "jsonl"]))
            els = draw(st.lists(ELEMENTS[kind], min_size=n, max_size=n))
            if route in ("loaded", "mmap"):
                els = [e if not isinstance(e[1], (int, float)) else ["s", {"n": e[1]}] for e in els]
            container = draw(st.sampled_from(["list", "list", "tuple", "array", "array", "array2d", "sequence", "sequence"]))
            if container == "array2d":
                m = draw(st.integers(1, 3))
                els = draw(st.lists(st.lists(st.one_of(st.integers(-9, 9), st.integers(-2**63, 2**63 - 1)), min_size=m, max_size=m).map(lambda v: ["s", v]),
                                    min_size=n, max_size=n))
            return dict(params=p, corpus=corpus, cfg=c, elements=els, kind=kind, route=route, container=container,
                        queries=draw(gen.queries(corpus, max_size=3)),
                        k=draw(st.sampled_from(sorted({1, min(2, n), n}))))
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        for i in range(12):
            n = [60, 3000][i % 2]
            yield dict(params=pp, corpus=gen.big_corpus(i, n, 15, 3), cfg=[cfg(), cfg(backend="numba", selection="auto")][i // 6],
                       elements=[["s", "doc %d %s" % (j, "x" * (j % 50))] if i % 3 == 0 else ["s", {"id": j, "t": "é" * (j % 9)}] if i % 3 == 1
                                 else ["t", [j, "u"]] for j in range(n)],
                       kind=["str", "dict", "tuple2"][i % 3], route=["arg", "loaded", "mmap", "jsonl", "attached", "both"][i % 6],
                       container="list", queries=[["w1", "w2"], [], ["w3"]], k=[5, 60][i % 2])

        # many documents
        for i in range(16):
            n = [70000, 66000, 33000, 131080][i % 4]
            c = [cfg(), cfg(backend="numba", selection="auto")][i // 8]
            yield dict(params=pp, corpus=gen.big_corpus(i, n, 15, 2, marks=True), cfg=c, elements=dict(count=n, seed=i), kind=["str", "int", "dict", "mix"][(i + i // 4) % 4],
                       route=["arg", "attached", "arg", "loaded", "jsonl"][i % 5], container=["list", "sequence", "tuple", "array"][(i + i // 4) % 4] if i % 5 < 3 else "list",
                       queries=[["w1"], ["w2", "w1"], []] * [1, 40][i % 2], k=[5, 30][i % 2])

    def labels(self, case):
        return cfg_labels([case["cfg"]]) + ["elements " + case["kind"], "route " + case["route"], "container " + case["container"]]

    def nontrivial(self, case):
        if isinstance(case["elements"], dict):
            return True
        return len({json.dumps(e) for e in case["elements"]}) >= 2

    @staticmethod
    def many(case):
        kind, out = case["kind"], []
        for j in range(case["elements"]["count"]):
            out.append({"str": "d%d" % j, "int": j * 65537, "dict": {"id": j}, "mix": [j, "s%d" % j, {"i": j}, j / 7, (j, 1)][j % 5]}[kind])
        if case["route"] == "loaded":
            out = [{"n": e} if isinstance(e, (int, float)) else e for e in out]
        return out

    def container(self, case, els):
        if case["container"] == "tuple":
            return tuple(els)
        if case["container"] == "array":
            if len({type(e) for e in els}) == 1 and isinstance(els[0], (str, int, float)):
                a = np.array(els)
                if type(a[0].item()) is type(els[0]):
                    return a
            a = np.empty(len(els), dtype=object)
            for i, e in enumerate(els):
                a[i] = e
            return a
        if case["container"] == "array2d":
            return np.array(els, dtype="int64")
        if case["container"] == "sequence":
            return Seq(els)
        return els

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p, k, c = case["params"], case["k"], case["cfg"]
        backend = "numba" if c["backend"] == "numba" else "numpy"
        els = self.many(case) if isinstance(case["elements"], dict) else [decode(e) for e in case["elements"]]
        decoy = ["decoy %d" % i for i in range(len(docs))]
        plain = sut.build(p, docs, backend=backend)
        args = dict(k=k, sorted=c["sorted"], n_threads=c["threads"], show_progress=c["progress"], backend_selection=c["selection"])
        if c["chunk"]:
            args["chunksize"] = c["chunk"]

        def ask(r, **kw):
            if c["scorer"]:
                r.activate_numba_scorer()
            return r.retrieve([list(q) for q in case["queries"]], **args, **kw)

        res = ask(plain)
        ids, scores = np.asarray(res.documents), np.asarray(res.scores)
        expect(ids.shape == (len(case["queries"]), k), "shape %s of the indices", ids.shape)
        expect(np.issubdtype(ids.dtype, np.integer), "indices have type %s", ids.dtype)
        only = np.asarray(ask(plain, return_as="documents"))
        expect(np.array_equal(only, ids), "return_as='documents' without corpus differs")
        route, kw = case["route"], {}
        corpus = self.container(case, els)
        expected = els
        if route == "arg":
            r, kw = plain, dict(corpus=corpus)
        elif route == "attached":
            r = sut.build(p, docs, backend=backend, corpus=corpus)
        elif route == "set":
            r = plain
            r.corpus = corpus
        elif route == "both":
            r = sut.build(p, docs, backend=backend, corpus=decoy)
            kw = dict(corpus=corpus)
        elif route == "jsonl":
            d = ctx.tmp()
            path = os.path.join(d, "docs.jsonl")
            with open(path, "w", encoding="utf-8") as f:
                for e in els:
                    f.write(json.dumps(e) + "\n")
            expected = [json.loads(json.dumps(e)) for e in els]
            from bm25s.utils.corpus import JsonlCorpus
            r, kw = plain, dict(corpus=JsonlCorpus(path, show_progress=False, verbosity=0))
        else:
            d = ctx.tmp()
            plain.save(d, corpus=list(els))
            r = bm25s.BM25.load(d, load_corpus=True, mmap=route == "mmap")
            expected = [{"id": i, "text": e} if isinstance(e, str) else json.loads(json.dumps(e)) for i, e in enumerate(els)]
        if c["scorer"]:
            r.activate_numba_scorer()
        what = "route %s, container %s, under %s" % (route, case["container"], c)
        for _ in range(2):
            res = ask(r, **kw)
            check_docs(res.documents, expected, ids, what)
            expect(np.array_equal(np.asarray(res.scores), scores), "%s: scores differ from those without a corpus", what)
        check_docs(ask(r, return_as="documents", **kw), expected, ids, what + ", documents only")
        if not kw and route not in ("loaded", "mmap") or route == "both":
            res = ask(r, corpus=decoy)
            check_docs(res.documents, decoy, ids, what + ", other corpus as argument")
            if route == "both":
                check_docs(ask(r).documents, decoy, ids, what + ", attached corpus after an argument")
            else:
                check_docs(ask(r).documents, expected, ids, what + ", attached corpus after an argument")
        elif kw:
            expect(np.array_equal(np.asarray(ask(r).documents), ids), "%s: the corpus argument stayed attached", what)
        if hasattr(r, "corpus") and hasattr(r.corpus, "close"):
            r.corpus.close()
        if route == "jsonl":
            kw["corpus"].close()
