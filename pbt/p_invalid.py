"""C24: invalid requests are rejected and change nothing."""
import os
import random

import numpy as np
from hypothesis import strategies as st

import bm25s
from bm25s.tokenization import Tokenized, Tokenizer

from . import gen, sut
from .core import Prop, expect, fail, register
from .p_retrieve import FIXED_P, prof_params

BAD_WORDS = ["", "foo", "Tuple", "documents ", "TUPLE", "numpyy", "BM25", "bm25", "lucene ", "Lucene", "english ", "EN", "klingon", "fr-FR", "ids ",
             "validation", "Test", "if-empty", "Never", "never ", "all", "idss", "torch", "cupy", "tuple ", "none", "dict", "list"]
INDEX_KINDS = ["scores_ids", "scores_arg", "query_type", "index_arg", "index_ids", "no_known", "mmap", "corpus_index"]
RETRIEVE_KINDS = ["k", "mask_list", "mask_2d", "mask_short", "mask_long", "mask_0d", "return_as", "selection", "tuple_len", "tuple_ids", "tuple_vocab"]
OTHER_KINDS = ["method", "idf_method", "split", "stop_tokenize", "stop_tokenizer", "update_vocab", "tok_return_as", "splitter", "stemmer",
               "stemmer_tokenize"]

VALID = {
    "return_as": {"tuple", "documents"}, "selection": {"auto", "numpy", "jax", "numba"},
    "method": {"robertson", "lucene", "atire", "bm25l", "bm25+"}, "idf_method": {"robertson", "lucene", "atire", "bm25l", "bm25+"},
    "split": {"train", "dev", "test"}, "update_vocab": {"if_empty", "never"}, "tok_return_as": {"tuple", "string", "ids", "stream"},
    "stop": {"english", "en", "english_plus", "en_plus", "german", "de", "dutch", "nl", "french", "fr", "spanish", "es", "portuguese", "pt",
             "italian", "it", "russian", "ru", "swedish", "sv", "norwegian", "no", "chinese", "zh"},
}


def rejected(what, fn, error=ValueError):
    try:
        out = fn()
        if hasattr(out, "__next__"):
            out = list(out)
    except error:
        return
    except Exception as e:
        fail("%s: raised %s (%s) instead of a %s", what, type(e).__name__, e, error.__name__)
    fail("%s: returned %.200r instead of raising", what, out)


@register
class C24(Prop):
    pid = "C24"
    rule = ("valid index / tokenizer, then a list of invalid requests of the listed kinds with generated arguments, each of which must raise "
            "ValueError, with valid requests compared before and after; non-trivial: at least one invalid request (always)")
    examples = dict(quick=640, thorough=20000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            numba = draw(st.integers(0, 2)) == 0
            c = draw(gen.corpus(max_docs=6, big=False))
            word = st.one_of(st.sampled_from(BAD_WORDS), st.text(gen.text_char, max_size=6))
            reqs = draw(st.lists(st.tuples(st.sampled_from(RETRIEVE_KINDS * 2 + OTHER_KINDS + INDEX_KINDS), st.integers(0, 10**4), word), min_size=1, max_size=5))
            return dict(params=draw(gen.params(numba=prof if numba else None)), corpus=c, numba=numba,
                        requests=[list(x) for x in reqs], queries=draw(gen.queries(c, max_size=3)),
                        threads=draw(st.sampled_from([0, 0, 2])),
                        texts=draw(st.lists(st.sampled_from(["a cat runs", "dogs and cats", "été", "", "the of"]), min_size=1, max_size=3)))
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        allk = [[k, i, "foo"] for i, k in enumerate(RETRIEVE_KINDS + OTHER_KINDS + INDEX_KINDS)]
        for i in range(12):
            yield dict(params=pp, corpus=gen.big_corpus(i, [1, 5, 300][i % 3], 10, 3), numba=bool(i // 6), requests=allk + [["k", i * 7, ""]] + [["k", i + 3 * j, ""] for j in range(12)],
                       queries=[["w1"], [], ["zzz"]] if i % 2 else [[]], threads=[0, 2][i % 2], texts=["a cat runs"])
        # words close to the allowed ones
        near = sorted({f(w) for kind in VALID.values() for w in kind for f in (
            str.upper, str.title, lambda w: w + " ", lambda w: " " + w, lambda w: w[:-1], lambda w: w[:2], lambda w: w[0], lambda w: w + "s", lambda w: w + w[-1],
            lambda w: w + ".tsv", lambda w: w.replace("_", "-"), lambda w: w.replace("25", ""), lambda w: w + "+")} | set(BAD_WORDS))
        words = ["return_as", "selection", "method", "idf_method", "split", "stop_tokenize", "stop_tokenizer", "update_vocab", "tok_return_as"]
        for i, word in enumerate(near):
            yield dict(params=FIXED_P, corpus=gen.big_corpus(i, 2, 10, 3), numba=False, requests=[[k, 3 * (i + j), word] for j, k in enumerate(words)],
                       queries=[["w1"], []], threads=0, texts=["a cat runs"])

    def labels(self, case):
        return ["numba" if case["numba"] else "numpy"] + ["kind " + r[0] for r in case["requests"]]

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        n = len(docs)
        p = case["params"]
        r = sut.build(p, docs, backend="numba" if case["numba"] else "numpy")
        tok = Tokenizer(stopwords=["the"])
        tok.tokenize(case["texts"], show_progress=False)
        qs = [list(q) for q in case["queries"]]
        mask = np.array([(i % 3) / 2 for i in range(n)], dtype="float32")

        def answers():
            a = r.retrieve([list(q) for q in qs], k=n, show_progress=False)
            m = r.retrieve([list(q) for q in qs], k=min(2, n), show_progress=False, weight_mask=mask)
            return ([np.asarray(a.documents).tolist(), np.asarray(a.scores).tolist(), np.asarray(m.documents).tolist(), np.asarray(m.scores).tolist()]
                    + [np.asarray(r.get_scores(q)).tolist() for q in qs if q]
                    + [tok.tokenize(case["texts"] + ["new words here"], update_vocab=False, show_progress=False), dict(tok.get_vocab_dict())])

        before = answers()
        for kind, x, word in case["requests"]:
            self.one(kind, x, word, r, tok, qs, n, case, ctx)
            after = answers()
            expect(after == before, "after the rejected request %s the answers changed: %.300r -> %.300r", [kind, x, word], before, after)

    def one(self, kind, x, word, r, tok, qs, n, case, ctx):
        what = "request %s on a %s index of %d documents" % ([kind, x, word], "numba" if case["numba"] else "numpy", n)
        sel = {} if case["numba"] else dict(backend_selection=["auto", "numpy", "jax"][x % 3])
        base = dict(k=1, show_progress=False, n_threads=case["threads"], **sel)
        # an invalid request is rejected whatever else it asks for
        y = x // 3
        if y % 2 and not kind.startswith("mask"):
            base["weight_mask"] = np.array([(i % 3) / 2 for i in range(n)], dtype=["float32", "bool", "float64"][y % 3])
        if y % 5 > 2 and kind != "return_as":
            base["return_as"] = "documents"
        if y % 7 > 4:
            base["sorted"] = False
        if y % 7 in (1, 5):
            base["corpus"] = ["doc %d" % i for i in range(n)]
        if y % 11 > 7:
            base["n_threads"] = [1, 2, -1][y % 3]
        q = [list(y) for y in qs]
        if kind == "k":
            k = [int, int, float, np.int64][x % 4](n + 1 + [0, 1, x][x % 3])
            rejected(what + " k=%r" % k, lambda: r.retrieve(q, **dict(base, k=k)))
        elif kind.startswith("mask"):
            m = np.ones(n, dtype=["float32", "bool", "int64"][x % 3])
            m = {"mask_list": lambda: [m.tolist(), tuple(m.tolist())][x % 2], "mask_2d": lambda: [m.reshape(1, n), m.reshape(n, 1)][x % 2],
                 "mask_short": lambda: m[: max(0, n - 1 - x % 3)], "mask_long": lambda: np.concatenate([m, m[: 1 + x % 2]]),
                 "mask_0d": lambda: m[0].reshape(())}[kind]()
            if isinstance(m, np.ndarray) and m.shape == (n,):
                return
            rejected(what, lambda: r.retrieve(q, weight_mask=m, **base))
        elif kind == "return_as":
            if word not in VALID[kind]:
                rejected(what, lambda: r.retrieve(q, return_as=word, **base))
        elif kind == "selection":
            if case["numba"] and x % 4 == 0:
                word = ["numpy", "jax"][x % 8 // 4]
                rejected(what + " " + word, lambda: r.retrieve(q, **dict(base, backend_selection=word)))
            elif word not in VALID[kind]:
                rejected(what, lambda: r.retrieve(q, **dict(base, backend_selection=word)))
        elif kind == "tuple_len":
            t = [([[0]], {"a": 0}, None), ([[0]],), (), ({"a": 0}, [[0]], 3, 4)][x % 4]
            rejected(what, lambda: r.retrieve(t, **base))
        elif kind == "tuple_ids":
            rejected(what, lambda: r.retrieve(([5, None, 2.5][x % 3], {"a": 0}), **base))
        elif kind == "tuple_vocab":
            rejected(what, lambda: r.retrieve(([[0]], [["a"], None, "a", 7, [("a", 0)]][x % 5]), **base))
        elif kind in ("method", "idf_method"):
            if word not in VALID[kind] and (kind == "method" or word):
                def build():
                    b = bm25s.BM25(**dict(dict(method="lucene"), **{kind: word}))
                    b.index([["a"], ["b"]], show_progress=False)
                    return b
                rejected(what, build)
        elif kind == "split":
            if word not in VALID[kind]:
                d = ctx.tmp()
                os.makedirs(os.path.join(d, "ds", "qrels"))
                if "/" not in word and "\x00" not in word and len(word) < 50:
                    with open(os.path.join(d, "ds", "qrels", word + ".tsv"), "w") as f:
                        f.write("query-id\tcorpus-id\tscore\nq\td\t1\n")
                rejected(what, lambda: bm25s.utils.beir.load_qrels("ds", split=word, save_dir=d, show_progress=False))
        elif kind == "stop_tokenize":
            if word not in VALID["stop"]:
                rejected(what, lambda: bm25s.tokenize(case["texts"], stopwords=word, show_progress=False))
        elif kind == "stop_tokenizer":
            if word not in VALID["stop"]:
                rejected(what, lambda: Tokenizer(stopwords=word))
        elif kind == "update_vocab":
            bad = word if x % 3 else [None, 2, "true"][x % 9 // 3]
            if bad not in VALID[kind]:
                rejected(what, lambda: tok.tokenize(["brand new"] * (1 + y % 2 * 80), update_vocab=bad, return_as=["ids", "tuple", "string", "stream"][y % 4],
                                                    allow_empty=y % 3 > 0, show_progress=False))
        elif kind == "tok_return_as":
            if word not in VALID[kind]:
                rejected(what, lambda: tok.tokenize(["brand new"], update_vocab=[True, False, "never", "if_empty"][y % 4], return_as=word, show_progress=False))
        elif kind == "splitter":
            rejected(what, lambda: Tokenizer(splitter=[5, None, ["a"], 2.5, {}][x % 5]))
        elif kind == "stemmer":
            rejected(what, lambda: Tokenizer(stemmer=["porter", 5, [1], {}, ""][x % 5]))
        elif kind == "stemmer_tokenize":
            rejected(what, lambda: bm25s.tokenize(["cats run"], stemmer=["porter", 5, [1], {}][x % 4], show_progress=False))
        else:
            self.index_request(kind, x, what, r, base, docs_of(case), case, ctx)

    def index_request(self, kind, x, what, r, base, docs, case, ctx):
        n_ids = max(r.vocab_dict.values()) + 1
        known = next(iter(r.vocab_dict.values()))
        bad_id = n_ids + [0, 1, 1000][x % 3]
        if kind == "scores_ids":
            ids = [[bad_id], [known, bad_id], [bad_id, known, known]][x // 3 % 3]
            arg = [ids, ids, np.array(ids)][x // 9 % 3]
            rejected(what + " get_scores_from_ids(%r)" % (arg,), lambda: r.get_scores_from_ids(arg))
            rejected(what + " get_scores(%r)" % (ids,), lambda: r.get_scores(ids))
        elif kind == "scores_arg":
            arg = [("a",), "a", {"a": 1}, np.array([known]), None, 3, [None], [2.5], [["a"]], [("a",)]][x % 10]
            rejected(what + " get_scores(%r)" % (arg,), lambda: r.get_scores(arg))
        elif kind == "query_type":
            arg = [[[2.5]], [[None]], [[["a"]]], ["a b", "c"], [("a", "b")]][x % 5]
            rejected(what + " retrieve(%r)" % (arg,), lambda: r.retrieve(arg, **base))
        elif kind == "index_arg":
            arg = [5, None, 2.5, ({"a": 0}, [[0]]), ([["a"]], [["b"]]), (None, {"a": 0}), ([[0]], None)][x % 7]
            rejected(what + " index(%r)" % (arg,), lambda: r.index(arg, show_progress=False))
        elif kind == "index_ids":
            # the tokens of a document have no place in the given vocabulary
            vocab = {"p": 0, "q": 1, "r": 2}
            bad = [[[0, 1], [2, 3 + x % 5]], [[7]], [[0], [1, 1], [0, 1, 2, 9]]][x % 3]
            arg = [(bad, vocab), Tokenized(ids=bad, vocab=vocab)][x // 3 % 2]
            rejected(what + " index(%r)" % (arg,), lambda: r.index(arg, show_progress=False), Exception)
        elif kind == "no_known":
            f = sut.build(case["params"], docs + [["zz"]], backend="numba" if case["numba"] else "numpy", create_empty_token=False)
            if "" in f.vocab_dict:
                return
            known = f.vocab_dict["zz"]
            unknown = max(f.vocab_dict.values()) + 1 + x % 4
            arg = [[[unknown]], [[known], [unknown, unknown]], [[unknown], [known]], [[known, unknown], [unknown + 1]]][x // 4 % 4]
            rejected(what + " retrieve(%r)" % (arg,), lambda: f.retrieve(arg, **base))
        elif kind == "mmap":
            d = ctx.tmp()
            r.save(d)
            rejected(what, lambda: bm25s.BM25.load(d, mmap=["r", None, 1, "r+", 0, "true"][x % 6]))
        elif kind == "corpus_index":
            path = os.path.join(ctx.tmp(), "c.jsonl")
            with open(path, "w") as f:
                f.write('{"a": 1}\n{"a": 2}\n')
            c = bm25s.utils.corpus.JsonlCorpus(path, show_progress=False, verbosity=0)
            try:
                for arg, error in [("0", TypeError), (1.0, TypeError), (None, TypeError), ({0: 1}, TypeError), (2 + x % 3, IndexError), (-3 - x % 3, IndexError),
                                   ([0, 2], IndexError), (np.array([[0, 5]]), IndexError)]:
                    rejected(what + " %r" % (arg,), lambda: c[arg], error)
                expect([c[0], c[1]] == [{"a": 1}, {"a": 2}], "%s: the corpus reads %r", what, [c[0], c[1]])
            finally:
                c.close()


def docs_of(case):
    return gen.expand(case["corpus"])
