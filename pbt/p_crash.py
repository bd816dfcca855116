"""C28: saves that are interrupted."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import bm25s
from bm25s.tokenization import Tokenizer

from . import gen, sut
from .core import Prop, expect, fail, register
from .faults import attempt
from .p_docs import same
from .p_persist import CUSTOM, DEFAULT_NAMES, PARAMS, bits, doc_elements, stored


class Stop(Exception):
    pass


def stopping(docs, n):
    for i, d in enumerate(docs):
        if i == n:
            raise Stop("the source of the documents fails")
        yield d


def mismatch(r, f):
    """What distinguishes the index r from the index f, or None."""
    for p in PARAMS:
        if getattr(r, p) != getattr(f, p):
            return p
    if r.scores["num_docs"] != f.scores["num_docs"]:
        return "num_docs"
    if r.vocab_dict != f.vocab_dict:
        return "vocabulary"
    for p in ("data", "indices", "indptr"):
        if bits(r.scores[p]) != bits(f.scores[p]):
            return p
    if (r.nonoccurrence_array is None) != (f.nonoccurrence_array is None):
        return "non-occurrence scores"
    if r.nonoccurrence_array is not None and bits(r.nonoccurrence_array) != bits(f.nonoccurrence_array):
        return "non-occurrence scores"
    return None


def corpus_mismatch(corpus, want):
    if corpus is None:
        return "no corpus"
    got = [corpus[i] for i in range(len(corpus))]
    if len(got) != len(want):
        return "%d documents in the corpus" % len(got)
    for i, (g, w) in enumerate(zip(got, want)):
        if not same(g, w):
            return "document %d" % i
    return None


@register
class C28(Prop):
    pid = "C28"
    rule = ("history of saves of fresh, loaded and re-indexed objects (tokenizer files, line indexes) into one directory, each stopped by a fault (an interrupt or "
            "an error at the n-th file operation, a single failing write, a file size limit, a failing document source) or not, then loading memory-mapped and not; non-trivial: a save is stopped and "
            "the directory held a complete index before")
    examples = dict(quick=1400, thorough=25000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        spec = st.fixed_dictionaries(dict(
            method=st.sampled_from(gen.METHODS), seed=st.integers(0, 9999), docs=st.sampled_from([1, 2, 3, 5, 9, 30, 200]),
            vocab=st.sampled_from([2, 5, 30, 400]), length=st.sampled_from([1, 4, 12]),
            dtype=st.sampled_from(["float32", "float64"]), int_dtype=st.sampled_from(["int32", "int64"])))
        corp = st.sampled_from([None, "str", "dict"])
        stop = st.one_of(st.tuples(st.just("event"), st.integers(1, 24)), st.tuples(st.just("event"), st.integers(1, 24)),
                         st.tuples(st.just("size"), st.one_of(st.integers(0, 300), st.integers(0, 6000))), st.tuples(st.just("error"), st.integers(1, 24)),
                         st.tuples(st.just("write"), st.one_of(st.integers(1, 30), st.integers(1, 200))),
                         st.tuples(st.just("docs"), st.integers(0, 4))).map(list)
        op = st.one_of(
            st.tuples(st.just("build"), spec, corp),
            st.tuples(st.just("save"), st.integers(0, 5), corp, stop), st.tuples(st.just("save"), st.integers(0, 5), corp, stop),
            st.tuples(st.just("save"), st.integers(0, 5), corp, st.none()),
            st.tuples(st.just("load"), st.booleans()),
            st.tuples(st.just("reindex"), st.integers(0, 5), spec),
        )
        index = st.fixed_dictionaries(dict(kind=st.just("index"), first=st.tuples(spec, corp), second=st.tuples(spec, corp),
                                           ops=st.lists(op.map(list), min_size=1, max_size=6), names=st.sampled_from(["default"] * 4 + ["noext", "plain"]),
                                           impl=st.sampled_from(["default"] * 4 + ["builtin"])))
        words = st.lists(st.sampled_from(gen.WORDS + gen.ODD), max_size=6)
        tok = st.fixed_dictionaries(dict(kind=st.just("tokenizer"), a=words, b=words, stemmer=st.booleans(), stop=st.tuples(words, words),
                                         faults=st.lists(st.one_of(st.tuples(st.just("event"), st.integers(1, 4)),
                                                                   st.tuples(st.sampled_from(["error", "write"]), st.integers(1, 4)),
                                                                   st.tuples(st.just("size"), st.integers(0, 200))).map(list), min_size=1, max_size=3)))
        lines = st.fixed_dictionaries(dict(kind=st.just("lines"), n=st.integers(1, 60), seed=st.integers(0, 999), fault=st.one_of(
            st.tuples(st.sampled_from(["event", "error", "write"]), st.integers(1, 4)), st.tuples(st.just("size"), st.integers(0, 300))).map(list)))
        return st.one_of(index, index, index, index, tok, lines)

    def fixed(self, ctx):
        s = lambda m="lucene", docs=9, seed=1, vocab=5: dict(method=m, seed=seed, docs=docs, vocab=vocab, length=4, dtype="float32", int_dtype="int32")
        pairs = [(s(), s(seed=2)), (s("bm25l"), s("bm25l", seed=7)), (s(docs=5), s("bm25+", docs=30, vocab=30)), (s("bm25+", docs=30, vocab=30), s(docs=3)),
                 (s(), s("atire"))]
        out = []
        for i, (a, b) in enumerate(pairs):
            for c in ("str", None):
                for n in range(1, 25):
                    out.append(dict(kind="index", first=[a, c], second=[b, c], names="default", impl="default",
                                    ops=[["save", 0, None, None], ["load", bool(n % 2)], ["save", 1, None, ["event", n]], ["save", 2, None, ["event", n + 1]]]))
                for n in range(1, 31):
                    out.append(dict(kind="index", first=[a, c], second=[b, c], names="default", impl="default",
                                    ops=[["save", 0, None, None], ["load", bool(n % 2)], ["save", 1, None, ["write", n]], ["save", 2, "dict", ["error", n]]]))
                for n in list(range(0, 320, 16)) + [1000, 2000]:
                    out.append(dict(kind="index", first=[a, c], second=[b, "dict" if c else None], names="default", impl="default",
                                    ops=[["save", 0, None, None], ["load", True], ["save", 1, None, ["size", n]]]))
            for n in range(4):
                out.append(dict(kind="index", first=[a, "str"], second=[b, None], names="default", impl="default",
                                ops=[["save", 0, None, None], ["load", n % 2 == 0], ["save", 1, "dict", ["docs", n]], ["save", 2, "str", ["docs", n]]]))
        for n in range(1, 6):
            for stem in (False, True):
                out.append(dict(kind="tokenizer", a=["cat", "\u00e9t\u00e9"], b=["zebra"] * 3 + ["dog"], stemmer=stem, stop=[["x", "y"], ["w"]],
                                faults=[["event", n], ["write", n], ["size", 20 * n - 20], ["error", n]]))
            out += [dict(kind="lines", n=30, seed=n, fault=[f, n]) for f in ("event", "error", "write")]
            out.append(dict(kind="lines", n=30, seed=n, fault=["size", 30 * n - 30]))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)

    def index(self, case, ctx):
        M = sut.impl(case["impl"])
        d = os.path.join(ctx.tmp(), "idx")
        names = CUSTOM.get(case["names"], {})
        objs = []       # [object, spec, attached corpus or None]
        possible = []   # what a load may give: (spec, corpus or None if unspecified)
        complete = False
        truth = {}

        def expand(spec):
            return gen.expand({"rng": dict(seed=spec["seed"], docs=spec["docs"], vocab=spec["vocab"], length=spec["length"], minlen=0)})

        def params(spec):
            return dict(method=spec["method"], dtype=spec["dtype"], int_dtype=spec["int_dtype"])

        def fresh(spec):
            key = json.dumps(spec, sort_keys=True)
            if key not in truth:
                truth[key] = sut.build(params(spec), expand(spec), cls=M.BM25)
            return truth[key]

        def build(spec, kind):
            corpus = None if kind is None else doc_elements(kind, spec["docs"], spec["seed"])
            r = M.BM25(corpus=corpus, **params(spec))
            r.index(expand(spec), show_progress=False)
            objs.append([r, spec, None if corpus is None else stored(corpus)])

        def loads(what):
            for mm in (False, True):
                w = "%s: loaded %s" % (what, "memory-mapped" if mm else "in memory")
                try:
                    r = M.BM25.load(d, mmap=mm, load_corpus=True, **names)
                except Exception as e:
                    expect(not complete, "%s: a complete save does not load: %r", w, e)
                    continue
                why = []
                for spec, corpus in possible:
                    m = mismatch(r, fresh(spec))
                    if m is None and corpus is not None:
                        m = corpus_mismatch(r.corpus, corpus)
                    if m is None:
                        break
                    why.append(m)
                else:
                    fail("%s: neither of the %d indexes that were saved here; differs from them in: %s", w, len(possible), why)
                if isinstance(r.corpus, M.utils.corpus.JsonlCorpus):
                    r.corpus.close()

        build(*case["first"])
        build(*case["second"])
        for step, op in enumerate(case["ops"] + [["save", 1, None, None]]):
            what = "step %d %s" % (step, op)
            if op[0] == "build":
                build(op[1], op[2])
            elif op[0] == "reindex":
                o = objs[op[1] % len(objs)]
                spec = dict(op[2], docs=o[1]["docs"], **{k: o[1][k] for k in ("method", "dtype", "int_dtype")})
                o[0].index(expand(spec), show_progress=False)
                o[1] = spec
            elif op[0] == "load":
                if not complete:
                    continue
                spec, corpus = possible[0]
                r = M.BM25.load(d, mmap=op[1], load_corpus=corpus is not None, **names)
                objs.append([r, spec, corpus])
            else:
                o = objs[op[1] % len(objs)]
                arg = None if op[2] is None else doc_elements(op[2], o[1]["docs"], o[1]["seed"] + 17)
                corpus = stored(arg) if arg is not None else o[2]
                spec = op[3]
                if spec is not None and spec[0] == "docs":
                    if arg is None:
                        continue
                    arg, spec = stopping(arg, spec[1] % len(arg)), ["event", 10**9]
                done = attempt(spec, d, lambda: o[0].save(d, corpus=arg, **names))
                # (numpy does not always notice that a file could not be written in full)
                if done and (spec is None or spec[0] != "size"):
                    possible, complete = [(o[1], corpus)], True
                else:
                    possible, complete = possible + [(o[1], corpus)], False
                loads(what)
            for j, (r, spec, corpus) in enumerate(objs):
                m = mismatch(r, fresh(spec)) or (corpus_mismatch(stored([r.corpus[i] for i in range(len(r.corpus))]), corpus) if corpus is not None else None)
                expect(m is None, "%s: object %d (%s) is no longer what it was: %s", what, j, r, m)
                if spec["docs"] and r.vocab_dict:
                    q = [list(r.vocab_dict)[0]]
                    expect(bits(r.get_scores(q)) == bits(fresh(spec).get_scores(q)), "%s: object %d answers differently", what, j)

    def tokenizer(self, case, ctx):
        d = os.path.join(ctx.tmp(), "tok")
        stem = (lambda w: w[:2]) if case["stemmer"] else None

        def make(words, stop):
            t = Tokenizer(splitter=lambda s: s.split("|"), stopwords=list(stop), stemmer=stem)
            t.tokenize(["|".join(words)], update_vocab=True, show_progress=False)
            return t

        def state(t):
            return (t.word_to_id, t.word_to_stem, t.stem_to_sid)

        a, b = make(case["a"], case["stop"][0]), make(case["b"], case["stop"][1])
        a.save_vocab(d)
        a.save_stopwords(d)
        vocabs, stops = [state(a)], [list(a.stopwords)]
        for i, spec in enumerate(case["faults"] + [None]):
            what = "after save %d under fault %s" % (i, spec)
            want = json.dumps(state(b)), json.dumps(b.stopwords)
            vocabs = ([] if attempt(spec, d, lambda: b.save_vocab(d)) else vocabs) + [state(b)]
            stops = ([] if attempt(spec, d, lambda: b.save_stopwords(d)) else stops) + [list(b.stopwords)]
            expect((json.dumps(state(b)), json.dumps(b.stopwords)) == want, "%s: the tokenizer changed", what)
            t = make(["own"], ["stop"])
            before = json.dumps(state(t))
            try:
                t.load_vocab(d)
            except Exception as e:
                expect(len(vocabs) > 1, "%s: a completely saved vocabulary does not load: %r", what, e)
                expect(json.dumps(state(t)) == before, "%s: a refused vocabulary changed the tokenizer", what)
            else:
                expect(any(state(t) == v for v in vocabs), "%s: loads the vocabulary %r, which was never saved", what, state(t))
            try:
                t.load_stopwords(d)
            except Exception as e:
                expect(len(stops) > 1, "%s: a completely saved stopword list does not load: %r", what, e)
                expect(t.stopwords == ["stop"], "%s: a refused stopword list changed the tokenizer", what)
            else:
                expect(any(list(t.stopwords) == v for v in stops), "%s: loads the stopwords %r, which were never saved", what, t.stopwords)

    def lines(self, case, ctx):
        d = ctx.tmp()
        path = os.path.join(d, "c.jsonl")
        docs = doc_elements("dict", case["n"], case["seed"])
        with open(path, "w", encoding="utf-8") as f:
            f.writelines(json.dumps(x) + "\n" for x in docs)

        def read():
            c = bm25s.utils.corpus.JsonlCorpus(path, show_progress=False, verbosity=0)
            try:
                return corpus_mismatch(c, docs)
            finally:
                c.close()

        def check():
            m = read()
            expect(m is None, "the corpus opened under fault %s is wrong: %s", case["fault"], m)

        attempt(case["fault"], d, check)
        try:
            m = read()
        except Exception:
            return
        expect(m is None, "the corpus opened after fault %s is wrong: %s", case["fault"], m)

    def labels(self, case):
        if case["kind"] == "index":
            return ["index"] + sorted({o[3][0] if o[3] else "no fault" for o in case["ops"] if o[0] == "save"})
        return [case["kind"]]

    def nontrivial(self, case):
        if case["kind"] != "index":
            return True
        saves = [o[3] for o in case["ops"] if o[0] == "save"]
        return None in saves and any(saves[saves.index(None):])
