"""C11 index round trip, C12 corpus round trip, C14 repeated saves, C15 damaged directories."""
import json
import os
import pathlib
import random
import shutil

import numpy as np
from hypothesis import strategies as st

import bm25s
from bm25s.tokenization import Tokenized

from . import gen, sut
from .core import Prop, expect, fail, register
from .p_docs import check_docs, jsonv, same, text
from .p_retrieve import FIXED_P, as_form, n_docs, prof_params

NAMES = ["data_name", "indices_name", "indptr_name", "vocab_name", "params_name", "nnoc_name"]
DEFAULT_NAMES = dict(data_name="data.csc.index.npy", indices_name="indices.csc.index.npy",
                     indptr_name="indptr.csc.index.npy", vocab_name="vocab.index.json",
                     params_name="params.index.json", nnoc_name="nonoccurrence_array.index.npy")
CUSTOM = {
    "plain": dict(data_name="d.npy", indices_name="i.npy", indptr_name="p.npy", vocab_name="v.json",
                  params_name="params.json", nnoc_name="n.npy"),
    "noext": dict(data_name="data", indices_name="indices", indptr_name="indptr", vocab_name="vocab",
                  params_name="params", nnoc_name="nnoc"),
    "odd": dict(data_name="données 1.bin", indices_name="ind.ices.x.npy", indptr_name="ptr.NPY", vocab_name="vocab.txt",
                params_name="p.a.r.json", nnoc_name="n n.npy"),
    "one": dict(data_name="scores.npy"),
    "shadow": dict(data_name="indices.csc.index.npy", indices_name="data.csc.index.npy"),
}
PARAMS = ["k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend"]

dir_names = st.sampled_from(["idx", "a b", "\u00efndex", "v1.0", "x.npy", "deep/er/dir"])


def index_of(case, mod=bm25s, backend="numpy"):
    docs = gen.expand(case["corpus"])
    form = case.get("docform", "tokens")
    kw = dict(create_empty_token=case.get("empty", True))
    if form == "tokens":
        src = docs
    elif form == "tokenized":
        v = gen.vocab_of(docs)
        ws = list(v)
        random.Random(len(ws)).shuffle(ws)
        v = {w: i for i, w in enumerate(ws)}
        src = ([[v[t] for t in d] for d in docs], v)
    else:  # bare ids
        v = gen.vocab_of(docs)
        src = [[v[t] for t in d] for d in docs]
    return docs, sut.build(case["params"], src, backend=backend, cls=mod.BM25, **kw)


def bits(a):
    a = np.asarray(a)
    return (str(a.dtype), a.shape, a.tobytes())


def same_bits(a, b, what):
    if bits(a) != bits(b):
        fail("%s: %s instead of %s", what, np.asarray(a).ravel()[:20].tolist(), np.asarray(b).ravel()[:20].tolist())


def check_params(x, r, what):
    for p in PARAMS:
        expect(getattr(x, p) == getattr(r, p) and type(getattr(x, p)) is type(getattr(r, p)),
               "%s: %s is %r instead of %r", what, p, getattr(x, p), getattr(r, p))
    expect(x.scores["num_docs"] == r.scores["num_docs"], "%s: %r documents instead of %r", what,
           x.scores["num_docs"], r.scores["num_docs"])


def token_ids(r, queries):
    out = []
    for q in queries:
        ids = [r.vocab_dict[t] for t in q if t in r.vocab_dict]
        if ids:
            out.append(ids)
    return out


@register
class C11(Prop):
    pid = "C11"
    rule = ("index (any variant, types, awkward Unicode tokens, indexed from strings, ids with vocabulary or bare ids) x file names x "
            "in memory / memory-mapped x with or without vocabulary x JSON implementation on each side x chain of save and load; "
            "non-trivial: a query scores a document non-zero")
    examples = dict(quick=1400, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            numba = draw(st.integers(0, 9)) == 0
            p = draw(gen.params(numba=prof if numba else None))
            c = draw(gen.corpus(empty_word=True, max_docs=8))
            return dict(params=p, corpus=c, numba=numba,
                        docform=draw(st.sampled_from(["tokens", "tokens", "tokenized", "bare"])),
                        empty=draw(st.sampled_from([True, True, False])),
                        names=draw(st.sampled_from(["default"] * 3 + sorted(CUSTOM))),
                        dir=draw(dir_names), mmap=draw(st.booleans()),
                        vocab=draw(st.sampled_from([True, True, True, False])),
                        save_impl=draw(st.sampled_from(["default", "default", "builtin"])),
                        load_impl=draw(st.sampled_from(["default", "default", "builtin"])),
                        chain=draw(st.sampled_from([1, 1, 1, 2, 3])),
                        other=draw(st.booleans()), aspath=draw(st.booleans()),
                        pickle=draw(st.sampled_from([None, None, [True, True], [True, False], [False, True]])),
                        parts=draw(st.sampled_from([None, None, "new", "used"])),
                        queries=draw(gen.queries(c, max_size=3)), k=gen.pick_k(draw, n_docs(dict(corpus=c))),
                        form=draw(st.sampled_from(["strings", "tokenized", "tuple", "ids"])))
        return f()

    def fixed(self, ctx):
        base = dict(params=FIXED_P, corpus={"words": ["a", "b"], "docs": [[0], [1], [0, 1, 1]]}, numba=False,
                    docform="tokens", empty=True, names="default", dir="idx", mmap=False, vocab=True,
                    save_impl="default", load_impl="default", chain=1, other=False, aspath=False,
                    queries=[["a"], ["b", "zzz"], []], k=2, form="strings")
        out = []
        # values that only a faithful parameter file keeps
        for i, (k1, b, delta) in enumerate([(0.1, 1 / 3, 2.5), (2, 0, 1), (1e-3, 0.123456789012345, 1e-9), (7.25, 1, 0)]):
            for m in gen.METHODS:
                im = gen.METHODS[(gen.METHODS.index(m) + i) % 5]
                out.append(dict(base, params=dict(FIXED_P, k1=k1, b=b, delta=delta, method=m, idf_method=im,
                                                  dtype=["float32", "float64"][i % 2], int_dtype=["int32", "int64"][i // 2]),
                                mmap=bool(i % 2), names=["default", "plain", "noext", "odd"][i]))
        # every awkward word, either JSON implementation on either side
        words = gen.WORDS + gen.ODD + [""]
        odd = dict(words=words, docs=[[i, (i * 7) % len(words)] for i in range(len(words))])
        for si in ("default", "builtin"):
            for li in ("default", "builtin"):
                for m in (False, True):
                    out.append(dict(base, corpus=odd, save_impl=si, load_impl=li, mmap=m, k=3, chain=2,
                                    queries=[[w] for w in words]))
        # all of the lower planes, one word per chunk of characters
        for lo in range(0, 0x3000, 0x400):
            ws = [chr(j) for j in range(lo, lo + 0x400)] + ["%sx%s" % (chr(lo + 0x20000), chr(lo))]
            out.append(dict(base, corpus=dict(words=ws, docs=[list(range(0, len(ws), 2)), list(range(1, len(ws), 2)), [0]]),
                            queries=[[w] for w in ws[::64]], k=1))
        # sizes
        for m in (False, True):
            for p in (dict(FIXED_P), dict(FIXED_P, method="bm25l", dtype="float64", int_dtype="int64"), dict(FIXED_P, method="bm25+")):
                for kw in (dict(docs=3000, vocab=5000, length=30), dict(docs=70000, vocab=40, length=3, minlen=1)):
                    c = gen.big_corpus(**kw)
                    out.append(dict(base, params=p, corpus=c, mmap=m, queries=[["w0", "w1"], ["w3"], ["w30", "zzz"]], k=5,
                                    docform="tokenized"))
            # nothing stored at all
            for docs in ([[], []], [[]]):
                out.append(dict(base, corpus=dict(words=["a"], docs=docs), mmap=m, queries=[["a"], []], k=1))
        # numba backend, and an index without vocabulary
        for m in (False, True):
            out.append(dict(base, params=prof_params(ctx.prof), numba=True, mmap=m, corpus=gen.big_corpus(docs=40, vocab=9), k=7,
                            queries=[["w0"], ["w1", "w2", "w2"], ["zzz"]]))
            for i in range(2):
                out.append(dict(base, vocab=False, mmap=m, params=dict(FIXED_P, method=["lucene", "bm25l"][i])))
        return out

    def run(self, case, ctx):
        S, L = sut.impl(case["save_impl"]), sut.impl(case["load_impl"])
        backend = "numba" if case["numba"] else "numpy"
        if case["numba"]:
            S = L = bm25s
        docs, r = index_of(case, mod=S, backend=backend)
        n = len(docs)
        root = ctx.tmp()
        d = os.path.join(root, *case["dir"].split("/"))
        names = CUSTOM.get(case["names"], {})
        if case["other"]:
            # another index lives in the same directory under other names
            o = sut.build(dict(FIXED_P, method="bm25+"), [["other", "a"], ["b"]], cls=S.BM25)
            o.save(d, **{k: "other." + DEFAULT_NAMES[k] for k in NAMES})
        queries = [q for q in case["queries"]]
        ids = token_ids(r, queries) if case["docform"] != "bare" else \
            [x for x in [[gen.vocab_of(docs).get(t, -1) for t in q] for q in queries] if x and min(x) >= 0]
        before = [bits(r.get_scores_from_ids(q)) for q in ids]
        ps, pl = ({}, {}) if not case.get("pickle") else [dict(allow_pickle=v) for v in case["pickle"]]
        r.save(pathlib.Path(d) if case["aspath"] else d, **names, **ps)
        if case.get("parts"):
            # the arrays alone, into an object with the same parameters
            y = L.BM25(backend=backend, **{k: case["params"][k] for k in PARAMS if k in case["params"]})
            if case["parts"] == "used":
                y = sut.build(case["params"], [["some", "other"], ["index"]], backend=backend, cls=L.BM25)
            y.load_scores(d, num_docs=n, mmap=case["mmap"], **pl,
                          **{k: v for k, v in names.items() if k in ("data_name", "indices_name", "indptr_name")})
            for part in ("data", "indices", "indptr"):
                same_bits(y.scores[part], r.scores[part], "array %s read by load_scores" % part)
            expect(y.scores["num_docs"] == n, "load_scores keeps %r documents instead of %d", y.scores["num_docs"], n)
        x = r
        for step in range(case["chain"]):
            last = step == case["chain"] - 1
            x = L.BM25.load(pathlib.Path(d) if case["aspath"] else d, mmap=case["mmap"],
                            load_vocab=case["vocab"] if last else True, **names, **pl)
            if not last:
                d = os.path.join(root, "next%d" % step)
                x.save(d, **names, **ps)
        check_params(x, r, "after loading")
        for part in ("data", "indices", "indptr"):
            expect(np.array_equal(x.scores[part], r.scores[part]) and x.scores[part].dtype == r.scores[part].dtype,
                   "array %s changed by save and load", part)
        if case["vocab"]:
            want = {str(k): v for k, v in r.vocab_dict.items()}
            expect(len(want) == len(r.vocab_dict) and x.vocab_dict == want, "vocabulary changed: %s", lambda_diff(x.vocab_dict, want))
        else:
            expect(not x.vocab_dict, "vocabulary loaded although not asked for")
        for q, b in zip(ids, before):
            expect(bits(r.get_scores_from_ids(q)) == b, "saving changed the scores of %s", q)
            expect(bits(x.get_scores_from_ids(q)) == b, "scores of ids %s differ after loading", q)
            same_bits(x.get_scores(list(q)), r.get_scores(list(q)), "scores of id list %s after loading" % q)
        if not case["vocab"]:
            return
        if case["docform"] == "bare":
            # (an empty list and a list of lists without ids are different query forms; keep ids only)
            if not ids:
                return
            qs = ids
        else:
            for q in queries:
                if q:
                    same_bits(x.get_scores(list(q)), r.get_scores(list(q)), "scores of %r after loading" % (q,))
            if L is not S or S is not bm25s:
                case = dict(case, form="strings") if case["form"] in ("tokenized",) else case
            qs = as_form(case["form"], queries, r)
            if case["form"] == "ids" and "" not in r.vocab_dict and any(
                    not [t for t in q if t in r.vocab_dict] for q in queries):
                return
            if case["form"] == "ids" and not any(queries):
                return
        kw = dict(k=case["k"], show_progress=False, backend_selection="auto" if case["numba"] else "numpy")
        a, b = r.retrieve(qs, **kw), x.retrieve(qs, **kw)
        same_bits(np.asarray(b.scores), np.asarray(a.scores), "retrieved scores after loading")
        same_bits(np.asarray(b.documents), np.asarray(a.documents), "retrieved documents after loading")

    def labels(self, case):
        return (gen.labels_params(case["params"]) + ["names " + case["names"], "mmap" if case["mmap"] else "in memory",
                "json %s->%s" % (case["save_impl"], case["load_impl"]), "docs as " + case["docform"], "chain %d" % case["chain"],
                "numba" if case["numba"] else "numpy"] + ([] if case["vocab"] else ["no vocabulary"]))

    def nontrivial(self, case):
        known = {t for d in gen.expand(case["corpus"]) for t in d}
        return any(t in known for q in case["queries"] for t in q)


def lambda_diff(a, b):
    missing = sorted(set(b) - set(a))[:5]
    extra = sorted(set(a) - set(b))[:5]
    moved = [k for k in b if k in a and a[k] != b[k]][:5]
    return "missing %r, extra %r, other ids %r" % (missing, extra, moved)


# ---------------------------------------------------------------- C12

CORPUS_NAMES = ["corpus.jsonl", "corpus.jsonl", "docs", "my.corpus.json", ".hidden", "a.b.c.jsonl", "\u043a\u043e\u0440\u043f\u0443\u0441.jsonl",
                "two words.txt", "corpus.mm.jsonl", "x.JSONL", "dot."]

str_doc = text.map(lambda v: ["s", v])
dict_doc = st.one_of(
    st.dictionaries(text, jsonv, max_size=3),
    st.dictionaries(st.sampled_from(["id", "text", "title", "_id", "metadata"]), st.one_of(jsonv, text, st.integers(0, 9)), max_size=4),
    st.fixed_dictionaries(dict(id=st.one_of(st.integers(0, 9), text, jsonv), text=st.one_of(text, jsonv)))).map(lambda v: ["s", v])
int_dict = st.lists(st.tuples(st.one_of(st.integers(-3, 9), st.integers(-2**63, 2**63 - 1)), jsonv), max_size=3,
                    unique_by=lambda t: t[0]).map(lambda v: ["i", [list(x) for x in v]])
list_doc = st.lists(jsonv, max_size=3).map(lambda v: ["s", v])
tuple_doc = st.lists(jsonv, max_size=3).map(lambda v: ["t", v])
big_int_doc = st.integers(2**63, 2**64 - 1).map(lambda v: ["s", {"n": v}])
ELEMS = dict(str=str_doc, dict=dict_doc, int=int_dict, list=list_doc, tuple=tuple_doc,
             mix=st.one_of(str_doc, str_doc, dict_doc, int_dict, list_doc, tuple_doc, big_int_doc))


def elem(e):
    if e[0] == "i":
        return {k: v for k, v in e[1]}
    if e[0] == "t":
        return tuple(e[1])
    return e[1]


def denotes(v):
    """The JSON value something denotes."""
    if isinstance(v, dict):
        return {str(k) if isinstance(k, int) else k: denotes(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [denotes(x) for x in v]
    return v


def stored(elements):
    return [{"id": i, "text": e} if isinstance(e, str) else denotes(e) for i, e in enumerate(elements)]


def same_corpus(got, want, what):
    got = list(got)
    expect(len(got) == len(want), "%s: %d documents instead of %d", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        expect(same(g, w), "%s: document %d is %r instead of %r", what, i, g, w)


def tree(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for f in dirs:
            out[os.path.relpath(os.path.join(base, f), root)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


@register
class C12(Prop):
    pid = "C12"
    rule = ("corpus of JSON values (strings, dictionaries with string or integer keys, lists, tuples, mixes; any Unicode) x given at save / "
            "attached / both x container (list, tuple, generator, array) x corpus file name x JSON implementation on each side x backend; "
            "loaded both in memory and memory-mapped; non-trivial: at least two different documents")
    examples = dict(quick=1200, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            kind = draw(st.sampled_from(sorted(ELEMS) + ["mix"]))
            els = draw(st.lists(ELEMS[kind], min_size=1, max_size=8))
            n = len(els)
            words = ["a", "b", "c"]
            docs = draw(st.lists(st.lists(st.integers(0, 2), min_size=1, max_size=4), min_size=n, max_size=n))
            numba = draw(st.integers(0, 9)) == 0
            return dict(elements=els, corpus=dict(words=words, docs=docs), kind=kind, numba=numba,
                        params=prof_params(prof) if numba else FIXED_P,
                        route=draw(st.sampled_from(["save", "save", "attached", "both", "set", "jsonl"])),
                        container=draw(st.sampled_from(["list", "list", "tuple", "generator", "array", "strings"])),
                        name=draw(st.sampled_from(CORPUS_NAMES)), dir=draw(dir_names),
                        save_impl=draw(st.sampled_from(["default", "default", "builtin"])),
                        load_impl=draw(st.sampled_from(["default", "default", "builtin"])),
                        queries=draw(gen.queries(dict(words=words), max_size=3, empty=False)), k=draw(st.integers(1, n)),
                        loads=draw(st.sampled_from([["mem", "mmap"], ["mmap", "mem", "mmap"], ["mmap"]])))
        return f()

    def fixed(self, ctx):
        def case(els, **kw):
            n = len(els)
            d = dict(elements=els, corpus=dict(words=["a", "b", "c"], docs=[[i % 3] for i in range(n)]), kind="fixed", numba=False,
                     params=FIXED_P, route="save", container="list", name="corpus.jsonl", dir="idx", save_impl="default",
                     load_impl="default", queries=[["a"], ["b", "c"]], k=min(3, n), loads=["mem", "mmap"])
            d.update(kw)
            return d

        odd = [["s", {"t": w, w: 1}] for w in gen.ODD] + [["s", w] for w in gen.ODD]
        out = []
        for si in ("default", "builtin"):
            for li in ("default", "builtin"):
                out.append(case(odd, save_impl=si, load_impl=li))
        for n in CORPUS_NAMES:
            for d in ("idx", "v1.0"):
                out.append(case([["s", "one"], ["s", "two \u00e9"], ["s", {"a": [1, 2.5, None, True]}]], name=n, dir=d))
        # every character once, alone and next to others
        for lo in range(0, 0x3000, 0x800):
            out.append(case([["s", "%s-%s" % (chr(j), chr(j))] for j in range(lo, lo + 0x800)]))
        # lines around buffer sizes, many lines
        for size in (8190, 8191, 8192, 8193, 65536, 300000):
            out.append(case([["s", "\u00e9" * (size // 2)], ["s", "after"], ["s", "x" * size], ["s", "end"]]))
        out.append(case([["s", "document %d %s" % (i, "\u00e9" * (i % 50))] for i in range(3000)], k=5))
        out.append(case([["s", {"id": i, "n": i * 2**40, "f": i / 7}] for i in range(70)], numba=True,
                        params=prof_params(ctx.prof), k=9))
        for route in ("save", "attached", "both", "set", "jsonl"):
            for cont in ("list", "tuple", "generator", "array"):
                out.append(case([["s", "a"], ["s", {"k": 1}], ["t", [1, 2]], ["s", [3]]], route=route, container=cont))
            out.append(case([["s", x] for x in ("a ", " b", "c\n", "\u00e9\t", "", " ", "d\r\n", "\ufeffe", "f\u3000", "g\x00h", "\u2028")],
                            route=route, container="strings"))
        # beyond 2**16 documents
        out.append(case([["s", {"id": i, "t": "x" * (i % 5)}] for i in range(65700)], k=5))
        out.append(case([["s", "text %d" % i] for i in range(65700)], k=5, route="attached", container="strings"))
        out.append(case([["i", [[1, "a"], [-5, {"x": 2}]]], ["i", [[2**63 - 1, 0], [0, None]]]]))
        out.append(case([["s", {"v": v}] for v in (0, -0.0, 5e-324, 1.7976931348623157e308, 0.1, 1e22, 2**53 + 1, -2**63, 2**63 - 1,
                                                   2**64 - 1, True, False, None, [], {}, "", [[]], {"": {}})]))
        return out

    def run(self, case, ctx):
        S, L = sut.impl(case["save_impl"]), sut.impl(case["load_impl"])
        if case["numba"]:
            S = L = bm25s
        els = [elem(e) for e in case["elements"]]
        want = stored(els)
        docs = gen.expand(case["corpus"])
        n = len(docs)
        root = ctx.tmp()
        work = os.path.join(root, "work")
        os.makedirs(work)
        d = os.path.join(root, *case["dir"].split("/"))
        os.makedirs(d)

        def given(e=els):
            c = case["container"]
            if c == "generator" and case["route"] == "save":
                return (x for x in e)
            if c == "tuple":
                return tuple(e)
            if c == "strings" and all(isinstance(x, str) and not x.endswith("\x00") for x in e):
                return np.array(e)
            if c in ("array", "strings"):
                a = np.empty(len(e), dtype=object)
                for i, x in enumerate(e):
                    a[i] = x
                return a
            return list(e)

        backend = "numba" if case["numba"] else "numpy"
        r = S.BM25(backend=backend, **case["params"])
        route = case["route"]
        arg = None
        wrong = [{"wrong": i} for i in range(n + 1)]
        if route == "attached":
            r = S.BM25(backend=backend, corpus=given(), **case["params"])
        elif route == "both":
            r = S.BM25(backend=backend, corpus=wrong, **case["params"])
            arg = given()
        elif route == "set":
            r.corpus = given()
        elif route == "jsonl":
            path = os.path.join(work, "source.jsonl")
            with open(path, "w", encoding="utf-8", newline="\n") as f:
                for v in want:
                    f.write(json.dumps(v, ensure_ascii=False) + "\n")
            arg = S.utils.corpus.JsonlCorpus(path, show_progress=False)
        else:
            arg = given()
        r.index(docs, show_progress=False)
        kw = {} if case["name"] == "corpus.jsonl" else dict(corpus_name=case["name"])
        before = tree(root)
        cwd = os.getcwd()
        os.chdir(work)
        try:
            r.save(d, corpus=arg, **kw)
        finally:
            os.chdir(cwd)
        after = tree(root)
        reld = os.path.relpath(d, root) + os.sep
        expect({k: v for k, v in after.items() if not k.startswith(reld)} == {k: v for k, v in before.items() if not k.startswith(reld)},
               "saving changed files outside of the index directory: %s", sorted(set(after) ^ set(before)))
        r.corpus = None
        ids = np.asarray(r.retrieve(case["queries"], k=case["k"], show_progress=False, backend_selection="auto" if case["numba"] else "numpy").documents)
        for mode in case["loads"]:
            what = "loaded %s" % mode
            x = L.BM25.load(d, load_corpus=True, mmap=mode == "mmap", **kw)
            expect(x.corpus is not None and len(x.corpus) == n, "%s: corpus of %s documents instead of %d", what,
                   None if x.corpus is None else len(x.corpus), n)
            if mode == "mem":
                expect(type(x.corpus) is list, "%s: corpus is a %s", what, type(x.corpus))
            same_corpus(x.corpus, want, what)
            for i in (0, n - 1, -1, n // 2):
                expect(same(x.corpus[i], want[i]), "%s: corpus[%d] is %r instead of %r", what, i, x.corpus[i], want[i])
            res = x.retrieve(case["queries"], k=case["k"], show_progress=False, backend_selection="auto" if case["numba"] else "numpy")
            check_docs(res.documents, want, ids, what)
            if mode == "mmap":
                x.corpus.close()
        inner = {k: v for k, v in tree(root).items() if not k.startswith(reld)}
        expect(inner == {k: v for k, v in before.items() if not k.startswith(reld)}, "loading changed files outside of the index directory")

    def labels(self, case):
        return ["elements " + case["kind"], "route " + case["route"], "container " + case["container"], "name " + case["name"],
                "json %s->%s" % (case["save_impl"], case["load_impl"])]

    def nontrivial(self, case):
        return len({json.dumps(e, sort_keys=True) for e in case["elements"]}) > 1


# ---------------------------------------------------------------- C14

def doc_elements(kind, n, seed):
    g = random.Random(seed)
    if kind == "str":
        return ["text %d %s" % (i, g.choice(["", "\u00e9", "long " * g.randint(0, 40)])) for i in range(n)]
    if kind == "perm":  # the same texts whatever the seed, in another order: files of the same size with other lines
        out = ["%d %s" % (10**9 + i, "pad " * (i % 7)) for i in range(n)]
        g.shuffle(out)
        return out
    return [{"id": i, "v": g.randint(0, 10**6), "t": "x" * g.randint(0, 30)} for i in range(n)]


@register
class C14(Prop):
    pid = "C14"
    rule = ("sequence of build / re-index / save (with or without corpus, to the same or other directories, over the object's own files) / load "
            "(in memory or memory-mapped, with or without corpus) operations on several objects and directories, checked after every step "
            "against a model of the last save; non-trivial: a directory is saved to at least twice")
    examples = dict(quick=900, thorough=15000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        spec = st.fixed_dictionaries(dict(
            method=st.sampled_from(gen.METHODS), seed=st.integers(0, 9999), docs=st.sampled_from([1, 2, 3, 5, 9, 30, 200]),
            vocab=st.sampled_from([2, 5, 30, 400]), length=st.sampled_from([1, 4, 12]),
            dtype=st.sampled_from(["float32", "float64"]), int_dtype=st.sampled_from(["int32", "int64"])))
        corp = st.sampled_from([None, "str", "dict", "perm"])
        op = st.one_of(
            st.tuples(st.just("build"), spec, corp),
            st.tuples(st.just("reindex"), st.integers(0, 5), spec),
            st.tuples(st.just("save"), st.integers(0, 5), st.integers(0, 2), corp),
            st.tuples(st.just("save"), st.integers(0, 5), st.integers(0, 2), st.none()),
            st.tuples(st.just("resave"), st.integers(0, 5)),
            st.tuples(st.just("load"), st.integers(0, 2), st.booleans(), st.booleans()),
            st.tuples(st.just("load"), st.integers(0, 2), st.just(True), st.just(True)),
        )
        return st.fixed_dictionaries(dict(first=st.tuples(spec, corp), ops=st.lists(op.map(list), min_size=2, max_size=9),
                                          names=st.sampled_from(["default"] * 4 + ["noext", "plain", "shared", "shared"]),
                                          impl=st.sampled_from(["default"] * 4 + ["builtin"])))

    def fixed(self, ctx):
        s = lambda m="lucene", docs=9, seed=1, **kw: dict(method=m, seed=seed, docs=docs, vocab=5, length=4, dtype="float32", int_dtype="int32", **kw)
        big = lambda m="lucene", **kw: dict(method=m, seed=3, docs=3000, vocab=300, length=20, dtype="float32", int_dtype="int32")
        out = []
        for spec in (s(), s("bm25l"), big(), big("bm25+")):
            for mm in (False, True):
                for c in (False, True):
                    # over itself, again and again
                    out.append(dict(first=[spec, "str"], names="default", impl="default", ops=[
                        ["save", 0, 0, None], ["load", 0, mm, c], ["resave", 1], ["load", 0, mm, c], ["resave", 2], ["load", 0, not mm, True]]))
        # smaller over larger and the reverse, with and without non-occurrence scores and corpora
        for a, b in ((big(), s()), (s(), big()), (s("bm25l"), s("robertson", docs=3)), (s("atire"), s("bm25+", docs=30))):
            for ca in (None, "str", "dict"):
                out.append(dict(first=[a, ca], names="default", impl="default", ops=[
                    ["save", 0, 0, None], ["load", 0, True, True], ["build", b, "dict"], ["save", 2, 0, None], ["load", 0, True, True],
                    ["save", 1, 0, None], ["load", 0, False, True], ["save", 3, 1, None], ["load", 1, True, True]]))
        for kind in ("str", "dict"):
            for spec in (s("bm25l"), big()):
                out.append(dict(first=[s(), kind], names="shared", impl="default", ops=[
                    ["save", 0, 0, None], ["build", spec, kind], ["save", 1, 1, None], ["build", s("bm25+", docs=4), kind], ["save", 2, 2, None],
                    ["load", 0, True, True], ["load", 1, True, True], ["save", 4, 2, None], ["load", 2, False, True], ["resave", 3], ["save", 2, 1, "str"]]))
        # the same number of documents, other texts: a line index of the past would be off
        for x, y in (("str", "dict"), ("dict", "str"), ("str", "str"), ("perm", "perm")):
            out.append(dict(first=[s(), x], names="default", impl="default", ops=[
                ["save", 0, 0, None], ["load", 0, True, True], ["build", s(seed=5), y], ["save", 2, 0, None], ["load", 0, True, True],
                ["save", 3, 1, y], ["load", 1, True, True], ["reindex", 0, s(seed=8)], ["save", 0, 1, None], ["load", 1, True, True]]))
        return out

    def run(self, case, ctx):
        M = sut.impl(case["impl"])
        root = ctx.tmp()
        dirs = [os.path.join(root, n) for n in ("one", "two", "three/3")]
        names = [CUSTOM.get(case["names"], {})] * 3
        if case["names"] == "shared":  # three indexes side by side in one directory
            dirs = [os.path.join(root, "all")] * 3
            names = [{}] + [dict({k: "%s.%s" % (v, n) for k, n in DEFAULT_NAMES.items()}, corpus_name=c)
                            for v, c in (("v1", "corpus.v1.jsonl"), ("v1.2", "corpus.v2.jsonl"))]
        model = {}  # directory -> (spec, corpus or None if unspecified)
        objs = []   # [object, spec, corpus or None, directory loaded from]
        truth = {}

        def expand(spec):
            return gen.expand({"rng": dict(seed=spec["seed"], docs=spec["docs"], vocab=spec["vocab"], length=spec["length"], minlen=0)})

        def params(spec):
            return dict(method=spec["method"], dtype=spec["dtype"], int_dtype=spec["int_dtype"])

        def build(spec, kind):
            corpus = None if kind is None else doc_elements(kind, spec["docs"], spec["seed"])
            r = M.BM25(corpus=corpus, **params(spec))
            r.index(expand(spec), show_progress=False)
            objs.append([r, spec, None if corpus is None else stored(corpus), None])

        def fresh(spec):
            key = json.dumps(spec, sort_keys=True)
            if key not in truth:
                r = sut.build(params(spec), expand(spec), cls=M.BM25)
                words = ["w%d" % i for i in range(min(spec["vocab"], 6))]
                qs = [[w] for w in words] + [words, ["zzz"], ["w0", "w0"]]
                truth[key] = (qs, [bits(r.get_scores(q)) for q in qs], dict(r.vocab_dict),
                              [bits(r.scores[p]) for p in ("data", "indices", "indptr")], r)
            return truth[key]

        def check(r, spec, what):
            qs, want, vocab, arrays, f = fresh(spec)
            check_params(r, f, what)
            expect(r.vocab_dict == vocab, "%s: vocabulary: %s", what, lambda_diff(r.vocab_dict, vocab))
            for p, b in zip(("data", "indices", "indptr"), arrays):
                expect(bits(r.scores[p]) == b, "%s: array %s is not the one of the index", what, p)
            for q, b in zip(qs, want):
                expect(bits(r.get_scores(q)) == b, "%s: scores of %s", what, q)
            n = spec["docs"]
            k = min(n, 3)
            a = r.retrieve(qs, corpus=list(range(n)), k=k, show_progress=False, backend_selection="numpy")
            b = f.retrieve(qs, k=k, show_progress=False, backend_selection="numpy")
            same_bits(np.asarray(a.documents), np.asarray(b.documents), what + ": retrieved")

        build(*case["first"])
        for step, op in enumerate(case["ops"]):
            what = "step %d %s" % (step, op[0])
            if op[0] == "build":
                build(op[1], op[2])
            elif op[0] == "reindex":
                o = objs[op[1] % len(objs)]
                spec = dict(op[2], **{k: o[1][k] for k in ("method", "dtype", "int_dtype")})
                o[0].index(expand(spec), show_progress=False)
                o[1] = spec
            elif op[0] in ("save", "resave"):
                o = objs[op[1] % len(objs)]
                if op[0] == "resave":
                    if o[3] is None:
                        continue
                    d, kind = o[3], None
                else:
                    d, kind = op[2], op[3]
                arg = None if kind is None else doc_elements(kind, o[1]["docs"], o[1]["seed"] + 17)
                o[0].save(dirs[d], corpus=arg, **names[d])
                corpus = stored(arg) if arg is not None else o[2]
                # without a corpus in this save, nothing is promised about an older corpus file
                model[d] = (o[1], corpus)
            elif op[0] == "load":
                d = op[1]
                if d not in model:
                    continue
                spec, corpus = model[d]
                c = op[3] and corpus is not None
                r = M.BM25.load(dirs[d], mmap=op[2], load_corpus=c, **names[d])
                objs.append([r, spec, corpus if c else None, d])
            for j, o in enumerate(objs):
                check(o[0], o[1], "%s: object %d" % (what, j))
                if o[2] is not None:
                    same_corpus(stored([o[0].corpus[i] for i in range(len(o[0].corpus))]), o[2], "%s: corpus of object %d" % (what, j))
            if op[0] in ("save", "resave"):
                for d, (spec, corpus) in model.items():
                    for mm in (False, True):
                        r = M.BM25.load(dirs[d], mmap=mm, load_corpus=corpus is not None, **names[d])
                        w = "%s: directory %d loaded %s" % (what, d, "memory-mapped" if mm else "in memory")
                        check(r, spec, w)
                        if corpus is not None:
                            same_corpus([r.corpus[i] for i in range(len(r.corpus))], corpus, w)

    def labels(self, case):
        return ["ops %d" % len(case["ops"])] + sorted({o[0] for o in case["ops"]})

    def nontrivial(self, case):
        saves = [o for o in case["ops"] if o[0] in ("save", "resave")]
        return len(saves) >= 2


# ---------------------------------------------------------------- C15

@register
class C15(Prop):
    pid = "C15"
    rule = ("saved index (any variant, sizes, file names) x each needed file x removal or truncation (every length for small files, else a "
            "sample with all boundaries) x memory-mapped or not; the intact directory must load before and after; every case is non-trivial")
    examples = dict(quick=240, thorough=6000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            c = draw(gen.corpus(empty_word=True, max_docs=6))
            return dict(params=draw(gen.params()), corpus=c, names=draw(st.sampled_from(["default", "default", "plain", "noext"])),
                        mmap=draw(st.booleans()), corpusfile=draw(st.booleans()), seed=draw(st.integers(0, 10**6)),
                        cuts=draw(st.sampled_from([15, 40])), impl=draw(st.sampled_from(["default", "default", "builtin"])))
        return f()

    def fixed(self, ctx):
        out = []
        for i, m in enumerate(gen.METHODS):
            for mm in (False, True):
                out.append(dict(params=dict(FIXED_P, method=m, dtype=["float32", "float64"][i % 2], int_dtype=["int32", "int64"][i % 2]),
                                corpus={"words": ["a", "b", "\u00e9"], "docs": [[0], [1, 2], [0, 1, 1]]}, names="default", mmap=mm,
                                corpusfile=bool(i % 2), seed=1, cuts=10**6, impl="default"))
        for mm in (False, True):
            out.append(dict(params=dict(FIXED_P, method="bm25l"), corpus=gen.big_corpus(docs=2000, vocab=500, length=10), names="default",
                            mmap=mm, corpusfile=False, seed=1, cuts=60, impl="default"))
            out.append(dict(params=FIXED_P, corpus=dict(words=["a"], docs=[[]]), names="default", mmap=mm, corpusfile=False, seed=1,
                            cuts=10**6, impl="default"))
        return out

    def run(self, case, ctx):
        M = sut.impl(case["impl"])
        docs = gen.expand(case["corpus"])
        r = sut.build(case["params"], docs, cls=M.BM25)
        names = CUSTOM.get(case["names"], {})
        full = dict(DEFAULT_NAMES, **names)
        d = os.path.join(ctx.tmp(), "idx")
        r.save(d, corpus=["t"] * len(docs) if case["corpusfile"] else None, **names)
        needed = [k for k in NAMES if k != "nnoc_name" or gen.is_nnoc(case["params"])]
        g = random.Random(case["seed"])

        def load(**kw):
            x = M.BM25.load(d, mmap=case["mmap"], **dict(names, **kw))
            # nothing may keep the file open or mapped while it is changed
            out = [bits(x.scores[p]) for p in ("data", "indices", "indptr")] + [x.vocab_dict, x.scores["num_docs"], x.method]
            if x.nonoccurrence_array is not None:
                out.append(bits(x.nonoccurrence_array))
            del x
            return out

        intact = load()
        whole = [bits(r.scores[p]) for p in ("data", "indices", "indptr")] + [r.vocab_dict, r.scores["num_docs"], r.method]
        if r.nonoccurrence_array is not None:
            whole.append(bits(r.nonoccurrence_array))
        expect(intact == whole, "the intact directory does not load as saved")
        for k in needed:
            path = os.path.join(d, full[k])
            with open(path, "rb") as f:
                content = f.read()
            n = len(content)
            cuts = sorted(range(n)) if n <= case["cuts"] else sorted(
                {0, 1, 6, 8, 10, 64, 127, 128, 129, n // 2, n - 9, n - 8, n - 5, n - 4, n - 2, n - 1} | {g.randrange(n) for _ in range(case["cuts"])})
            for cut in [None] + [c for c in cuts if 0 <= c < n]:
                if os.path.exists(path):
                    os.remove(path)
                if cut is not None:
                    with open(path, "wb") as f:
                        f.write(content[:cut])
                try:
                    load()
                except Exception:
                    pass
                else:
                    fail("loading succeeds although %s (%s) is %s", k, full[k],
                         "missing" if cut is None else "cut to %d of %d bytes" % (cut, n))
                if cut is not None and k == "vocab_name" and cut % 5 == 0:
                    load(load_vocab=False)  # the vocabulary is not needed then
            if os.path.exists(path):
                os.remove(path)
            with open(path, "wb") as f:
                f.write(content)
            expect(load() == intact, "the restored directory does not load as before (%s)", k)

    def labels(self, case):
        return gen.labels_params(case["params"]) + ["mmap" if case["mmap"] else "in memory"]
