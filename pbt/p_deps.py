"""C27: missing optional dependencies change nothing but speed."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import bm25s

from . import gen, ref, sut
from .core import Prop, expect, fail, register
from .p_beir import check_loaded, dataset, snapshot, write_dataset, zipped
from .p_docs import same
from .p_e2e import sentence
from .p_persist import bits, check_params, lambda_diff
from .p_retrieve import FIXED_P
from .p_token import list_stemmer, make_tokenizer, stop_arg, stop_spec, text_

NAMES = ["numba", "jax", "orjson", "tqdm", "Stemmer", "resource"]
OPS = ["tokenize", "index", "retrieve", "exchange", "exchange", "jsonl", "tokenizer files", "ask", "beir"]


@register
class C27(Prop):
    pid = "C27"
    rule = ("non-empty set of missing optional dependencies (numba, jax, orjson, tqdm, Stemmer, resource) x texts, tokenization options, parameters, "
            "queries, progress display x sequence of tokenizing, retrieving, saving with one installation and loading with the other, line-indexed "
            "corpora, BEIR datasets (also downloaded) and requests for what is missing; non-trivial: a query with a known token is answered, or files are exchanged")
    examples = dict(quick=1200, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            texts = draw(st.lists(st.one_of(sentence, sentence, text_(5)), min_size=1, max_size=7))
            q = st.one_of(sentence, st.sampled_from(texts), st.just(""), st.just("zebra unknown"))
            ops = draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=5))
            return dict(missing=draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True)), texts=texts,
                        queries=draw(st.lists(q, min_size=1, max_size=4)), params=draw(gen.params()), progress=draw(st.booleans()),
                        spec=dict(lower=draw(st.booleans()), splitter=draw(st.sampled_from([r"\w+", r"(?u)\b\w\w+\b", r"\S+"])), stop=draw(stop_spec(sets=False)),
                                  stemmer=draw(st.sampled_from([None, None, "snow:english", "prefix3"])), kind=draw(st.sampled_from(["call", "object"]))),
                        threads=draw(st.sampled_from([0, 0, 2])), k=draw(st.sampled_from([*range(1, 10), 40, 70, 90])), more=draw(st.sampled_from([0] * 9 + [50, 90])), mask=draw(st.booleans()), ops=ops,
                        dataset=draw(dataset()) if "beir" in ops else None, seed=draw(st.integers(0, 99)))
        return f()

    def fixed(self, ctx):
        base = dict(texts=["a cat is a feline and likes to purr", "dogs and cats", "\u00c9t\u00e9 \u65e5\u672c \U0001f600 \u2028 x", "", "cat cat the \\u00e9 \"q\""],
                    queries=["cats purr", "", "zebra", "\u00e9t\u00e9 dogs", "cat cat"], threads=2, mask=True, ops=OPS + ["ask", "retrieve", "tokenize"],
                    dataset=dict(corpus=[{"_id": "d\u00e9", "text": "t\u2028", "title": "\u65e5"}, {"_id": "2", "text": "", "metadata": {}}],
                                 queries=[{"_id": "q1", "text": "\u00e9"}], qrels={"test": [["q1", "2", 1], ["q1", "d\u00e9", 2]]}, eol="\n", final=True, ascii=False))
        out = []
        sets = [[n for j, n in enumerate(NAMES) if m >> j & 1] for m in range(1, 2 ** len(NAMES))]
        for i, names in enumerate(sets):
            for progress in (False, True):
                out.append(dict(base, missing=names, progress=progress, k=1 + i % 5, seed=i,
                                params=dict(FIXED_P, method=ref.METHODS[i % 5], dtype=["float32", "float64"][i % 2]),
                                spec=dict(lower=i % 3 > 0, splitter=r"\w+", stop=["named", ["english", None, "french"][i % 3]],
                                          stemmer=[None, "snow:english"][i % 2], kind=["object", "call"][i // 2 % 2])))
        # thousands of queries
        for i, gone in enumerate(["tqdm", "orjson", "jax", "numba", "Stemmer", "resource", "tqdm", "tqdm"]):
            out.append(dict(base, missing=[gone], progress=bool(i % 2), threads=[0, 3][i // 2 % 2], k=2, seed=i, times=[1000, 250, 3500][i % 3], ops=["retrieve"],
                            params=dict(FIXED_P, method=ref.METHODS[i % 5]), spec=dict(lower=True, splitter=r"\w+", stop=["named", None], stemmer=None, kind="call")))
        # thousands of documents
        for i, gone in enumerate([["tqdm"], ["tqdm"], ["orjson"], ["numba", "tqdm"], ["orjson", "tqdm"], NAMES]):
            out.append(dict(base, missing=gone, progress=i % 2 == 0, k=3, more=[2500, 1100, 4200][i % 3], seed=i, ops=["jsonl", "exchange", "tokenize"],
                            params=dict(FIXED_P, method=ref.METHODS[i % 5]), spec=dict(lower=True, splitter=r"\w+", stop=["named", None], stemmer=None, kind="call")))
        for i, gone in enumerate([["jax"], ["numba"], ["numba", "jax"], NAMES, ["orjson", "tqdm"]]):
            for k in (9, 64, 90):
                out.append(dict(base, missing=gone, progress=bool(i % 2), k=k, more=90, seed=i, ops=["retrieve", "exchange", "index"],
                                params=dict(FIXED_P, method=ref.METHODS[i], dtype=["float32", "float64"][i % 2]),
                                spec=dict(lower=True, splitter=r"\w+", stop=["named", None], stemmer=None, kind="call")))
        return out

    def run(self, case, ctx):
        case = dict(case, texts=case["texts"] + ["cat " * (i * 37 % 91) + "dogs text%d" % (i % 7) for i in range(case.get("more", 0))])
        gone = case["missing"]
        A, B = bm25s, sut.without(gone)
        spec, p, progress = case["spec"], case["params"], case["progress"]
        what = "without " + ", ".join(gone)

        def there(f, *args, **kw):
            with sut.missing(gone):
                return f(*args, **kw)

        def function(M, texts):
            return M.tokenize(list(texts), lower=spec["lower"], token_pattern=spec["splitter"], stopwords=stop_arg(spec["stop"]),
                              stemmer=list_stemmer(spec["stemmer"], spec["kind"]), return_ids=False, show_progress=progress)

        docs = function(A, case["texts"])
        if not any(docs) or any("" in d for d in docs):
            return
        n = len(docs)
        qs = [q for q in function(A, case["queries"]) if "" not in q] * case.get("times", 1)
        mask = np.array([(i % 3) / 2 for i in range(n)], dtype=p["dtype"])
        auto = "auto" if "numba" in gone else "numpy"
        a = A.BM25(backend="numpy", **p)
        a.index([list(d) for d in docs], show_progress=False)
        b = there(lambda: B.BM25(backend=auto, **p))
        expect(b.backend == "numpy", "%s: backend %r", what, b.backend)
        there(lambda: b.index([list(d) for d in docs], show_progress=progress))
        words = sorted({w for q in qs for w in q if w in a.vocab_dict})
        folder = ctx.tmp()
        count = [0]

        def equal(x, y, w):
            """Two indexes of the same documents."""
            expect(set(x.vocab_dict) == set(y.vocab_dict), "%s: vocabulary: %s", w, lambda_diff(x.vocab_dict, y.vocab_dict))
            for t in words + ["zzz"]:
                expect(bits(x.get_scores([t])) == bits(y.get_scores([t])), "%s: scores of %r: %r instead of %r", w, t, x.get_scores([t]).tolist(),
                       y.get_scores([t]).tolist())

        def answers(b, call, w, corpus):
            if not qs:
                return
            for m in ([None, mask] if case["mask"] else [None]):
                k = min(n, case["k"])
                res = call(lambda: b.retrieve([list(q) for q in qs], k=k, show_progress=progress, n_threads=case["threads"], weight_mask=m))
                expect(np.shape(res.documents) == np.shape(res.scores) == (len(qs), k), "%s: %d queries, shapes %s and %s", w, len(qs),
                       np.shape(res.documents), np.shape(res.scores))
                own = {}
                for q, ids, s in zip(qs, res.documents, res.scores):
                    if tuple(q) not in own:
                        own[tuple(q)] = np.array(a.get_scores(list(q)), dtype="float64") if q else np.zeros(n)
                    want = own[tuple(q)]
                    if m is not None:
                        want = want * m
                    if corpus is not None:
                        for x in ids:
                            expect(same(x, corpus[x["id"]]), "%s: document %r", w, x)
                        ids = [x["id"] for x in ids]
                    ref.check_topk(s, ids, want, k, True, np.abs(want) * 1e-6, "%s: query %r" % (w, q))

        equal(b, a, what)
        for i, op in enumerate(case["ops"]):
            w = "%s: %s" % (what, op)
            if op == "tokenize":
                for texts in (case["texts"], case["queries"]):
                    got = there(function, B, texts)
                    expect(got == function(A, texts), "%s: %r instead of %r", w, got, function(A, texts))
                ta, tb = make_tokenizer(spec), make_tokenizer(spec, mod=B)
                for r in ("tuple", "string", "ids", "stream"):
                    for texts in (case["texts"], case["queries"]):
                        kw = dict(update_vocab="if_empty", return_as=r, show_progress=progress)
                        x, y = ta.tokenize(list(texts), **kw), there(lambda: (lambda z: list(z) if r == "stream" else z)(tb.tokenize(list(texts), **kw)))
                        if r == "stream":
                            x = list(x)
                        expect(list(x) == list(y), "%s (class, %s): %r instead of %r", w, r, y, x)
            elif op == "index":
                c = there(lambda: B.BM25(backend=auto, **p))
                tok = B.tokenization.Tokenized
                v = dict(a.vocab_dict)
                src = [tok(ids=[[v[t] for t in d] for d in docs], vocab=v), ([[v[t] for t in d] for d in docs], v), iter([list(d) for d in docs])][case["seed"] % 3]
                there(lambda: c.index(src, show_progress=progress))
                equal(c, a, w)
            elif op == "retrieve":
                answers(b, lambda f: there(f), w, None)
            elif op == "exchange":
                count[0] += 1
                d = os.path.join(folder, "idx%d" % count[0])
                stored = [{"id": j, "text": t} for j, t in enumerate(case["texts"])]
                corpus = list(case["texts"]) if (case["seed"] + i) % 2 else [dict(x) for x in stored]
                if (case["seed"] // 2 + i) % 2:
                    a.save(d, corpus=corpus)
                    load, cls, call = "there", B.BM25, there
                else:
                    there(lambda: b.save(d, corpus=corpus))
                    load, cls, call = "here", A.BM25, lambda f: f()
                for mm in (True, False):
                    x = call(lambda: cls.load(d, load_corpus=True, mmap=mm))
                    check_params(x, a, w + " loaded " + load)
                    equal(x, a, w + " loaded " + load)
                    got = call(lambda: [x.corpus[j] for j in range(len(x.corpus))])
                    expect(same(got, stored), "%s: loaded %s: corpus %r instead of %r", w, load, got, stored)
                    answers(x, call, w + " loaded " + load, stored)
                    x = None
            elif op == "jsonl":
                count[0] += 1
                path = os.path.join(folder, "c%d.jsonl" % count[0])
                with open(path, "w", encoding="utf-8", newline="") as f:
                    for t in case["texts"]:
                        f.write(json.dumps({"t": t}, ensure_ascii=bool(i % 2)) + "\n")
                first, second = (A, B) if case["seed"] % 2 else (B, A)
                for M in (first, second):  # the second one uses the line index of the first
                    call = there if M is B else (lambda f: f())
                    c = call(lambda: M.utils.corpus.JsonlCorpus(path, show_progress=progress, verbosity=0))
                    got = call(lambda: list(c[:]))
                    expect(same(got, [{"t": t} for t in case["texts"]]), "%s: %r", w, got)
                    c.close()
            elif op == "tokenizer files":
                count[0] += 1
                d = os.path.join(folder, "tok%d" % count[0])
                ta = make_tokenizer(spec)
                ta.tokenize(list(case["texts"]), update_vocab=True, show_progress=False)
                tb = make_tokenizer(spec, mod=B)
                there(lambda: tb.tokenize(list(case["texts"]), update_vocab=True, show_progress=progress))
                expect(dict(ta.get_vocab_dict()) == dict(tb.get_vocab_dict()), "%s: vocabulary: %s", w, lambda_diff(tb.get_vocab_dict(), ta.get_vocab_dict()))
                if i % 2:
                    ta.save_vocab(d), ta.save_stopwords(d)
                    x = make_tokenizer(dict(spec, stop=["named", None]), mod=B)
                    there(lambda: (x.load_vocab(d), x.load_stopwords(d)))
                else:
                    there(lambda: (tb.save_vocab(d), tb.save_stopwords(d)))
                    x = make_tokenizer(dict(spec, stop=["named", None]))
                    x.load_vocab(d), x.load_stopwords(d)
                expect(dict(x.get_vocab_dict()) == dict(ta.get_vocab_dict()), "%s: loaded vocabulary: %s", w, lambda_diff(x.get_vocab_dict(), ta.get_vocab_dict()))
                expect(sorted(x.stopwords) == sorted(ta.stopwords), "%s: stopwords %r", w, x.stopwords)
                texts = list(case["queries"])
                expect(x.tokenize(texts, update_vocab=False, return_as="ids", show_progress=False) ==
                       ta.tokenize(texts, update_vocab=False, return_as="ids", show_progress=False), "%s: ids of the loaded tokenizer differ", w)
            elif op == "ask":
                some = [list(docs[0]) or ["zzz"]]
                asked = []
                if "numba" in gone:
                    c = there(lambda: B.BM25(backend="numba", **p))
                    there(lambda: c.index([list(d) for d in docs], show_progress=False))
                    asked += [("retrieve(backend_selection='numba')", lambda: b.retrieve(some, k=1, backend_selection="numba", show_progress=False)),
                              ("activate_numba_scorer", b.activate_numba_scorer),
                              ("numba backend", lambda: c.retrieve(some, k=1, show_progress=False))]
                if "jax" in gone:
                    asked.append(("retrieve(backend_selection='jax')", lambda: b.retrieve(some, k=1, backend_selection="jax", show_progress=False)))
                for name, f in asked:
                    try:
                        there(f)
                    except ImportError:
                        pass
                    except Exception as e:
                        fail("%s: %s raises %r instead of an import error", w, name, e)
                    else:
                        fail("%s: %s raises nothing", w, name)
                equal(b, a, w)
                answers(b, lambda f: there(f), w + " afterwards", None)
                for M, known in ((B, "resource" not in gone), (A, True)):
                    use = there(lambda: [M.utils.benchmark.get_max_memory_usage(x) for x in ("GB", "MB", "KB")])
                    if not known:
                        expect(use == [None] * 3, "%s: memory usage %r", w, use)
                    else:  # the peak may only grow between the calls
                        expect(0 < use[0] <= use[1] / 1024 * (1 + 1e-9) and use[1] <= use[2] / 1024 * (1 + 1e-9) and use[2] < use[0] * 2 ** 20 * 2,
                               "%s: memory usage %r", w, use)
            elif op == "beir" and case["dataset"]:
                count[0] += 1
                write_dataset(os.path.join(folder, "beir%d" % count[0]), case["dataset"])
                there(check_loaded, B, folder, "beir%d" % count[0], case["dataset"], w)
                src = os.path.join(folder, "src%d" % count[0])
                for cqa in (False, True):
                    tree, save = os.path.join(src, "tree%d" % cqa), os.path.join(src, "data%d" % cqa)
                    name = "cqadupstack" if cqa else "scifact"
                    for sub in (["tex", "android"] if cqa else [""]):
                        write_dataset(os.path.join(tree, name, sub), case["dataset"])
                    with open(os.path.join(src, name + ".zip"), "wb") as f:
                        f.write(zipped(snapshot(tree)))
                    there(lambda: B.utils.beir.download_dataset(name, base_url="file://" + src + "/{}.zip", save_dir=save, show_progress=progress))
                    if not cqa:
                        there(check_loaded, B, save, name, case["dataset"], w + ", downloaded")
                        continue
                    for kind in ("corpus", "queries"):
                        want = sorted("%s_%s" % (f, r["_id"]) for f in ("tex", "android") for r in case["dataset"][kind])
                        got = there(lambda: getattr(B.utils.beir, "load_" + kind)(name, save_dir=save, show_progress=progress, return_dict=False))
                        expect(sorted(r["_id"] for r in got) == want, "%s: merged %s: %r instead of %r", w, kind, sorted(r["_id"] for r in got), want)

    def labels(self, case):
        return ["without " + n for n in case["missing"]] + sorted({"op " + o for o in case["ops"]}) + ["progress %s" % case["progress"]]

    def nontrivial(self, case):
        return "exchange" in case["ops"] or ("retrieve" in case["ops"] and any(q in case["texts"] and q.strip() for q in case["queries"]))
