"""C09: histories of operations over several indexes that share inputs and a tokenizer."""
import os
import random
import sys
import threading

import numpy as np
from hypothesis import strategies as st

import bm25s
from bm25s.tokenization import Tokenized, Tokenizer

from . import gen, ref, sut
from .core import Prop, expect, fail, register
from .p_persist import bits
from .p_retrieve import FIXED_P, as_form, prof_params

SEP = "\x1e"


def splitter(text):
    return text.split(SEP) if text else []


def freeze(x):
    """A value that changes whenever the caller could notice a change of x."""
    if isinstance(x, np.ndarray):
        return bits(x) if x.dtype != object else repr(x.tolist())
    if isinstance(x, Tokenized):
        return repr((x.ids, x.vocab))
    return repr(x)


def found_ids(b, documents, what):
    """The numbers of the documents found, which are those of the stored corpus after a reload with it."""
    if b.get("stored"):
        for x in documents:
            expect(isinstance(x, dict) and x == {"id": x["id"], "text": "doc %d" % x["id"]}, "%s: document %r of the corpus", what, x)
        documents = [x["id"] for x in documents]
    return np.array(documents)


FORMS = ["strings", "strings", "tokenized", "tokenized", "tuple", "generator", "tok tuple", "tok tuple", "tok ids", "tok string", "reset tuple"]
QFORMS = ["strings", "strings", "tokenized", "tuple", "ids", "tok ids", "tok tuple", "tok string"]


@register
class C09(Prop):
    pid = "C09"
    rule = ("history of 3-14 operations (index and re-index under changed parameters, retrieve, score, extend the tokenizer, save, reload, compile the "
            "scorer, concurrent calls, scribbling over returned arrays) over 3 index objects x shared corpora x a shared tokenizer; every answer is "
            "compared with the formula and, at the end, bit for bit with a fresh index; every input is checked for modification after every operation; "
            "non-trivial: some index is queried after the object was indexed twice, or another index, save, extension or query happened in between")
    examples = dict(quick=640, thorough=20000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        word = st.one_of(st.sampled_from(gen.WORDS), st.sampled_from(gen.ODD),
                         st.text(gen.text_char, min_size=1, max_size=4)).filter(lambda w: SEP not in w)

        @st.composite
        def f(draw):
            words = draw(st.lists(word, min_size=2, max_size=8, unique=True))
            corpora = [draw(gen.docs_over(len(words), max_docs=8)) for _ in range(draw(st.integers(1, 3)))]
            for c in corpora:
                if not any(c):
                    c[0] = [0]
            numba = draw(st.sampled_from([None, None, 0, 1]))
            n_op = draw(st.integers(3, 14))
            obj = st.integers(0, 2)
            token = st.one_of(st.sampled_from(words), st.sampled_from(words), st.sampled_from(words), st.sampled_from(gen.OOV))
            query = st.lists(token, max_size=5)
            blank = st.lists(st.one_of(token, token, st.just("")), max_size=5)  # "" is an unknown token like others
            mask = st.one_of(st.none(), st.none(), st.none(), st.integers(0, 99))
            ops = []
            for n in range(n_op):
                kind = "index" if n == 0 else draw(st.sampled_from(
                    ["index", "index", "index", "query", "query", "query", "query", "scores", "scores", "extend", "save", "scribble", "concurrent", "compile"]))
                i = draw(obj)
                if kind == "index":
                    p = draw(st.one_of(st.none(), gen.params(numba=prof if i == numba else None)))
                    ops.append(["index", i, draw(st.integers(0, len(corpora) - 1)), draw(st.sampled_from(FORMS)), p, draw(st.integers(0, 7)) > 0])
                elif kind == "query":
                    form = draw(st.sampled_from(QFORMS))
                    ops.append(["query", i, draw(st.lists(query if form.startswith("tok ") else blank, min_size=1, max_size=3)), form, draw(st.integers(0, 12)),
                                draw(mask), dict(sorted=draw(st.booleans()), threads=draw(st.sampled_from([0, 0, 0, 1, 3])), corpus=draw(st.booleans()),
                                                 update=draw(st.booleans()), only=draw(st.integers(0, 3)) == 0)])
                elif kind == "scores":
                    ops.append(["scores", i, draw(st.lists(st.one_of(token, token, st.just("")), min_size=1, max_size=5)), draw(mask)])
                elif kind == "extend":
                    ops.append(["extend", draw(st.lists(query, max_size=2))])
                elif kind == "save":
                    ops.append(["save", i, draw(st.sampled_from(["stay", "load", "mmap", "load+corpus", "mmap+corpus"]))])
                elif kind == "concurrent":
                    ops.append(["concurrent", draw(st.lists(st.tuples(obj, query).map(list), min_size=2, max_size=6)), draw(st.integers(0, 99))])
                elif kind == "compile":
                    ops.append(["compile", numba if numba is not None else i] if numba is not None else ["scribble"])
                else:
                    ops.append(["scribble"])
            ops.append(["query", ops[0][1], [draw(query)], "strings", 3, None, dict(sorted=True, threads=0, corpus=False, update=False)])
            return dict(words=words, corpora=corpora, numba=numba, numba_backend=draw(st.booleans()), ops=ops, prof=prof)
        return f()

    def fixed(self, ctx):
        out = []
        pp = prof_params(ctx.prof)
        base = dict(words=["a", "b", "c", "\u00e9"], corpora=[[[0], [1, 1, 2], [0, 3]], [[1], [], [2, 2], [3, 0, 1]]], numba=None, numba_backend=False, prof=ctx.prof)
        o = lambda **kw: dict(dict(sorted=True, threads=0, corpus=False, update=False), **kw)
        P = lambda m, **kw: dict(FIXED_P, method=m, **kw)
        # every ordered pair of variants on one object
        for m in ref.METHODS:
            ops = []
            for m2 in ref.METHODS:
                for form in ("strings", "tok tuple"):
                    ops += [["index", 0, 0, form, P(m), True], ["scores", 0, ["a", "c"], None], ["index", 0, 1, form, P(m2), True],
                            ["query", 0, [["a", "b"], []], "strings", 2, None, o()], ["scores", 0, ["b", "b", "zzz"], 3]]
            out.append(dict(base, ops=ops))
        # without the empty token after having had it
        for m in ref.METHODS:
            for a, b in (("strings", "strings"), ("tok tuple", "strings"), ("tuple", "tokenized"), ("generator", "tok tuple")):
                q = [["query", 0, [["a", ""], [""], ["b", "", "zzz"]], f, 2, None, o()] for f in ("strings", "tokenized", "tuple")] + [
                    ["scores", 0, ["", "a"], None], ["scores", 0, [""], None]]
                out.append(dict(base, ops=[["index", 0, 0, a, P(m), True]] + q + [["index", 0, 1, b, P(m), False]] + q + [["index", 0, 0, a, None, True]] + q))
        for form in FORMS:
            for qf in QFORMS:
                q = ["query", 0, [["a", "\u00e9"], [], ["b", "zzz"], ["new"]], qf, 2, None, o(update=True)]
                out.append(dict(base, ops=[
                    ["index", 0, 0, form, P("bm25+"), True], ["index", 1, 0, form, P("lucene"), False], q, ["extend", [["new", "newer"], ["a"]]], q,
                    ["index", 2, 1, form, P("bm25l", dtype="float64"), True], q, ["scribble"], q, ["save", 0, "mmap"], q,
                    ["query", 1, [["a"], ["new", "c"]], qf, 3, 5, o(corpus=True)], q, ["query", 2, [["a"], ["new", "c"]], qf, 3, 5, o(corpus=True, only=True)], q, ["index", 0, 1, form, None, True], q,
                    ["query", 2, [["c", "c"], ["zzz"]], qf, 3, None, o(threads=2)], ["query", 0, [["a"]], qf, 1, None, o(corpus=True, only=True, threads=1)], q, ["concurrent", [[0, ["a"]], [1, ["b", "a"]], [2, []], [0, ["c"]]], 1]]))
        for nb in (True, False):
            for _ in range(4):  # compiled per shard
                q = ["query", 0, [["a", "\u00e9"], [], ["b", "zzz"]], "strings", 2, None, o()]
                out.append(dict(base, numba=0, numba_backend=nb, ops=[
                    ["index", 0, 0, "tok tuple", pp, True], ["compile", 0], q, ["index", 0, 1, "strings", None, True], q, ["scribble"], q,
                    ["query", 0, [["a"], ["b"]], "strings", 2, 7, o()], q, ["concurrent", [[0, ["a"]], [0, ["b", "a"]], [0, []], [0, ["c"]]], 1], q,
                    ["save", 0, "load"], q]))
        # longer concurrent runs on more data
        for i in range(8):
            out.append(dict(base, corpora=[{"seed": i, "docs": 400 + 100 * i, "vocab": 30, "length": 20}], words=["w%d" % j for j in range(30)],
                            ops=[["index", 0, 0, FORMS[i % 5], P(ref.METHODS[i % 5]), True], ["index", 1, 0, "tok tuple", P(ref.METHODS[(i + 3) % 5]), True],
                                 ["concurrent", [[j % 2, ["w%d" % ((j * 7 + m) % 33) for m in range(3)]] for j in range(8)], i],
                                 ["query", 0, [["w%d" % j, "w3"] for j in range(40)], "strings", 9, None, o(threads=4)],
                                 ["concurrent", [[j % 2, ["w%d" % ((j * 5 + m) % 33) for m in range(4)]] for j in range(8)], i + 1],
                                 ["save", 0, "mmap+corpus"], ["save", 1, "mmap+corpus"],
                                 ["concurrent", [[j % 2, ["w%d" % ((j * 3 + m) % 33) for m in range(4)]] for j in range(8)], i + 2]]))
        return out

    def run(self, case, ctx):
        words, inputs, returned, used = case["words"], [], [], []
        corpora = []
        for c in case["corpora"]:
            if isinstance(c, dict):
                corpora.append(gen.expand({"rng": dict(c, minlen=0)}))
            else:
                corpora.append([[words[j] for j in d] for d in c])
        tok = Tokenizer(lower=False, splitter=splitter, stopwords=None, stemmer=None)
        shared = []
        for c in corpora:
            v = gen.vocab_of(c)
            ws = list(v)
            random.Random(len(ws)).shuffle(ws)
            v = {w: j for j, w in enumerate(ws)}
            shared.append(Tokenized(ids=[[v[t] for t in d] for d in c], vocab=v))

        def watch(name, x):
            inputs.append([name, x, freeze(x)])
            return x

        def unmodified(what):
            for name, x, was in inputs:
                if freeze(x) != was:
                    fail("%s modified %s: %s instead of %s", what, name, str(freeze(x))[:300], str(was)[:300])
            if freeze(tok.get_vocab_dict()) != vocab_was[0]:
                fail("%s modified the tokenizer's vocabulary: %s instead of %s", what, freeze(tok.get_vocab_dict())[:300], vocab_was[0][:300])

        for j, c in enumerate(corpora):
            watch("token lists of corpus %d" % j, c)
            watch("tokenized corpus %d" % j, shared[j])
        objs, vocab_was = {}, [freeze(tok.get_vocab_dict())]

        def texts_of(docs):
            return [SEP.join(d) for d in docs]

        def tokenizer_ids(docs, **kw):
            texts = watch("texts", texts_of(docs))
            out = tok.tokenize(texts, show_progress=False, allow_empty=False, **kw)
            vocab_was[0] = freeze(tok.get_vocab_dict())
            # (a tuple's vocabulary is the tokenizer's own, which grows)
            watch("tokenizer output", out.ids if isinstance(out, Tokenized) else out)
            return out

        def get_scores(b, q, mask=None):
            if b["kind"] == "str":
                arg = list(q)
            else:
                vocab = tok.get_vocab_dict()
                arg = [vocab[t] for t in q if t in vocab and vocab[t] in b["r"].unique_token_ids_set]
            if not arg:
                return None
            watch("query", arg)
            return b["r"].get_scores(arg, **({} if mask is None else dict(weight_mask=watch("mask", mask))))

        def mask_of(n, seed):
            if seed is None:
                return None
            g = np.random.default_rng(seed)
            return g.choice([0.0, 1.0, 0.5, 2.0], n).astype(g.choice(["float32", "float64"])) if seed % 2 else g.integers(0, 2, n)

        def expected(b, q, mask):
            want, t = b["model"].scores(q, b["p"]["dtype"])
            if mask is not None:
                want, t = want * mask, t * np.abs(mask) + 1e-9
            return want, t

        def remember(b, q, s):
            if b["exact"]:
                key = tuple(q)
                if key in b["memo"]:
                    expect(b["memo"][key] == bits(s), "scores of %r changed between two calls", q)
                b["memo"][key] = bits(s)

        with_scorer = lambda b: b.get("scorer") or b["r"].backend == "numba"
        for n, op in enumerate(case["ops"]):
            what = "operation %d (%s)" % (n, op[0])
            kind = op[0]
            if kind in ("query", "scores", "save", "compile") and op[1] not in objs:
                continue
            if kind == "index":
                _, i, c, form, p, empty = op
                docs = corpora[c]
                if i not in objs:
                    p = p or (prof_params(case["prof"]) if i == case["numba"] else dict(FIXED_P))
                    r = bm25s.BM25(backend="numba" if i == case["numba"] and case["numba_backend"] else "numpy", **p)
                    objs[i] = b = dict(r=r)
                else:
                    b = objs[i]
                    r = b["r"]
                    if p is None:
                        p = b["p"]
                    else:
                        for key, v in p.items():
                            setattr(r, key, v if key != "idf_method" or v else p["method"])
                if form == "strings":
                    src = docs
                elif form == "generator":
                    src = iter(docs)
                elif form == "tokenized":
                    src = shared[c]
                elif form == "tuple":
                    src = (shared[c].ids, shared[c].vocab)
                elif form == "reset tuple":  # from a tokenizer that is used for something else before the corpus is indexed
                    other = Tokenizer(lower=False, splitter=splitter, stopwords=None, stemmer=None)
                    src = other.tokenize(texts_of(docs), show_progress=False, allow_empty=False, return_as="tuple")
                    watch("tokenized corpus of a tokenizer that was reset", src)
                    other.reset_vocab()
                    other.tokenize(texts_of(corpora[-1][::-1]), show_progress=False, allow_empty=False)
                else:
                    src = tokenizer_ids(docs, update_vocab=True, return_as=form[4:])
                    if form == "tok ids" and len(src) == 2:
                        src = list(src)
                r.corpus = None
                b["stored"] = False
                r.index(src, create_empty_token=empty or form == "tok ids", show_progress=False)
                b.update(docs=[list(d) for d in docs], p=dict(p), kind="ids" if form == "tok ids" else "str", tok=form in ("tok ids", "tok tuple"),
                         model=ref.Index(docs, **p), memo={}, exact=not with_scorer(b), empty=empty or form == "tok ids")
            elif kind == "query":
                _, i, qs, form, kk, mseed, o = op
                b = objs[i]
                r, m = b["r"], len(b["docs"])
                if b["kind"] == "ids" or (form == "tok ids" and not b["tok"]):
                    form = "tok ids" if b["kind"] == "ids" else "strings"
                if form.startswith("tok "):
                    qs = [[t for t in x if t] for x in qs]
                k = 1 + kk % m
                mask = mask_of(m, mseed)
                if not b["empty"] and (form in ("ids", "tok ids")):
                    form = "strings"
                if form.startswith("tok "):
                    q = tokenizer_ids(qs, update_vocab=bool(o["update"]), return_as=form[4:])
                    qs = [[t for t in x if t in tok.get_vocab_dict()] for x in qs]  # it leaves out what it does not know
                else:
                    q = watch("queries (%s)" % form, as_form(form, qs, r))
                kw = {} if mask is None else dict(weight_mask=watch("mask", mask))
                labels = None
                if o["corpus"]:
                    labels = watch("corpus argument", ["label %d" % j for j in range(m)])
                    kw["corpus"] = labels
                only = o.get("only", False)
                res = r.retrieve(q, k=k, sorted=o["sorted"], n_threads=o["threads"], show_progress=False, return_as="documents" if only else "tuple",
                                 backend_selection="auto" if r.backend == "numba" else "numpy", **kw)
                if only:
                    res = bm25s.Results(documents=res, scores=np.zeros(np.shape(res)))
                expect(np.shape(res.documents) == (len(qs), k) == np.shape(res.scores), "%s: shapes %s %s", what, np.shape(res.documents), np.shape(res.scores))
                for j, query in enumerate(qs):
                    want, t = expected(b, query, mask)
                    if labels is not None:
                        ids = np.array([labels.index(x) for x in res.documents[j]])
                    else:
                        ids = found_ids(b, res.documents[j], what)
                    ref.check_topk(want[ids.astype(int)] if only else res.scores[j], ids, want, k, o["sorted"] and not only, t, "%s, query %r" % (what, query))
                returned += [res.documents, res.scores]
                used.append(q)
            elif kind == "scores":
                b = objs[op[1]]
                mask = mask_of(len(b["docs"]), op[3])
                s = get_scores(b, op[2], mask)
                if s is not None:
                    want, t = expected(b, op[2], mask)
                    sut.close(s, want, t, "%s: scores of %r" % (what, op[2]))
                    if mask is None:
                        remember(b, op[2], s)
                    returned.append(s)
            elif kind == "extend":
                tokenizer_ids(op[1], update_vocab=True)
            elif kind == "save":
                b = objs[op[1]]
                d = os.path.join(ctx.tmp(), "idx")
                arg = watch("corpus to save", ["doc %d" % j for j in range(len(b["docs"]))])
                b["r"].save(d, corpus=arg)
                if op[2] != "stay" and b["kind"] == "str" and not b.get("scorer"):
                    b["r"] = bm25s.BM25.load(d, mmap=op[2].startswith("mmap"), load_corpus=op[2].endswith("corpus"))
                    b["stored"] = op[2].endswith("corpus")
            elif kind == "compile":
                b = objs[op[1]]
                if b["r"].backend == "numpy" and op[1] == case["numba"]:
                    b["r"].activate_numba_scorer()
                    b.update(scorer=True, exact=False)
            elif kind == "scribble":
                for x in returned:
                    x[...] = "gone" if x.dtype.kind in "UO" else 77
                for q in used:  # the caller's own objects, after the calls
                    ids = q.ids if isinstance(q, Tokenized) else None
                    inputs[:] = [e for e in inputs if e[1] is not q and (e[1] is not ids or ids is None)]
                    if isinstance(q, Tokenized):
                        q.ids.clear()
                    elif isinstance(q, list):
                        q.clear()
                for s in shared:  # an application extends its vocabulary
                    v = s.vocab
                    v["later %d" % n] = len(v)
                    for e in inputs:
                        if e[1] is s:
                            e[2] = freeze(s)
                returned, used = [], []
            elif kind == "concurrent":
                self.concurrent([(objs[i], q) for i, q in op[1] if i in objs], op[2], get_scores, expected, remember, tok, what)
            unmodified(what)
        for i, b in objs.items():
            if not b["memo"]:
                continue
            fresh = sut.build(b["p"], [list(d) for d in b["docs"]])
            for q, was in b["memo"].items():
                if not any(t in b["model"].post for t in q):
                    continue
                s = fresh.get_scores([t for t in q if t in b["model"].post])
                expect(bits(s) == was, "object %d answers %r otherwise than a fresh index: max difference %r", i, list(q),
                       float(np.max(np.abs(np.frombuffer(was[2], dtype=was[0]) - s))) if was[:2] == bits(s)[:2] else (was[:2], bits(s)[:2]))

    def concurrent(self, jobs, seed, get_scores, expected, remember, tok, what):
        jobs = [(b, q) for b, q in jobs if any(t in b["model"].post for t in q) or b["kind"] == "str"]
        if len(jobs) < 2:
            return
        vocab = dict(tok.get_vocab_dict())
        errors, results = [], [None] * len(jobs)
        barrier = threading.Barrier(len(jobs))

        def work(j):
            b, q = jobs[j]
            r = b["r"]
            ids = [vocab[t] for t in q if t in vocab and vocab[t] in r.unique_token_ids_set] if b["kind"] == "ids" else list(q)
            out = []
            try:
                barrier.wait(30)
                for m in range(12):
                    if m % 2 == 0 and ids:
                        out.append(("scores", np.array(r.get_scores(list(ids)))))
                    elif ids or b["empty"]:
                        k = 1 + (seed * 7 + m * 41) % len(b["docs"])
                        w = np.roll(np.arange(len(b["docs"]), dtype="float32"), j * 7 + m) % 5 if m % 4 == 3 else None
                        res = r.retrieve([list(ids)], k=k, show_progress=False, n_threads=m % 3 if r.backend != "numba" else 1 + m % 3,
                                         backend_selection="auto" if r.backend == "numba" else "numpy", weight_mask=w)
                        out.append((k, found_ids(b, res.documents[0], what), np.array(res.scores[0]), w))
                results[j] = out
            except BaseException as e:  # noqa: BLE001
                errors.append("%s: %s" % (type(e).__name__, e))

        threads = [threading.Thread(target=work, args=(j,)) for j in range(len(jobs))]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        expect(not any(t.is_alive() for t in threads), "%s: concurrent calls do not end", what)
        expect(not errors, "%s: concurrent calls fail: %s", what, errors[:2])
        for (b, q), out in zip(jobs, results):
            want, t = expected(b, q, None)
            for res in out:
                if res[0] == "scores":
                    sut.close(res[1], want, t, "%s: concurrent scores of %r" % (what, q))
                    remember(b, q, res[1])
                else:
                    w = 1 if res[3] is None else res[3].astype("float64")
                    ref.check_topk(res[2], res[1], want * w, res[0], True, t * w, "%s: concurrent query %r" % (what, q))

    def labels(self, case):
        out = {"op " + o[0] for o in case["ops"]} | {"index from " + o[3] for o in case["ops"] if o[0] == "index"}
        seen = set()
        for o in case["ops"]:
            if o[0] == "index":
                if o[1] in seen:
                    out.add("re-index")
                seen.add(o[1])
        return sorted(out)

    def nontrivial(self, case):
        last, seen = {}, set()
        for n, o in enumerate(case["ops"]):
            if o[0] == "index":
                seen.add(o[1])
                last[o[1]] = n
            elif o[0] in ("query", "scores") and o[1] in seen and n > last[o[1]] + 1:
                return True
        return False
