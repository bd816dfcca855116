"""C25: from raw text to the documents found, through saving and loading."""
import os

import numpy as np
from hypothesis import strategies as st

import bm25s

from . import gen, ref, sut
from .core import Prop, expect, fail, register
from .p_docs import same
from .p_retrieve import FIXED_P, prof_params
from .p_token import LANGS, LONG, list_stemmer, make_tokenizer, split_fn, stop_arg, stop_spec, stop_words, text_, word_fn

SPLIT = [r"(?u)\b\w\w+\b", r"(?u)\b\w\w+\b", r"\w+", r"\S+", r"[^|]+", "call:split", "call:chars"]
STEM = [None, None, "snow:english", "snow:english", "snow:german", "prefix3", "reverse", "first", "upper", "const", "stop"]
FORMS = ["func ids", "func str", "class tuple", "class tuple", "class ids", "class stream", "class string"]


def reference(spec):
    split, stop, stem, lower = split_fn(spec["splitter"]), stop_words(spec["stop"]), word_fn(spec["stemmer"]), spec["lower"]
    return lambda t: [stem(w) for w in split(t.lower() if lower else t) if w not in stop]


sentence = st.lists(st.sampled_from(["cat", "cats", "the cat", "running", "runs", "Run", "dog", "bird", "is", "Der Hund", "und", "fish", "birds", "friend",
                                     "\u00e9t\u00e9", "\u00c9t\u00e9", "e\u0301te\u0301", "\ufb01sh", "fi\u017fh", "stra\u00dfe", "strasse", "\uff43at", "purrs", "purring", "a", "x-ray", "\u65e5\u672c"]), max_size=7).map(" ".join)
texts_ = lambda m: st.lists(st.one_of(sentence, sentence, text_(6)), min_size=1, max_size=m)


@register
class C25(Prop):
    pid = "C25"
    rule = ("raw texts x tokenization options x interface that indexes (function or class, every output format) x parameters x history of queries (any "
            "interface, with and without extending the vocabulary), saves and reloads (in memory, memory-mapped) of index and tokenizer; non-trivial: a "
            "query with a known token before and after a reload, or through two interfaces")
    examples = dict(quick=900, thorough=40000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            nb = draw(st.integers(0, 7)) == 0
            q = st.tuples(st.just("q"), texts_(3), st.sampled_from(["func ids", "func str", "class ids", "class tuple", "class string"]),
                          st.sampled_from([False, False, "if_empty", True]), st.integers(0, 20))
            op = st.one_of(q, q, q, st.tuples(st.just("save"), st.sampled_from(["load", "mmap"]), st.booleans(), st.booleans()), st.just(("tokenizer",)))
            return dict(spec=dict(lower=draw(st.sampled_from([True, True, False])), splitter=draw(st.sampled_from(SPLIT)), stop=draw(stop_spec(sets=False)),
                                  stemmer=draw(st.sampled_from(STEM)), kind=draw(st.sampled_from(["object", "call"]))),
                        params=draw(gen.params(numba=prof if nb else None)), backend="numba" if nb else "numpy", texts=draw(texts_(8)),
                        form=draw(st.sampled_from(FORMS)), before=draw(texts_(2)) if draw(st.integers(0, 3)) == 0 else [],
                        ops=[list(o) for o in draw(st.lists(op, min_size=4, max_size=9))])
        return f()

    def fixed(self, ctx):
        out = []
        spec = dict(lower=True, splitter=SPLIT[0], stop=["named", "english"], stemmer=None, kind="object")
        texts = ["a cat is a feline and likes to purr", "a dog is the human's best friend and loves to play", "a bird is a beautiful animal that can fly",
                 "a fish is a creature that lives in water and swims", "\u00c9t\u00e9 und Winter \u65e5\u672c\u8a9e", "e\u0301te\u0301 \ufb01sh stra\u00dfe strasse", "cat cat cats feline"]
        qs = ["does the fish purr like a cat?", "unknown zebra", "\u00e9t\u00e9 FELINE birds", "e\u0301te\u0301 \ufb01sh", "cats"]

        def ops(fmt, q=qs):
            out = []
            for up in (False, True, "if_empty"):
                out += [["q", q, fmt, up, 3], ["q", ["brand new query words " + str(up), q[0]], fmt, up, 1], ["save", "load", True, True], ["q", q, fmt, up, 3],
                        ["tokenizer"], ["q", q, fmt, False, 9], ["save", "mmap", True, False], ["q", q, fmt, up, 4]]
            return out

        for form in FORMS[0:3] + FORMS[4:]:
            for fmt in ("func ids", "func str", "class ids", "class tuple", "class string"):
                for m, stem, stop in (("lucene", None, ["named", "english"]), ("bm25+", "snow:english", ["named", "en_plus"]), ("bm25l", "prefix3", ["named", None])):
                    out.append(dict(spec=dict(spec, stemmer=stem, stop=stop), params=dict(FIXED_P, method=m), backend="numpy", texts=texts, form=form,
                                    before=[], ops=ops(fmt)))
        for name in sorted(LANGS):
            words = LANGS[name][1] + ["zebra", "panda"]
            out.append(dict(spec=dict(spec, stop=["named", name], splitter=r"\w+"), params=dict(FIXED_P, method="atire"), backend="numpy",
                            texts=[" ".join(words), "zebra zebra the und les", "panda " + words[0]], form="class tuple", before=["zebra first"],
                            ops=ops("class ids", ["zebra " + words[0], "panda the und"])))
        for form in ("func ids", "class tuple"):
            for _ in range(4):
                out.append(dict(spec=spec, params=prof_params(ctx.prof), backend="numba", texts=texts, form=form, before=[], ops=ops("class tuple")))
        big = ["word%d item%d the %s" % (i % 97, (i * i) % 53, "cats " * (i % 4)) for i in range(600)]
        # long texts, as documents and as queries
        for i, form in enumerate(FORMS):
            long = [" ".join("w%d" % (j * j % (3000 + m) + (j > 11000) * 5000) for j in range([12000, 70000][m == i % 4])) for m in range(4)]
            fmts = ["class ids", "class tuple", "class string"] if i % 2 else ["func ids", "func str", "class string"]
            out.append(dict(spec=spec, params=dict(FIXED_P, method=ref.METHODS[i % 5]), backend="numpy", texts=long + ["w1 zebra"], form=form, before=[], ops=[
                o for f in fmts for o in (["q", ["w5001 w1 w6000", "zebra", long[i % 4], long[0][:40000]], f, True, 2], ["save", "load", True, False])]))
        # words that differ late
        words = LONG + ["%s%d" % ("ab" * 2 ** j, j) for j in range(15)]
        for i, form in enumerate(FORMS):
            for stem in (None, "reverse"):
                out.append(dict(spec=dict(spec, stemmer=stem), params=dict(FIXED_P, method=ref.METHODS[i % 5]), backend="numpy", form=form, before=[],
                                texts=[" ".join(words), "zebra " + " ".join(words[::2])] + ["%s panda" % w for w in words],
                                ops=ops("class ids" if i in (2, 3, 4, 5) else "func ids", words[i::5])))
        for i, form in enumerate(FORMS):
            out.append(dict(spec=dict(spec, stemmer="snow:english" if i % 2 else None), params=dict(FIXED_P, method=ref.METHODS[i % 5]), backend="numpy",
                            texts=big, form=form, before=[], ops=ops("class ids" if i in (2, 3, 4, 5) else "func ids", ["word3 item4 cats", "cat nothing", "item9 word%d" % i])))
        return out

    def prepare(self, case):
        tokens = reference(case["spec"])

        def keep(ts):
            ts = [t if tokens(t) else t + "| zebra" for t in ts]
            return [t for t in ts if tokens(t) and "" not in tokens(t)]
        return tokens, keep

    def run(self, case, ctx):
        spec, p = case["spec"], case["params"]
        tokens, keep = self.prepare(case)
        texts = keep(case["texts"])
        if not texts:
            return
        docs = [tokens(t) for t in texts]
        model = ref.Index(docs, **p)
        n = len(docs)
        tok = make_tokenizer(spec)
        if case["before"]:
            tok.tokenize(keep(case["before"]), update_vocab=True, show_progress=False)
        pattern = not spec["splitter"].startswith("call:")

        def function(ts, ids):
            return bm25s.tokenize(list(ts), lower=spec["lower"], token_pattern=spec["splitter"], stopwords=stop_arg(spec["stop"]),
                                  stemmer=list_stemmer(spec["stemmer"], spec["kind"]), return_ids=ids, show_progress=False)

        form = case["form"]
        if form.startswith("func") and not pattern:
            form = "class tuple"
        if form.startswith("func"):
            src = function(texts, form == "func ids")
            tok.tokenize(list(texts), update_vocab=True, show_progress=False)
        else:
            src = tok.tokenize(list(texts), update_vocab=True, return_as=form[6:], show_progress=False)
        r = bm25s.BM25(backend=case["backend"], **p)
        r.index(src, show_progress=False)
        bare = form in ("class ids", "class stream")     # the index knows ids only
        mine = form in ("class tuple", "class ids", "class stream")  # ids of the tokenizer are ids of the index
        has_corpus = False
        for j, op in enumerate(case["ops"]):
            what = "operation %d (%s)" % (j, " ".join(str(x) for x in op[2:]) if op[0] == "q" else op[0])
            if op[0] == "q":
                qs = keep(op[1])
                if not qs:
                    continue
                fmt = op[2]
                if bare:
                    fmt = "class ids"
                elif fmt == "class ids" and not mine:
                    fmt = "class string"
                elif fmt.startswith("func") and not pattern:
                    fmt = "class tuple"
                if fmt.startswith("func"):
                    q = function(qs, fmt == "func ids")
                else:
                    q = tok.tokenize(list(qs), update_vocab=op[3], return_as=fmt[6:], show_progress=False)
                k = 1 + op[4] % n
                res = r.retrieve(q, k=k, show_progress=False, backend_selection="auto" if r.backend == "numba" else "numpy")
                expect(np.shape(res.documents) == (len(qs), k) == np.shape(res.scores), "%s: shapes %s %s", what, np.shape(res.documents),
                       np.shape(res.scores))
                for t, found, scores in zip(qs, res.documents, res.scores):
                    want, tolerance = model.scores(tokens(t), p["dtype"])
                    if has_corpus:
                        for x in found:
                            expect(same(x, {"id": x["id"], "text": texts[x["id"]]}), "%s: document %r instead of %r", what, x, texts[x["id"]])
                        found = [x["id"] for x in found]
                    ref.check_topk(scores, found, want, k, True, tolerance, "%s: query text %r" % (what, t))
            elif op[0] == "save":
                d = os.path.join(ctx.tmp(), "saved")
                r.corpus, old = None, r.corpus
                r.save(d, corpus=texts)
                if op[3]:
                    tok.save_vocab(d)
                    tok.save_stopwords(d)
                has_corpus = op[2]
                r = bm25s.BM25.load(d, load_corpus=op[2], mmap=op[1] == "mmap")
                if op[3]:
                    tok = self.reloaded(spec, d)
                del old
            elif op[0] == "tokenizer":
                d = os.path.join(ctx.tmp(), "tok")
                tok.save_vocab(d)
                tok.save_stopwords(d)
                tok = self.reloaded(spec, d)

    @staticmethod
    def reloaded(spec, d):
        tok = make_tokenizer(dict(spec, stop=["named", None]))
        tok.load_vocab(d)
        tok.load_stopwords(d)
        return tok

    def labels(self, case):
        return ["indexed by " + case["form"], "stemmer %s" % case["spec"]["stemmer"], "backend " + case["backend"]] + sorted(
            {"query %s, update %s" % (o[2], o[3]) if o[0] == "q" else o[0] for o in case["ops"]}) + gen.labels_params(case["params"])[:1]

    def nontrivial(self, case):
        tokens, keep = self.prepare(case)
        known = {t for x in keep(case["texts"]) for t in tokens(x)}
        groups, stage = set(), 0
        for o in case["ops"]:
            if o[0] != "q":
                stage += 1
            elif any(t in known for x in keep(o[1]) for t in tokens(x)):
                groups.add((o[2].split()[0], stage))
        return len(groups) > 1
