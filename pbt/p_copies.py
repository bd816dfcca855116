"""C29: indexes and tokenizers are independent of each other, of copying and of the process."""
import copy
import json
import os
import pickle
import re
import sys
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from hypothesis import strategies as st

import bm25s
from bm25s.tokenization import Tokenized, Tokenizer

from . import gen, ref, sut
from .compare import same
from .core import Prop, expect, register
from .helper import Died, Helper, RemoteError
from .p_persist import PARAMS, stored
from .p_retrieve import FIXED_P, prof_params

_helper = {}


def helper(ctx):
    if "one" not in _helper:
        _helper["one"] = Helper(1000 + ctx.shard, os.path.join(os.path.dirname(ctx.root), "elsewhere"))
    return _helper["one"]


# (module-level, so that they can be pickled)
def stem3(w):
    return w[:3]


def upper(w):
    return w.upper()


def bars(t):
    return t.split("|")


class Cut:
    def __init__(self, n):
        self.n = n

    def stem(self, w):
        return w[:self.n]


class Sep:
    def __init__(self, by):
        self.by = by

    def split(self, t):
        return t.split(self.by)


CALLABLES = {"cut1": Cut(1).stem, "cut2": Cut(2).stem, "cut4": Cut(4).stem, "split on a": Sep("a").split, "split on u": Sep("u").split, "stem3": stem3, "upper": upper, "bars": bars, "split": str.split, "chars": list}


def bits(x):
    x = np.asarray(x)
    return str(x.dtype), x.shape, x.tobytes()


def answers(r, queries, k, mask=None):
    """What an index says, in comparable form."""
    kw = {} if r.backend == "numba" else dict(backend_selection="numpy")
    out = dict(params={p: getattr(r, p) for p in PARAMS}, vocab=dict(r.vocab_dict), arrays=[bits(r.scores[p]) for p in ("data", "indices", "indptr")],
               scores=[bits(r.get_scores(list(q))) for q in queries if q])
    if "" not in r.vocab_dict:
        # an id that it does not know finds nothing
        ids = [j for j in (r.get_tokens_ids(list(q)) for q in queries) if j]
    else:
        ids = [r.get_tokens_ids(list(q)) + [max(r.vocab_dict.values()) + 1 + j] for j, q in enumerate(queries)]
    known = sorted(r.vocab_dict.values())
    ids += [known, known[-1:], known[:1]]
    res = r.retrieve(ids, k=k, show_progress=False, **kw)
    out["by id"] = [bits(res.scores), [bits(r.get_scores(list(i))) for i in (known, known[-1:])],
                    [r.get_tokens_ids(list(q)) for q in queries] + [r.get_tokens_ids(list(r.vocab_dict))]]
    for m in (None, mask):
        res = r.retrieve([list(q) for q in queries], k=k, show_progress=False, weight_mask=m, **kw)
        out["docs", m is None] = [[x.item() if isinstance(x, np.generic) else x for x in row] for row in res.documents]
        out["top", m is None] = bits(res.scores)
    return out


def agree(a, b, what):
    for key in a:
        if key == "arrays" or same_key(key, a, b):
            continue
        expect(False, "%s: %s: %.600r instead of %.600r", what, key, b[key], a[key])
    expect(a["arrays"] == b["arrays"], "%s: the score matrix differs", what)


def same_key(key, a, b):
    return same(a[key], b[key]) if isinstance(key, tuple) and key[0] == "docs" else a[key] == b[key]


def at_once(jobs, n):
    """All jobs from n threads, switching between them as often as possible."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with ThreadPoolExecutor(n) as pool:
            return [f.result() for f in [pool.submit(*j) for j in jobs]]
    finally:
        sys.setswitchinterval(old)


def make_tok(spec, mod=bm25s):
    return mod.tokenization.Tokenizer(lower=spec["lower"], splitter=CALLABLES.get(spec["splitter"], spec["splitter"]), stopwords=list(spec["stop"]),
                                      stemmer=CALLABLES.get(spec["stemmer"]))


def spoken(spec, texts):
    """The tokens of the texts if all are let into the vocabulary."""
    f, stem = CALLABLES.get(spec["splitter"]), CALLABLES.get(spec["stemmer"], str)
    out = []
    for t in texts:
        t = t.lower() if spec["lower"] else t
        ws = f(t) if f else re.findall(spec["splitter"], t)
        out.append([stem(w) if w else "" for w in ws if w not in spec["stop"]] or [""])
    return out


def say(tok, texts, update):
    ids = tok.tokenize(list(texts), update_vocab=update, return_as="ids", show_progress=False)
    return [list(map(int, d)) for d in ids], tok.decode([list(d) for d in ids]), dict(tok.get_vocab_dict())


TOKEN_PATTERNS = [r"(?u)\b\w\w+\b", r"\w+", r"\W+", r"[a-z]+", r"[A-Z]+", r"\S+", r"\s+"]


def tokens(texts, stop, pattern=TOKEN_PATTERNS[0], lower=True):
    kw = dict(stopwords=stop, show_progress=False, token_pattern=pattern, lower=lower)
    a = bm25s.tokenize(list(texts), **kw)
    strings = bm25s.tokenize(list(texts), return_ids=False, **kw)
    for t, got in zip(texts, strings):
        want = [w for w in re.findall(pattern, t.lower() if lower else t) if w not in stop]
        expect(got == want or not want, "tokenize %.200r by %r: %.300r instead of %.300r", t, pattern, got, want)
    return strings, [list(map(int, d)) for d in a.ids], dict(a.vocab)


# ---- executed in the other process

def remote_pickle(state, data, queries, k, mask):
    r = pickle.loads(data)
    a = answers(r, queries, k, mask)
    return a, pickle.dumps(r)


def remote_build(state, params, backend, docs, corpus, queries, k, mask, empty, save=None):
    r = sut.build(params, docs, backend=backend, corpus=corpus, create_empty_token=empty)
    if save:
        r.save(save, corpus=corpus)
    return answers(r, queries, k, mask)


def remote_load(state, path, mmap, load_corpus, queries, k, mask):
    r = bm25s.BM25.load(path, mmap=mmap, load_corpus=load_corpus)
    a = answers(r, queries, k, mask)
    if hasattr(r.corpus, "close"):
        r.corpus.close()
    return a


def remote_text(state, params, texts, queries, stop):
    toks = bm25s.tokenize(list(texts), stopwords=stop, show_progress=False)
    strings = bm25s.tokenize(list(texts), stopwords=stop, return_ids=False, show_progress=False)
    r = sut.build(params, toks)
    return strings, [np.asarray(r.get_scores(q), dtype="float64").tolist() for q in queries]


def remote_tok(state, data, texts, update):
    t = pickle.loads(data)
    return say(t, texts, update), pickle.dumps(t)


def remote_tok_load(state, spec, path, texts, update):
    t = make_tok(spec)
    t.load_vocab(path)
    t.load_stopwords(path)
    return say(t, texts, update)


def remote_echo(state, data):
    x = pickle.loads(data)
    return type(x).__name__, x


INDEX_OPS = ["deepcopy", "pickle", "remote", "remote", "build", "save there", "save here", "change", "poke", "again", "threads"]
TOK_OPS = ["deepcopy", "pickle", "remote", "load there", "text", "poke", "threads"]
sentence = st.lists(st.sampled_from(["cat", "cats", "the", "Running", "runs", "dog", "fish", "\u00e9t\u00e9", "x1", "\u65e5\u672c", "birds", "a|b"]), max_size=6).map(" ".join)


@register
class C29(Prop):
    pid = "C29"
    rule = ("several indexes and tokenizers with different data and parameters alive at once x sequence of deep copies, pickle round trips, copies changed part by part, copies sent to, "
            "built, saved or loaded in another process (other hash seed and working directory), re-indexing of some of them, questions from several threads at once; all asked after every step; "
            "non-trivial: at least two indexes, or a tokenizer and a copy of it")
    examples = dict(quick=500, thorough=20000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            nb = draw(st.integers(0, 19)) == 0
            idx = []
            for _ in range(draw(st.integers(1, 3))):
                c = draw(gen.corpus(max_docs=8, big=False))
                idx.append(dict(corpus=c, params=draw(gen.params(numba=prof if nb else None)), queries=draw(gen.queries(c, max_size=3)),
                                attach=draw(st.sampled_from([None, None, "str", "dict", "mix"])), k=draw(st.integers(1, 8)), empty=draw(st.integers(0, 2)) > 0))
            toks = draw(st.lists(st.fixed_dictionaries(dict(
                lower=st.booleans(), splitter=st.sampled_from([r"(?u)\b\w\w+\b", r"\w+", r"\w+", r"\W+", r"\S+", r"\s+", r"[a-z]+", r"[A-Z]+", "split", "bars", "chars", "split on a", "split on u"]),
                stop=st.sampled_from([[], ["the"], ["cat", "the", "\u00e9t\u00e9"]]), stemmer=st.sampled_from([None, "stem3", "upper", "cut1", "cut2", "cut4"]),
                texts=st.lists(sentence, max_size=3))), max_size=3))
            op = st.one_of(st.tuples(st.just("index"), st.sampled_from(INDEX_OPS), st.integers(0, 7), st.integers(0, 5)),
                           st.tuples(st.just("index"), st.sampled_from(INDEX_OPS), st.integers(0, 7), st.integers(0, 5)),
                           st.tuples(st.just("tok"), st.sampled_from(TOK_OPS), st.integers(0, 7), st.lists(sentence, max_size=3),
                                     st.sampled_from([True, False, "never", "if_empty"])))
            return dict(numba=nb, indexes=idx, toks=toks, ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=6))])
        return f()

    def fixed(self, ctx):
        out = []
        pp = prof_params(ctx.prof)

        def one(i, docs, vocab, length=5, **kw):
            return dict(dict(corpus=gen.big_corpus(i, docs, vocab, length), params=dict(FIXED_P, method=ref.METHODS[i % 5], dtype=["float32", "float64"][i % 2]),
                             queries=[["w1", "w2", "w1"], [], ["w0"], ["zzz", "w3"]], attach=[None, "str", "dict", "mix"][i % 4], k=5, empty=i % 3 > 0), **kw)

        tok = dict(lower=True, splitter=r"\w+", stop=["the"], stemmer=None, texts=["the cat runs", "\u00e9t\u00e9 dogs"])
        tops = [["tok", o, j, ["new cats runs", "", "the dog"], u] for j, o in enumerate(TOK_OPS) for u in (True, False, "never", "if_empty")]
        for i in range(10):
            out.append(dict(numba=False, indexes=[one(i, 20, 12), one(i + 1, 20, 12), one(i + 2, [300, 3000][i % 2], 900)],
                            toks=[dict(tok, stemmer=[None, "stem3", "upper", "cut2"][i % 4], splitter=[r"\w+", "split", "bars"][i % 3]), dict(tok, stop=[], stemmer=[None, "cut4"][i % 2]),
                                  dict(tok, stemmer="cut1", splitter=["split on a", r"\S+"][i % 2])] + [dict(tok, splitter=x, lower=False) for x in
                                 [(r"\W+", r"\w"), (r"[A-Z]+", r"[a-z]+"), (r"\s+", r"\S+"), (r"[A-Za-z]+", r"(?i)[a-z]+")][i % 4]],
                            ops=[["index", o, (i + j) % 5, i + j] for j, o in enumerate(INDEX_OPS + INDEX_OPS)] + tops[i:] + tops[:i]))
        for i in range(8):
            out.append(dict(numba=True, indexes=[one(i, 20, 12, params=pp), one(i + 1, 20, 12, params=pp)], toks=[], ops=[
                ["index", o, (i + j) % 5, j] for j, o in enumerate(INDEX_OPS)]))
        return out

    def run(self, case, ctx):
        try:
            self.check(case, ctx)
        except Died as e:
            _helper.clear()
            expect(False, "%s", e)
        except RemoteError as e:
            expect(False, "in the other process: %s", e)

    def check(self, case, ctx):
        H = lambda f, *args: helper(ctx).ask("p_copies", f, *args)
        backend = "numba" if case["numba"] else "numpy"
        folder = ctx.tmp()
        objs, toks = [], []

        def corpus(kind, n, salt):
            if kind is None:
                return None
            return [{"str": "d%d-%d \u00e9" % (salt, j), "dict": {"id": j, "n": salt}, "mix": [[j, salt], "s%d-%d" % (salt, j), {"a": salt, "j": j}][j % 3]}[kind] for j in range(n)]

        def spec_of(x, salt):
            docs = gen.expand(x["corpus"])
            n = len(docs)
            return dict(docs=docs, params=x["params"], queries=[list(q) for q in x["queries"]], k=min(n, x["k"]), corpus=corpus(x["attach"], n, salt), empty=x.get("empty", True) or not any(docs),
                        mask=np.array([(j * 7 + salt) % 3 / 2 for j in range(n)], dtype="float32"))

        def check_model(s, a, what):
            """An index that was built independently: by the reference formula."""
            model = ref.Index(s["docs"], **s["params"])
            expect(set(a["vocab"]) - {""} == {t for d in s["docs"] for t in d} - {""}, "%s: vocabulary %r", what, sorted(a["vocab"])[:20])
            full = [q for q in s["queries"] if q]
            for q, (dt, shape, data) in zip(full, a["scores"]):
                want, t = model.scores(q, s["params"]["dtype"])
                sut.close(np.frombuffer(data, dtype=dt), want, t, "%s: scores of %r" % (what, q[:20]))
            for m in (None, s["mask"]):
                dt, shape, data = a["top", m is None]
                top = np.frombuffer(data, dtype=dt).reshape(shape)
                for i, q in enumerate(s["queries"]):
                    want, t = model.scores(q, s["params"]["dtype"])
                    w = 1 if m is None else m.astype("float64")
                    ids = a["docs", m is None][i]
                    if s["corpus"] is not None:
                        ids = [next((j for j, c in enumerate(s["corpus"]) if same(c, x)), None) for x in ids]
                        expect(None not in ids, "%s: unknown document in %.300r", what, a["docs", m is None][i])
                    ref.check_topk(top[i], ids, want * w, s["k"], True, 2 * t, "%s: query %r" % (what, q[:20]))

        def say_all(what):
            for j, (r, s, a) in enumerate(objs):
                agree(a, answers(r, s["queries"], s["k"], s["mask"]), "%s: index %d" % (what, j))
            for j, (t, s, log) in enumerate(toks):
                got = dict(t.get_vocab_dict())
                expect(got == log, "%s: vocabulary of tokenizer %d: %r instead of %r", what, j, got, log)

        def add(r, s, what):
            a = answers(r, s["queries"], s["k"], s["mask"])
            check_model(s, a, what)
            objs.append([r, s, a])

        for j, x in enumerate(case["indexes"]):
            s = spec_of(x, j)
            add(sut.build(s["params"], [list(d) for d in s["docs"]], backend=backend, corpus=copy.deepcopy(s["corpus"]), create_empty_token=s["empty"]), s, "index %d" % j)
        for j, x in enumerate(case["toks"]):
            t = make_tok(x)
            if x["texts"]:
                got = say(t, x["texts"], True)
                expect(got[1] == spoken(x, x["texts"]), "tokenizer %d: %r instead of %r", j, got[1], spoken(x, x["texts"]))
            toks.append([t, x, dict(t.get_vocab_dict())])
        say_all("several objects")
        for step, op in enumerate(case["ops"]):
            what = "step %d %s" % (step, op[:3])
            if op[0] == "index":
                r, s, a = o = objs[op[2] % len(objs)]
                kind, args = op[1], (s["queries"], s["k"], s["mask"])
                if kind in ("deepcopy", "pickle", "remote"):
                    if kind == "remote":
                        b, data = H("remote_pickle", pickle.dumps(r, protocol=2 + op[3] % 4), *args)
                        agree(a, b, what + ": answers there")
                        c = pickle.loads(data)
                    else:
                        c = copy.deepcopy(r) if kind == "deepcopy" else pickle.loads(pickle.dumps(r, protocol=2 + op[3] % 4))
                    agree(a, answers(c, *args), what)
                    if len(objs) < 6:
                        objs.append([c, s, a])
                elif kind == "build":
                    b = H("remote_build", s["params"], backend, s["docs"], s["corpus"], *args, s["empty"])
                    check_model(s, b, what)
                elif kind in ("save there", "save here"):
                    d = os.path.join(folder, "idx%d" % step)
                    if kind == "save there":
                        b = H("remote_build", s["params"], backend, s["docs"], s["corpus"], *args, s["empty"], d)
                        check_model(s, b, what)
                        x = bm25s.BM25.load(d, mmap=bool(op[3] % 2))
                        got = answers(x, *args)
                    else:
                        r.save(d)
                        b, got = a, H("remote_load", d, bool(op[3] % 2), False, *args)
                    for key in b:  # (loaded without the corpus)
                        if not (isinstance(key, tuple) and key[0] == "docs"):
                            expect(same_key(key, b, got), "%s: %s: %.500r instead of %.500r", what, key, got[key], b[key])
                    if s["corpus"] is not None and kind == "save here":
                        full = H("remote_load", d, bool(op[3] % 2), True, *args)
                        docs = stored(s["corpus"])
                        want = [[docs[next(j for j, c in enumerate(s["corpus"]) if same(c, x))] for x in row] for row in a["docs", True]]
                        expect(same(full["docs", True], want), "%s: documents %.500r instead of %.500r", what, full["docs", True], want)
                elif kind == "poke":
                    # whatever is done to the parts of a copy
                    c = pickle.loads(pickle.dumps(r)) if op[3] % 3 == 0 else copy.deepcopy(r)
                    c.vocab_dict["poked"] = 0
                    c.vocab_dict.pop(next(iter(c.vocab_dict)))
                    for name in ("data", "indices", "indptr"):
                        if c.scores[name].flags.writeable:
                            c.scores[name][...] = 0
                    c.scores["num_docs"] = 1
                    if c.corpus:
                        for x in c.corpus:
                            if hasattr(x, "clear"):
                                x.clear()
                        c.corpus.append("poked")
                    c.k1, c.method = 77, "poked"
                elif kind == "threads":
                    jobs = [(answers, x, y["queries"], y["k"], y["mask"]) for x, y, _ in objs] * (1 + op[3] % 3)
                    for j, b in enumerate(at_once(jobs, 2 + op[3] % 4)):
                        agree(objs[j % len(objs)][2], b, "%s: index %d" % (what, j % len(objs)))
                elif kind == "change":
                    # index something else with this object: all others stay as they are
                    new = dict(s, docs=[list(reversed(d)) + ["w%d" % (op[3] + j % 2)] for j, d in enumerate(s["docs"][1:] + s["docs"][:1])])
                    r.index([list(d) for d in new["docs"]], create_empty_token=s["empty"], show_progress=False)
                    b = answers(r, *args)
                    check_model(new, b, what)
                    o[1:] = [new, b]
                else:
                    other = objs[op[3] % len(objs)]
                    add(sut.build(other[1]["params"], [list(d) for d in s["docs"]], backend=backend, corpus=copy.deepcopy(s["corpus"]), create_empty_token=s["empty"]),
                        dict(s, params=other[1]["params"]), what)
                    objs.pop()
                res = r.retrieve([list(q) for q in s["queries"]], k=s["k"], show_progress=False, **({} if case["numba"] else dict(backend_selection="numpy")))
                name, there = H("remote_echo", pickle.dumps(res))
                expect(name == "Results" and same(np.asarray(there.documents).tolist(), np.asarray(res.documents).tolist()) and bits(there.scores) == bits(res.scores),
                       "%s: results change on the way to another process", what)
            elif toks:
                t, s, _ = o = toks[op[2] % len(toks)]
                kind, texts, update = op[1], op[3], op[4]
                if kind in ("deepcopy", "pickle", "remote"):
                    if kind == "remote":
                        got, data = H("remote_tok", pickle.dumps(t), texts, update)
                        c = pickle.loads(data)
                    else:
                        c = copy.deepcopy(t) if kind == "deepcopy" else pickle.loads(pickle.dumps(t))
                        got = say(c, texts, update)
                    expect(dict(t.get_vocab_dict()) == o[2], "%s: using a copy changed the original", what)
                    expect(dict(c.get_vocab_dict()) == got[2], "%s: vocabulary of the copy", what)
                    want = say(t, texts, update)
                    expect(same(got, want), "%s: the copy gives %r, the original %r", what, got, want)
                    o[2] = want[2]
                    if len(toks) < 4:
                        toks.append([c, s, got[2]])
                elif kind == "poke":
                    c = pickle.loads(pickle.dumps(t)) if len(texts) % 3 == 2 else copy.deepcopy(t)
                    c.stopwords.extend(["poked", "cat", "runs", "dog"])
                    for name in ("word_to_id", "stem_to_sid", "word_to_stem"):
                        if isinstance(getattr(c, name, None), dict):
                            getattr(c, name).clear()
                    expect(list(t.stopwords) == list(s["stop"]), "%s: the stopwords became %r", what, t.stopwords)
                    got = say(t, texts, update)
                    if update is True:
                        expect(got[1] == spoken(s, texts), "%s: %r instead of %r", what, got[1], spoken(s, texts))
                    o[2] = got[2]
                elif kind == "threads":
                    # every tokenizer in a thread of its own, against copies that do the same one after the other
                    jobs = [(say, x, texts + [" ".join(texts)] * (j + 1), update) for j, (x, _, _) in enumerate(toks)]
                    want = [say(copy.deepcopy(j[1]), *j[2:]) for j in jobs]
                    for j, (got, w) in enumerate(zip(at_once(jobs, 4), want)):
                        expect(same(got, w), "%s: tokenizer %d gives %r, on its own %r", what, j, got, w)
                        toks[j][2] = w[2]
                    plain = [(tokens, texts[i:] + texts[:i], list(s["stop"]), p, i % 2 == 0) for i in range(2) for p in TOKEN_PATTERNS]
                    for j, got in zip(plain, at_once(plain, 4)):
                        expect(got == tokens(*j[1:]), "%s: tokenize in several threads", what)
                elif kind == "load there":
                    d = os.path.join(folder, "tok%d" % step)
                    t.save_vocab(d)
                    t.save_stopwords(d)
                    got = H("remote_tok_load", s, d, texts, update)
                    want = say(t, texts, update)
                    expect(same(got, want), "%s: the loaded one gives %r, the original %r", what, got, want)
                    o[2] = want[2]
                else:
                    strings = bm25s.tokenize(list(texts), stopwords=list(s["stop"]), return_ids=False, show_progress=False)
                    if any(strings):
                        p = objs[0][1]["params"] if objs else FIXED_P
                        model = ref.Index(strings, **p)
                        qs = [d for d in strings if d]
                        there, scores = H("remote_text", p, texts, qs, list(s["stop"]))
                        expect(there == strings, "%s: tokens there %r, here %r", what, there, strings)
                        for q, x in zip(qs, scores):
                            want, tol = model.scores(q, p["dtype"])
                            sut.close(x, want, tol, "%s: scores there of %r" % (what, q))
                for j, (x, y, log) in enumerate(toks):  # copies are asked too
                    if kind != "text" and (update is True or j == op[2] % len(toks)):
                        got = say(x, texts, True)
                        expect(got[1] == spoken(y, texts), "%s: tokenizer %d: %r instead of %r", what, j, got[1], spoken(y, texts))
                        toks[j][2] = got[2]
                tt = t.to_tokenized_tuple(say(t, texts, "never")[0])
                name, there = H("remote_echo", pickle.dumps(tt))
                expect(name == "Tokenized" and same([list(map(int, d)) for d in there.ids], [list(map(int, d)) for d in tt.ids]) and
                       dict(there.vocab) == dict(tt.vocab), "%s: tokens change on the way to another process", what)
            say_all("after " + what)

    def labels(self, case):
        return ["backend numba" if case["numba"] else "backend numpy", "indexes %d" % len(case["indexes"])] + sorted({"%s %s" % tuple(o[:2]) for o in case["ops"]})

    def nontrivial(self, case):
        return len(case["indexes"]) > 1 or (bool(case["toks"]) and any(o[0] == "tok" and o[1] in ("deepcopy", "pickle", "remote") for o in case["ops"]))
