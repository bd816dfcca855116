"""C02 top-k retrieval, C03 backends, C05 unknown/empty queries, C08 masks, C10 batches, C23 selection."""
import random

import numpy as np
from hypothesis import strategies as st

import bm25s
from bm25s.tokenization import Tokenized

from . import gen, ref, sut
from .compare import same
from .core import Prop, expect, register

JAX_REL = 1.3e-7  # jax computes in single precision


def setup(case, backend="numpy"):
    docs = gen.expand(case["corpus"])
    r = sut.build(case["params"], docs, backend=backend)
    return docs, r


def jax_slack(t, scores, p, selection):
    if selection == "jax" and p.get("dtype") == "float64":
        return t + JAX_REL * np.abs(scores)
    return t


def as_form(form, queries, r):
    """The queries in one of the accepted forms."""
    if form == "strings":
        return [list(q) for q in queries]
    if form in ("tokenized", "tuple"):
        vocab = {}
        g = random.Random(len(queries))
        ws = sorted({t for q in queries for t in q} | {"never used"})
        g.shuffle(ws)
        vocab = {w: i for i, w in enumerate(ws)}
        ids = [[vocab[t] for t in q] for q in queries]
        return Tokenized(ids=ids, vocab=vocab) if form == "tokenized" else (ids, vocab)
    if form == "ids":
        free = max(r.vocab_dict.values()) + 3
        return [[r.vocab_dict.get(t, free + j) for j, t in enumerate(q)] for q in queries]
    raise AssertionError(form)


def run_config(cfg, case, indexes, queries, k, mask=None, **kw):
    """Retrieve under one execution configuration -> docs, scores (both (n, k))."""
    r = indexes["numba" if cfg["backend"] == "numba" else "numpy"]
    if cfg.get("scorer"):
        r = indexes["scorer"]
    q = as_form(cfg.get("form", "strings"), queries, r)
    args = dict(k=k, sorted=cfg.get("sorted", True), n_threads=cfg.get("threads", 0),
                show_progress=cfg.get("progress", False), backend_selection=cfg.get("selection", "auto"))
    if cfg.get("chunk"):
        args["chunksize"] = cfg["chunk"]
    if cfg.get("leave"):
        args["leave_progress"] = True
    if mask is not None:
        args["weight_mask"] = mask
    args.update(kw)
    res = r.retrieve(q, **args)
    docs, scores = np.asarray(res.documents), np.asarray(res.scores)
    expect(docs.shape == (len(queries), k) and scores.shape == (len(queries), k),
           "shapes %s %s, expected %s under %s", docs.shape, scores.shape, (len(queries), k), cfg)
    return docs, scores


def make_indexes(case, docs, cfgs, **kw):
    p = case["params"]
    out = {"numpy": sut.build(p, docs, **kw)}
    if any(c["backend"] == "numba" for c in cfgs):
        # "auto" chooses numba, which is installed here
        auto = any(c.get("built") == "auto" for c in cfgs)
        out["numba"] = sut.build(p, docs, backend="auto" if auto else "numba", **kw)
    if any(c.get("scorer") for c in cfgs):
        out["scorer"] = sut.build(p, docs, **kw)
        out["scorer"].activate_numba_scorer()
    return out


@st.composite
def config(draw, backends=("numpy",) * 4 + ("jax", "auto", "select", "numba", "numba", "scorer"), forms=("strings",),
           threads=True):
    b = draw(st.sampled_from(backends))
    cfg = dict(backend="numba" if b == "numba" else "numpy",
               selection={"numpy": "numpy", "jax": "jax", "auto": "auto", "select": "numba", "numba": "auto",
                          "scorer": "numpy"}[b],
               scorer=b == "scorer", sorted=draw(st.sampled_from([True, True, False])),
               form=draw(st.sampled_from(forms)))
    if threads:
        cfg["threads"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, -1]))
        cfg["chunk"] = draw(st.sampled_from([None, None, 1, 2, 7]))
        cfg["progress"] = draw(st.booleans())
        cfg["leave"] = cfg["progress"] and draw(st.booleans())
    if b == "numba":
        cfg["built"] = draw(st.sampled_from(["numba", "numba", "auto"]))
    return cfg


def needs_profile(cfgs):
    return any(c["backend"] == "numba" or c.get("scorer") or c["selection"] == "numba" for c in cfgs)


def cfg_labels(cfgs):
    out = []
    for c in cfgs:
        out.append("backend " + ("numba" if c["backend"] == "numba" else "scorer" if c.get("scorer") else c["selection"]))
        if c.get("threads"):
            out.append("threads")
        if not c["sorted"]:
            out.append("unsorted")
        out.append("form " + c["form"])
    return out


@st.composite
def base_case(draw, prof, n_cfg=(1, 1), forms=("strings",), threads=True, empty=True, big=True, **ckw):
    cfgs = draw(st.lists(config(forms=forms, threads=threads), min_size=n_cfg[0], max_size=n_cfg[1]))
    p = draw(gen.params(numba=prof if needs_profile(cfgs) else None))
    c = draw(gen.corpus(big=big, **ckw))
    n = c["rng"]["docs"] if "rng" in c else len(c["docs"])
    qs = draw(gen.queries(c, max_size=4, empty=empty))
    if any(x["selection"] == "jax" or (x["selection"] == "auto" and x["backend"] == "numpy") for x in cfgs):
        # jax compiles for every (n, k)
        k = draw(st.sampled_from(sorted({1, min(n, 2), min(n, 5), n})))
    else:
        k = gen.pick_k(draw, n)
    return dict(params=p, corpus=c, queries=qs, k=k, cfgs=cfgs)


def n_docs(case):
    c = case["corpus"]
    return c["rng"]["docs"] if "rng" in c else len(c["docs"])


FIXED_P = dict(k1=1.5, b=0.75, delta=0.5, method="lucene", idf_method=None, dtype="float32", int_dtype="int32")


def prof_params(prof):
    return dict(FIXED_P, method="bm25+" if prof["nnoc"] else "lucene", dtype=prof["dtype"], int_dtype=prof["int_dtype"])


def cfg(backend="numpy", selection="numpy", **kw):
    d = dict(backend=backend, selection=selection, scorer=False, sorted=True, form="strings", threads=0, chunk=None,
             progress=False)
    d.update(kw)
    return d


@register
class C02(Prop):
    pid = "C02"
    rule = ("corpus x parameters x batch x k (1..N, biased to 1 and N) x sorted x backend (numpy, jax, auto, numba selection, "
            "numba, compiled scorer) x threads; non-trivial: some query has more matching documents than zero and N >= 2")
    examples = dict(quick=400, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            case = draw(base_case(prof, max_docs=14))
            if draw(st.integers(0, 5)) == 0:  # scores that nearly coincide
                case["params"]["b"] = draw(st.sampled_from([1e-6, 1e-7, 1e-8, 1e-9]))
                if not needs_profile(case["cfgs"]):
                    case["params"]["dtype"] = draw(st.sampled_from(["float64", "float64", "float32"]))
                n = draw(st.sampled_from([10, 40, 150]))
                case.update(corpus=gen.big_corpus(draw(st.integers(0, 999)), n, 4, 8), queries=draw(st.lists(st.lists(
                    st.integers(0, 4).map(lambda j: "w%d" % j), min_size=1, max_size=3), min_size=1, max_size=3)), k=draw(st.sampled_from([1, 4, n // 2, n - 1])))
            return case
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        sizes = [(40000, 1), (3000, 1000), (20000, 20000), (2000, 1999), (70000, 1500), (5000, 4097), (70000, 10), (140000, 64), (33000, 300), (66000, 1), (66563, 9), (131079, 30), (98311, 12), (70000, 70000), (66000, 40000)]
        for i, (n, k) in enumerate(sizes):
            for c in (cfg(), cfg(backend="numba", selection="auto"), cfg(selection="auto", sorted=False), cfg(selection="numba")):
                yield dict(params=pp if needs_profile([c]) else dict(FIXED_P, method=ref.METHODS[i % 5]),
                           corpus=gen.big_corpus(i, n, 30, 3, marks=i % 5 != 4), queries=[["w1", "w2"], [], ["w29"], ["w0"] * 3, ["w1"]],
                           k=k, cfgs=[c])
        # scores that nearly coincide
        for i in range(8):
            for c in (cfg(), cfg(backend="numba", selection="auto"), cfg(selection="auto"), cfg(selection="numba"), cfg(scorer=True)):
                yield dict(params=dict(pp if needs_profile([c]) else dict(FIXED_P, dtype="float64", method=ref.METHODS[i % 5]), b=[1e-6, 1e-7, 1e-8, 1e-9][i % 4]),
                           corpus=gen.big_corpus(i, [30, 200][i % 2], 4, 8), queries=[["w0"], ["w1"], ["w2", "w0"], ["w3"]], k=[3, 20, 10, 100][i % 4], cfgs=[c])
        # every shard needs each of these (numba is compiled per shard), hence after `sizes`
        # a large batch
        for i in range(6):
            yield dict(params=pp, corpus=gen.big_corpus(50 + i, 60, 20, 4),
                       queries=[["w%d" % (j % 23)] * (j % 3) for j in range(150)], k=7,
                       cfgs=[cfg(backend="numba", selection="auto", threads=i % 3), cfg(threads=2, chunk=7)])

    def labels(self, case):
        return gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + cfg_labels(case["cfgs"]) + [
            "k=N" if case["k"] == n_docs(case) else "k=1" if case["k"] == 1 else "1<k<N"]

    def nontrivial(self, case):
        return n_docs(case) >= 2 and any(case["queries"])

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p = case["params"]
        model = ref.Index(docs, **p)
        idx = make_indexes(case, docs, case["cfgs"])
        for c in case["cfgs"]:
            d, s = run_config(c, case, idx, case["queries"], case["k"])
            for i, q in enumerate(case["queries"]):
                want, t = model.scores(q, p["dtype"])
                t = jax_slack(t, want, p, c["selection"])
                ref.check_topk(s[i], d[i], want, case["k"], c["sorted"], t, "query %r under %s" % (q[:20], c))
                # paired with exactly the score that scoring the query reports
                if len(q):
                    own = sut.all_scores(idx["numpy"], q, len(docs))
                    mag = model.scores(q, "float32")[1] / (len(q) + 12)
                    t = (len(q) + 3) * (2e-9 if p["dtype"] == "float64" else 1) * mag
                    t = jax_slack(t, own, p, c["selection"])
                    ref.check_topk(s[i], d[i], own, case["k"], c["sorted"], t, "query %r under %s against its own scores" % (q[:20], c))


@register
class C03(Prop):
    pid = "C03"
    rule = ("corpus x parameters x batch with empty/unknown queries x k x optional mask, under 2-4 execution configurations "
            "(backend, selection, compiled scorer, threads incl. -1, chunk size, progress, sortedness), each compared with "
            "sequential numpy; non-trivial: at least one query with a token and N >= 2")
    examples = dict(quick=390, thorough=20000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            case = draw(base_case(prof, n_cfg=(2, 4), max_docs=12))
            case["mask"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 10**6)))
            case["repeat"] = draw(st.sampled_from([1] * 8 + [3, 30, 70]))
            return case
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        for i in range(6):
            c = [cfg(backend="numba", selection="auto", threads=[0, 1, 2, 3, 4, -1][i]), cfg(threads=[-1, 5, 2, 1, 8, 16][i], chunk=3),
                 cfg(selection="numba"), cfg(scorer=True)]
            yield dict(params=pp, corpus=gen.big_corpus(i, [9000, 300, 2000, 70000, 1, 40000][i], 30, 3, marks=i != 4),
                       queries=[[], ["w1", "w2"], ["zzz"], [], ["w29", "w0", "w0"]] + [["w%d" % j] for j in range(60)],
                       k=[100, 300, 7, 2, 1, 10][i], cfgs=c, mask=5 if i % 2 else None)
        for i in range(6):
            yield dict(params=pp, corpus=gen.big_corpus(i, 50, 30, 3), queries=[[]] if i % 2 else [[], ["zzz"], []],
                       k=3, cfgs=[cfg(backend="numba", selection="auto"), cfg(selection="auto"), cfg(threads=2)],
                       mask=None if i < 3 else 9)

    def labels(self, case):
        qs = case["queries"]
        return gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + cfg_labels(case["cfgs"]) + (
            ["masked"] if case["mask"] is not None else []) + (["first query empty"] if not qs[0] else []) + (
            ["all queries empty"] if not any(qs) else []) + (["batch of more than 64"] if len(qs) * case.get("repeat", 1) > 64 else [])

    def nontrivial(self, case):
        return n_docs(case) >= 2 and any(case["queries"])

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p, k, qs = case["params"], case["k"], case["queries"] * case.get("repeat", 1)
        mask = None
        if case["mask"] is not None:
            g = random.Random(case["mask"])
            mask = np.array([g.choice([0, 1, 1, 0.5, 2, 0.25]) for _ in docs],
                            dtype=g.choice(["float32", "float64"]) if g.random() < 0.6 else g.choice(["bool", "int64"]))
        idx = make_indexes(case, docs, case["cfgs"])
        base = cfg(sorted=True)
        bd, bs = run_config(base, case, idx, qs, k, mask)
        full = []
        model = ref.Index(docs, **p)
        for q in qs:
            s = sut.all_scores(idx["numpy"], q, len(docs)) * (1 if mask is None else mask.astype("float64"))
            t = 3 * model.scores(q, p["dtype"])[1] * (1 if mask is None else np.maximum(1, mask.astype("float64")))
            full.append((s, t))
        for i, q in enumerate(qs):
            ref.check_topk(bs[i], bd[i], full[i][0], k, True, full[i][1], "sequential numpy, query %r" % q[:20])
        for c in case["cfgs"]:
            d, s = run_config(c, case, idx, qs, k, mask)
            if c["selection"] != "jax":
                expect(np.asarray(s).dtype == np.dtype(p["dtype"]), "scores are %s instead of %s under %s", np.asarray(s).dtype, p["dtype"], c)
            for i, q in enumerate(qs):
                t = jax_slack(full[i][1], full[i][0], p, c["selection"])
                ref.check_topk(s[i], d[i], full[i][0], k, c["sorted"], t, "query %d %r under %s" % (i, q[:20], c))
                sut.close(np.sort(s[i]), np.sort(bs[i]), 2 * np.max(t), "query %d %r: scores under %s vs sequential numpy" % (i, q[:20], c))
        if any(c.get("scorer") for c in case["cfgs"]):
            for i, q in enumerate(qs):
                if q:
                    sut.close(np.asarray(idx["scorer"].get_scores(q, weight_mask=mask)), full[i][0], full[i][1], "compiled scorer, query %r" % q[:20])


BAD_IDS = [10**6, 2**31 - 1, 7, 0, -1, -5, 100, 65536]


@register
class C05(Prop):
    pid = "C05"
    rule = ("corpus x variant x backend x query form; every query gets unknown tokens (words or ids) inserted at random places; "
            "empty and all-unknown queries anywhere in the batch; non-trivial: at least one unknown token or empty query")
    examples = dict(quick=800, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            numba = draw(st.integers(0, 2)) == 0
            p = draw(gen.params(numba=prof if numba else None))
            c = draw(gen.corpus(max_docs=8))
            n = c["rng"]["docs"] if "rng" in c else len(c["docs"])
            qs = []
            for _ in range(draw(st.integers(1, 4))):
                known = draw(st.one_of(st.just([]), gen.query_tokens(c, oov=False, max_size=4), gen.query_tokens(c, oov=False, max_size=4)))
                ins = draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 7)), max_size=4))
                qs.append([known, [list(x) for x in ins]])
            return dict(params=p, corpus=c, queries=qs, k=gen.pick_k(draw, n), numba=numba,
                        form=draw(st.sampled_from(["strings", "strings", "ids", "ids", "tokenized", "tuple"])),
                        index=draw(st.sampled_from(["tokens", "tokenized", "tuple", "rawids"])),
                        empty_token=draw(st.sampled_from([True, True, True, False])),
                        mask=draw(st.booleans()), threads=draw(st.sampled_from([0, 0, 2])), blank=draw(st.integers(0, 3)) == 0)
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        for i in range(12):
            yield dict(params=pp, corpus=gen.big_corpus(i, [1, 3, 40, 400, 3000, 20000][i % 6], 12, 3),
                       queries=[[[], []], [["w1"], [[0, 0], [1, 3]]], [[], [[0, 1]]], [["w0", "w0", "w3"], []], [[], [[0, 4], [0, 2]]]],
                       k=1, numba=True, form=["strings", "ids"][i % 2], index=["tokens", "tokenized", "tuple", "rawids"][i % 4],
                       empty_token=True, mask=False, threads=0)
        for i in range(6):
            yield dict(params=pp, corpus=gen.big_corpus(i, 5, 3, 3), queries=[[[], []]] * 3, k=2, numba=True,
                       form=["strings", "ids", "tokenized"][i % 3], index="tokens", empty_token=True, mask=i > 2, threads=0)

    def labels(self, case):
        return gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + [
            "form " + case["form"], "index " + case["index"], "numba" if case["numba"] else "numpy"] + (
            ["first query empty"] if not case["queries"][0][0] else []) + (
            ["unknown inserted"] if any(i for k, i in case["queries"] if k) else [])

    def nontrivial(self, case):
        return any(i or not k for k, i in case["queries"])

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p, k, n = case["params"], case["k"], len(docs)
        vocab = gen.vocab_of(docs)
        backend = "numba" if case["numba"] else "numpy"
        form, index = case["form"], case["index"]
        if case.get("blank"):  # the empty token is one of the tokens of documents
            form = "strings" if form == "ids" else form
            index = "tokens" if index == "rawids" else index
            docs[0] = docs[0] + [""]
            docs[n // 2] = [""] + docs[n // 2]
            vocab = gen.vocab_of(docs)
        empty_token = case["empty_token"] or form == "ids"
        if index == "rawids":
            form = "ids" if form != "ids" else form
            empty_token = True
        corpus = {"tokens": docs, "tokenized": sut.tokenized(docs, vocab),
                  "tuple": ([[vocab[t] for t in d] for d in docs], dict(vocab)),
                  "rawids": [[vocab[t] for t in d] for d in docs]}[index]
        r = sut.build(p, corpus, backend=backend, create_empty_token=empty_token)
        model = ref.Index(docs, **p)
        if form == "ids":
            used = set(r.vocab_dict.values())
            idof = (lambda t: vocab[t]) if index == "rawids" else (lambda t: r.vocab_dict[t])
            bad = [x for x in BAD_IDS if x not in used]
        else:
            idof = lambda t: t  # noqa: E731
            bad = [x for x in gen.OOV if x not in vocab]
        batch, plain = [], []
        for known, ins in case["queries"]:
            q = [idof(t) for t in known if t in vocab]
            plain.append([t for t in known if t in vocab])
            q2 = list(q)
            for pos, j in ins:
                if bad:
                    q2.insert(pos, bad[j % len(bad)])
            batch.append(q2)
        if form in ("tokenized", "tuple"):
            req = as_form(form, batch, r)
        else:
            req = [list(q) for q in batch]
        mask = None
        w = np.ones(n)
        if case["mask"]:
            mask = np.array([(i * 7 % 3) / 2 for i in range(n)], dtype="float32")
            w = mask.astype("float64")
        res = r.retrieve(req, k=k, show_progress=False, n_threads=case["threads"], weight_mask=mask)
        d, s = np.asarray(res.documents), np.asarray(res.scores)
        expect(d.shape == (len(batch), k) and s.shape == (len(batch), k), "shapes %s %s", d.shape, s.shape)
        for i, q in enumerate(batch):
            want, t = model.scores(plain[i], p["dtype"])
            ref.check_topk(s[i], d[i], want * w, k, True, t, "query %r (known part %r) in batch %r" % (q[:20], plain[i][:20], batch[:6]))
            if not plain[i]:
                expect(np.all(s[i] == 0), "query %r without known tokens has scores %s", q[:20], s[i][:10].tolist())
            if form != "ids" and q:
                got = np.asarray(r.get_scores(q), dtype=np.float64)
                sut.close(got, want, t, "get_scores(%r)" % q[:20])
                if plain[i]:
                    sut.close(got, np.asarray(r.get_scores(plain[i])), t, "get_scores(%r) without unknown tokens" % q[:20])


MASK_DTYPES = ["bool", "int8", "uint8", "int16", "int32", "int64", "float32", "float64"]


def make_mask(spec, n):
    """spec: {"seed", "dtype", "kind", "layout"}"""
    g = random.Random(spec["seed"])
    dt = spec["dtype"]
    pools = {"bool": [0, 1], "int": [0, 1, 1, 2, 3, 7, 100], "float": [0, 1, 0.5, 0.25, 1.5, 3.7, 0.001, 1e-3, 10.0, 123.25]}
    pool = pools["bool" if dt == "bool" else "float" if dt.startswith("float") else "int"]
    kind = spec["kind"]
    if kind in ("tiny", "wide", "constant"):
        if dt.startswith("float"):
            pool = [1e-9, 2e-9, 1e-12, 1e-20] if kind == "tiny" else [0, 1e-6, 1e-9, 1e-20, 1, 1e5, 0.5] if kind == "wide" else pool
        pool = [g.choice(pool)] if kind == "constant" else pool
        kind = "weights"
    if kind == "signed":
        kind, pool = "weights", pool if dt in ("bool", "uint8") else pool + [-x for x in pool]
    if kind == "zeros":
        v = [0] * n
    elif kind == "ones":
        v = [1] * n
    elif kind == "one":
        v = [0] * n
        v[g.randrange(n)] = pool[-1] if dt != "bool" else 1
    elif kind == "binary":
        v = [g.choice([0, 1]) for _ in range(n)]
    else:
        v = [g.choice(pool) for _ in range(n)]
    m = np.array(v, dtype=dt)
    if spec["layout"] == "strided":
        m2 = np.zeros(2 * n, dtype=dt)
        m2[::2] = m
        m = m2[::2]
    elif spec["layout"] == "reversed":
        m = m[::-1].copy()[::-1]
    elif spec["layout"] == "column":
        m = np.repeat(m.reshape(n, 1), 3, axis=1)[:, 1]
    elif spec["layout"] == "readonly":
        m.flags.writeable = False
    return m


@register
class C08(Prop):
    pid = "C08"
    rule = ("corpus x parameters x queries x mask (8 dtypes; zeros/ones/single/binary/weights; strided, reversed, column and read-only) x k x "
            "backend; non-trivial: the mask is not all ones and a query has a token")
    examples = dict(quick=760, thorough=30000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            case = draw(base_case(prof, n_cfg=(1, 2), max_docs=10, forms=("strings", "strings", "ids", "tokenized")))
            case["mask"] = dict(seed=draw(st.integers(0, 10**6)), dtype=draw(st.sampled_from(MASK_DTYPES)),
                                kind=draw(st.sampled_from(["weights", "weights", "signed", "binary", "zeros", "one", "ones", "tiny", "wide", "constant"])),
                                layout=draw(st.sampled_from(["plain"] * 6 + ["strided", "reversed", "column", "readonly"])))
            return case
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        for i in range(24):
            for c in (cfg(backend="numba", selection="auto"), cfg(), cfg(scorer=True)):
                yield dict(params=pp if c["backend"] == "numba" or c["scorer"] else dict(FIXED_P, method=ref.METHODS[i % 5], delta=1.5),
                           corpus=gen.big_corpus(i, [4, 50, 900][i % 3], 20, 3, marks=True), queries=[["w1", "w2"], ["w0"], ["w1"]],
                           k=[2, 50, 10][i % 3], cfgs=[c],
                           mask=dict(seed=i, dtype=MASK_DTYPES[i % 8], kind=["weights", "binary"][i // 8 % 2], layout=["reversed", "strided", "column"][(i + i // 8) % 3]))
        for i in range(12):
            for c in (cfg(backend="numba", selection="auto"), cfg()):
                yield dict(params=pp if c["backend"] == "numba" else dict(FIXED_P, method=ref.METHODS[i % 5], delta=1.5),
                           corpus=gen.big_corpus(i, [4, 50, 1000, 20000, 300, 66000][i % 6], 20, 3, marks=True), queries=[["w1", "w2"], [], ["w0"], ["w1"]],
                           k=[2, 50, 10, 2000, 300, 5][i % 6], cfgs=[c],
                           mask=dict(seed=i, dtype=MASK_DTYPES[(i * 3) % 8], kind=["weights", "binary", "signed"][i % 3], layout="plain"))
        for i, kind in enumerate(["tiny", "wide", "constant", "zeros"] * 4):
            for c in (cfg(backend="numba", selection="auto"), cfg(), cfg(selection="auto"), cfg(scorer=True)):
                yield dict(params=pp if c["backend"] == "numba" or c["scorer"] else dict(FIXED_P, method=ref.METHODS[i % 5], delta=1.5),
                           corpus=gen.big_corpus(i, 20, 5, 3), queries=[["w1", "w2"], [], ["w0"], ["w1"]], k=[5, 20][i % 2], cfgs=[c],
                           mask=dict(seed=i, dtype=["float32", "float64"][i // 4 % 2], kind=kind, layout="plain"))

    def labels(self, case):
        m = case["mask"]
        return gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + cfg_labels(case["cfgs"]) + [
            "mask " + m["dtype"], "mask " + m["kind"], "mask " + m["layout"]]

    def nontrivial(self, case):
        return case["mask"]["kind"] not in ("ones", "constant") and any(case["queries"]) and n_docs(case) >= 2

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p, k, qs, n = case["params"], case["k"], case["queries"], len(docs)
        idx = make_indexes(case, docs, case["cfgs"])
        mask = make_mask(case["mask"], n)
        keep = mask.copy()
        w = keep.astype(np.float64)
        model = ref.Index(docs, **p)
        base = idx["numpy"]
        exp = []
        for q in qs:
            s = sut.all_scores(base, q, n)
            t = 2 * model.scores(q, p["dtype"])[1]
            exp.append((s, s * w, (t + 1e-9) * np.abs(w)))
        for i, q in enumerate(qs):
            if q:
                ids = [base.vocab_dict[x] for x in q if x in base.vocab_dict]
                for what, got in (("get_scores", base.get_scores(list(q), weight_mask=mask)),
                                  ("get_scores_from_ids", base.get_scores_from_ids(ids, weight_mask=mask))):
                    sut.close(got, exp[i][1], exp[i][2], "%s(%r, mask %s)" % (what, q[:20], case["mask"]))
                    expect(np.all(np.asarray(got)[keep == 0] == 0), "%s(%r): a document with weight 0 has a score", what, q[:20])
        for c in case["cfgs"]:
            d, s = run_config(c, case, idx, qs, k, mask)
            for i, q in enumerate(qs):
                t = jax_slack(exp[i][2], exp[i][1], p, c["selection"])
                ref.check_topk(s[i], d[i], exp[i][1], k, c["sorted"], t, "masked query %r under %s, mask %s" % (q[:20], c, case["mask"]))
                expect(np.all(s[i][keep[d[i].astype(int)] == 0] == 0), "masked-out document with a non-zero score, query %r under %s", q[:20], c)
            expect(mask.dtype == keep.dtype and np.array_equal(mask, keep), "the mask was modified under %s", c)
            # the caller changes the weights in the very array that was used before
            changed = np.roll(np.array(keep), 1)
            buffer = np.array(keep)
            for weights in (keep, changed):
                buffer[:] = weights
                d, s = run_config(c, case, idx, qs, k, buffer)
            cw = changed.astype(np.float64)
            for i, q in enumerate(qs):
                t = (2 * model.scores(q, p["dtype"])[1] + 1e-9) * np.abs(cw)
                t = jax_slack(t, exp[i][0] * cw, p, c["selection"])
                ref.check_topk(s[i], d[i], exp[i][0] * cw, k, c["sorted"], t, "query %r under %s, mask %s changed in place" % (q[:20], c, case["mask"]))
            d, s = run_config(c, case, idx, qs, k)
            for i, q in enumerate(qs):
                t = jax_slack(exp[i][2] + 2 * model.scores(q, p["dtype"])[1], exp[i][0], p, c["selection"])
                ref.check_topk(s[i], d[i], exp[i][0], k, c["sorted"], t, "unmasked query %r after a masked one under %s" % (q[:20], c))
        for i, q in enumerate(qs):
            if q:
                expect(np.array_equal(sut.all_scores(base, q, n), exp[i][0]), "scores of %r changed after masked calls", q[:20])


@register
class C10(Prop):
    pid = "C10"
    rule = ("corpus x parameters x batch (1..150 queries, repeats, empty and unknown ones) x query form x k x backend x threads x "
            "chunk size x split points; non-trivial: at least two queries, one with a token")
    examples = dict(quick=480, thorough=20000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            case = draw(base_case(prof, n_cfg=(1, 2), max_docs=10, forms=("strings", "strings", "ids", "tokenized", "tuple")))
            case["repeat"] = draw(st.sampled_from([1, 1, 1, 1, 2, 3, 20, 50]))
            case["order"] = draw(st.integers(0, 10**6))
            case["splits"] = draw(st.lists(st.integers(1, 150), max_size=3))
            case["docs"] = draw(st.lists(st.sampled_from(["str", "long", "int", "float", "dict", "mixed"]), min_size=1, max_size=4)) if draw(st.booleans()) else []
            return case
        return f()

    def fixed(self, ctx):
        pp = prof_params(ctx.prof)
        for i in range(12):
            yield dict(params=pp, corpus=gen.big_corpus(i, [30, 2000][i % 2], 20, 3), queries=[["w1", "w2"], [], ["w0"], ["zzz"], ["w3"], ["w4"]],
                       k=5, cfgs=[cfg(backend="numba", selection="auto", threads=[0, 2, -1][i % 3]), cfg(threads=[-1, 3, 2][i % 3], chunk=[None, 1, 7][i % 3])],
                       repeat=[1, 22, 50][i % 3], order=i, splits=[1, 64, 65],
                       docs=[["str", "long"], ["int", "str"], ["int", "float"], ["dict", "int", "mixed"], ["str", "dict"], ["float", "long"]][i % 6])
        # different queries that look alike: joined by a separator, sorted, as a set, by length or by the sum of their ids
        for i, sep in enumerate(["", " ", ",", "\t", "|", "_", "\x00", "\n", "', '", "-"]):
            ws = ["a", "b", "a" + sep + "b", "b" + sep + "a", "c", "aa"]
            qs = [["a", "b"], ["a" + sep + "b"], ["b", "a"], ["a"], ["a", "a"], ["aa"], ["a", "a", "b"], ["a", "b", "b"], ["b" + sep + "a"], ["c"], ["zzz"], ["c", "zzz"]]
            yield dict(params=pp, corpus=dict(words=ws, docs=[[0], [1, 1], [2], [3, 4], [0, 0, 1], [5, 2], [4]]), queries=qs, k=4, repeat=1 + i % 2, order=i, splits=[5],
                       cfgs=[cfg(backend="numba", selection="auto"), cfg(threads=i % 3, form=["strings", "ids", "tokenized"][i % 3]), cfg(scorer=True)], docs=[])
        # thousands of queries, with more than 2**16 tokens together
        for i in range(8):
            yield dict(params=pp, corpus=gen.big_corpus(100 + i, 25, 20, 3), queries=[["w%d" % ((j * 7 + m) % 23) for m in range([19, 56][i % 2] - j * [2, 7, 0][i // 2 % 3])] for j in range(7)],
                       k=3, cfgs=[cfg(backend="numba", selection="auto", threads=[0, 3][i % 2], sorted=i < 6), cfg(threads=[4, 0][i % 2], chunk=[None, 1000][i % 2])],
                       repeat=[800, 270][i % 2], order=i, splits=[1024, 1025], docs=[])

    def labels(self, case):
        return gen.labels_params(case["params"]) + gen.labels_corpus(case["corpus"]) + cfg_labels(case["cfgs"]) + [
            "batch of %s" % ("1" if self.size(case) == 1 else "2-9" if self.size(case) < 10 else "10+")]

    def size(self, case):
        return len(case["queries"]) * case["repeat"]

    def nontrivial(self, case):
        return self.size(case) >= 2 and any(case["queries"])

    def merge_documents(self, case, c, idx, qs, k, n, cuts):
        """Merging results whose documents differ in type keeps every document."""
        if not case.get("docs"):
            return
        make = {"str": lambda i: "d%d" % i, "long": lambda i: "a document " * (i % 7 + 2) + str(i), "int": lambda i: i * 10**9, "float": lambda i: i / 3 + 2**60,
                "dict": lambda i: {"id": i, "t": str(i)}, "mixed": lambda i: [i, "s%d" % i, {"i": i}, i / 7][i % 4]}
        parts, want = [], []
        for j, (a, b) in enumerate(zip(cuts, cuts[1:])):
            r = idx["scorer" if c.get("scorer") else c["backend"]]
            corpus = [make[case["docs"][j % len(case["docs"])]](i) for i in range(n)]
            ids = run_config(c, case, idx, qs[a:b], k)[0]
            res = r.retrieve(as_form(c["form"], qs[a:b], r), k=k, corpus=corpus, sorted=c["sorted"], show_progress=False, n_threads=c.get("threads", 0),
                             backend_selection=c["selection"])
            expect(np.shape(res.documents) == ids.shape, "documents of shape %s", np.shape(res.documents))
            parts.append(res)
            want += [[x for x in row] for row in np.asarray(res.documents)]
            for row, irow in zip(np.asarray(res.documents), ids):
                expect(all(same(x, corpus[int(i)]) for x, i in zip(row, irow)), "documents %r are not those of %s", row.tolist(), irow.tolist())
        m = bm25s.Results.merge(parts)
        expect(len(m) == len(qs) and np.shape(m.documents) == (len(qs), k), "merged documents have shape %s", np.shape(m.documents))
        for i, row in enumerate(np.asarray(m.documents)):
            expect(all(same(x, y) for x, y in zip(row, want[i])), "merged documents %r instead of %r (parts: %s)", list(row), want[i], case["docs"])

    def run(self, case, ctx):
        docs = gen.expand(case["corpus"])
        p, k, n = case["params"], case["k"], len(docs)
        qs = [list(q) for q in case["queries"]] * case["repeat"]
        random.Random(case["order"]).shuffle(qs)
        idx = make_indexes(case, docs, case["cfgs"])
        model = ref.Index(docs, **p)
        for c in case["cfgs"]:
            D, S = run_config(c, case, idx, qs, k)
            single, seen = {}, {}
            for i, q in enumerate(qs):
                key = tuple(q)
                want, t = model.scores(q, p["dtype"])
                t = jax_slack(2 * t, want, p, c["selection"])
                if key not in single:
                    d1, s1 = run_config(dict(c, threads=0), case, idx, [q], k)
                    single[key] = (d1[0], s1[0])
                    seen[key] = i
                else:
                    j = seen[key]
                    expect(np.array_equal(S[i], S[j]) and np.array_equal(D[i], D[j]), "rows %d and %d of the same query %r differ", i, j, q[:20])
                d1, s1 = single[key]
                what = "row %d, query %r, batch of %d under %s" % (i, q[:20], len(qs), c)
                sut.close(np.sort(S[i]), np.sort(s1), 2 * np.max(t), what + " vs. alone")
                ref.check_topk(S[i], D[i], want, k, c["sorted"], t, what)
            cuts = sorted({x for x in case["splits"] if x < len(qs)})
            if cuts:
                parts = []
                for a, b in zip([0] + cuts, cuts + [len(qs)]):
                    d, s = run_config(c, case, idx, qs[a:b], k)
                    parts.append(bm25s.Results(documents=d, scores=s))
                m = bm25s.Results.merge(parts)
                expect(len(m) == len(qs) and np.shape(m.documents) == D.shape and np.shape(m.scores) == S.shape,
                       "merged shapes %s %s", np.shape(m.documents), np.shape(m.scores))
                self.merge_documents(case, c, idx, qs, k, n, [0] + cuts + [len(qs)])
                for i, q in enumerate(qs):
                    want, t = model.scores(q, p["dtype"])
                    t = jax_slack(2 * t, want, p, c["selection"])
                    sut.close(np.sort(np.asarray(m.scores)[i]), np.sort(S[i]), 2 * np.max(t), "merged row %d of %r under %s" % (i, q[:20], c))
                    ref.check_topk(m.scores[i], m.documents[i], want, k, c["sorted"], t, "merged row %d, query %r" % (i, q[:20]))


INT_TYPES = ["uint8", "int8", "uint32", "int32", "uint64", "int64"]


@register
class C23(Prop):
    pid = "C23"
    rule = ("arrays drawn element-wise (few distinct values, negatives, extremes) or from a seeded family (ties, constant, sorted, "
            "organ pipe, up to 200000 elements) x dtype x k x sorted x backend x memory layout; non-trivial: at least two elements")
    examples = dict(quick=3000, thorough=100000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            dt = prof["dtype"] if prof["shard"] < 3 else draw(st.sampled_from(["float32", "float64"]))
            backend = draw(st.sampled_from(["numpy", "numpy", "numba", "numba", "auto", "jax"]))
            if backend == "numba":
                dt = prof["dtype"]
            if draw(st.integers(0, 3)):
                lim = 2.0 ** 100
                el = st.one_of(st.integers(-3, 3).map(float), st.sampled_from([0.0, -0.0, 1.5, -1.5, 1e30, -1e30, 1e-30]),
                               st.floats(-lim, lim, allow_subnormal=False, width=32).filter(lambda x: x == 0 or abs(x) > 1e-30))
                if backend in ("jax", "auto"):
                    n = draw(st.sampled_from([1, 2, 3, 5, 9]))
                    arr = draw(st.lists(el, min_size=n, max_size=n))
                else:
                    arr = draw(st.lists(el, min_size=1, max_size=40))
                n = len(arr)
                spec = dict(values=arr)
            else:
                n = draw(st.sampled_from([7, 100, 1000])) if backend in ("jax", "auto") else draw(st.integers(1, 3000))
                spec = dict(seed=draw(st.integers(0, 10**6)), n=n,
                            kind=draw(st.sampled_from(["uniform", "ties", "constant", "ascending", "descending", "organ", "mostlyzero", "negative", "nearties", "tiny",
                                                       "fewnegative", "fewpositive"])))
            k = draw(st.sampled_from(sorted({1, min(2, n), n}))) if backend in ("jax", "auto") else gen.pick_k(draw, n)
            if backend == "numpy" and draw(st.integers(0, 3)) == 0:
                dt = draw(st.sampled_from(INT_TYPES))
            return dict(arr=spec, dtype=dt, k=k, sorted=draw(st.booleans()), backend=backend,
                        layout=draw(st.sampled_from(["plain"] * 8 + ["strided", "readonly"])))
        return f()

    def fixed(self, ctx):
        kinds = ["uniform", "ties", "constant", "ascending", "descending", "organ", "mostlyzero", "negative", "nearties", "tiny", "fewnegative", "fewpositive"]
        # whole numbers of every type (jax knows no 64-bit ones)
        for i, dt in enumerate(INT_TYPES):
            for j, kind in enumerate(["ties", "mostlyzero", "uniform", "ascending"]):
                for backend in ("numpy", "auto") + (() if "64" in dt else ("jax",)):
                    for k in (1, 3, 9):
                        yield dict(arr=dict(seed=i + j, n=9, kind=kind), dtype=dt, k=k, sorted=k != 3, backend=backend, layout="plain")
        for i, dt in enumerate(INT_TYPES * 3):  # (one type in each shard, which has its own compiled functions)
            if i % len(INT_TYPES) == ctx.prof["shard"]:
                yield dict(arr=dict(seed=i, n=30, kind="ties"), dtype=dt, k=[1, 7, 30][i // len(INT_TYPES)], sorted=True, backend="numba", layout="plain")
        for i, kind in enumerate(kinds * 2):
            for j, backend in enumerate(["numpy", "numba", "auto"]):
                for n, k in ((200000, [1, 1001, 70000][(i + j) % 3]), (5000, [4096, 4999, 5000][j]), ([70000, 140000][i % 2], [10, 64, 300, 2][(i + j) % 4])):
                    yield dict(arr=dict(seed=i, n=n, kind=kind), dtype=["float32", "float64"][(i // 8 + j) % 2], k=k,
                               sorted=bool((i + j) % 2), backend=backend, layout="plain")

    def labels(self, case):
        a = case["arr"]
        return ["backend " + case["backend"], case["dtype"], "layout " + case["layout"], "sorted" if case["sorted"] else "unsorted",
                a.get("kind", "drawn values")]

    def nontrivial(self, case):
        a = case["arr"]
        return (a["n"] if "n" in a else len(a["values"])) >= 2

    def array(self, case):
        a = case["arr"]
        if "values" in a and case["dtype"] in INT_TYPES:
            x = np.array([v % 7 for v in a["values"]]).astype(case["dtype"])
        elif "values" in a:
            x = np.array(a["values"], dtype=case["dtype"])
        else:
            g = np.random.default_rng(a["seed"])
            n = a["n"]
            x = {"uniform": lambda: g.normal(size=n), "ties": lambda: g.integers(0, 4, n), "constant": lambda: np.full(n, 2.5),
                 "ascending": lambda: np.arange(n) / 3, "descending": lambda: -np.arange(n) / 3,
                 "organ": lambda: np.minimum(np.arange(n), n - np.arange(n)), "mostlyzero": lambda: (g.random(n) < 0.02) * g.random(n),
                 "fewnegative": lambda: (g.random(n) < 0.03) * -g.random(n), "fewpositive": lambda: (g.random(n) < 0.1) * (g.random(n) - 0.3),
                 "negative": lambda: -g.random(n) - 1, "nearties": lambda: 1 + g.permutation(n) * 1e-9,
                 "tiny": lambda: g.normal(size=n) * 1e-9}[a["kind"]]()
            if case["dtype"] in INT_TYPES:
                x = np.abs(x * 9).clip(0, 100) if case["dtype"].startswith("u") else (x * 9).clip(-100, 100)
            x = x.astype(case["dtype"])
        if case["layout"] == "strided":
            y = np.full(2 * len(x), 9e9, dtype=x.dtype)
            y[::2] = x
            x = y[::2]
        elif case["layout"] == "readonly":
            x.flags.writeable = False
        return x

    def run(self, case, ctx):
        from bm25s import selection
        from bm25s.numba import selection as nsel

        x = self.array(case)
        keep = x.copy()
        b, k = case["backend"], case["k"]
        if b == "numba":
            s, i = nsel.topk(x, k=k, backend="numba", sorted=case["sorted"])
        else:
            s, i = selection.topk(x, k=k, backend=b, sorted=case["sorted"])
        t = 0.0
        if b == "jax" and case["dtype"] == "float64":
            t = JAX_REL * np.abs(keep.astype(np.float64))
        ref.check_topk(s, i, keep, k, case["sorted"], t, "topk %s" % case)
        expect(np.array_equal(x, keep), "the input array was modified by %s", b)
