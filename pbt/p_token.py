"""C16 the tokenize function, C17 the Tokenizer class, C18 tokenizer persistence."""
import json
import os
import pathlib
import random
import re

import numpy as np
from hypothesis import strategies as st

import bm25s
from bm25s import stopwords as SW
from bm25s.tokenization import Tokenized, Tokenizer

from . import gen, sut
from .core import Prop, expect, fail, register
from .p_docs import same

# name -> the list it selects, and words that any such list contains
LANGS = {
    "english": ("STOPWORDS_EN", ["the", "and", "is", "of"]), "en": ("STOPWORDS_EN", ["the", "and"]),
    "english_plus": ("STOPWORDS_EN_PLUS", ["the", "and", "yourselves", "hadn"]), "en_plus": ("STOPWORDS_EN_PLUS", ["the", "and"]),
    "german": ("STOPWORDS_GERMAN", ["und", "nicht", "der"]), "de": ("STOPWORDS_GERMAN", ["und", "nicht"]),
    "dutch": ("STOPWORDS_DUTCH", ["het", "een", "niet"]), "nl": ("STOPWORDS_DUTCH", ["het", "een"]),
    "french": ("STOPWORDS_FRENCH", ["le", "les", "dans"]), "fr": ("STOPWORDS_FRENCH", ["les", "dans"]),
    "spanish": ("STOPWORDS_SPANISH", ["el", "los", "pero"]), "es": ("STOPWORDS_SPANISH", ["los", "pero"]),
    "portuguese": ("STOPWORDS_PORTUGUESE", ["os", "n\u00e3o", "uma"]), "pt": ("STOPWORDS_PORTUGUESE", ["n\u00e3o", "uma"]),
    "italian": ("STOPWORDS_ITALIAN", ["gli", "della", "che"]), "it": ("STOPWORDS_ITALIAN", ["gli", "della"]),
    "russian": ("STOPWORDS_RUSSIAN", ["\u043d\u0435", "\u0447\u0442\u043e", "\u043a\u0430\u043a"]),
    "ru": ("STOPWORDS_RUSSIAN", ["\u043d\u0435", "\u0447\u0442\u043e"]),
    "swedish": ("STOPWORDS_SWEDISH", ["och", "jag", "inte"]), "sv": ("STOPWORDS_SWEDISH", ["och", "inte"]),
    "norwegian": ("STOPWORDS_NORWEGIAN", ["og", "jeg", "ikke"]), "no": ("STOPWORDS_NORWEGIAN", ["og", "ikke"]),
    "chinese": ("STOPWORDS_CHINESE", ["\u7684", "\u6211"]), "zh": ("STOPWORDS_CHINESE", ["\u7684", "\u6211"]),
}
ALL_STOP = sorted({w for k, _ in LANGS.values() for w in getattr(SW, k)})


def stop_arg(spec):
    """What is passed for the stopwords."""
    if spec[0] == "list":
        return list(spec[1])
    if spec[0] == "tuple":
        return tuple(spec[1])
    if spec[0] == "set":
        return set(spec[1])
    return spec[1]


def stop_words(spec):
    """The stopwords it denotes."""
    if spec[0] in ("list", "tuple", "set"):
        return set(spec[1])
    if spec[1] is None or spec[1] is False:
        return set()
    if spec[1] is True:
        return set(SW.STOPWORDS_EN)
    return set(getattr(SW, LANGS[spec[1]][0])) | set(LANGS[spec[1]][1])


PATTERNS = [r"(?u)\b\w\w+\b", r"(?u)\b\w\w+\b", r"\S+", r"\w+", r"[a-z]+", r"(?i)[a-z]{3,}", r"\w*", r"(\w)\w+", r"[^|]+", r".", r"\d+|\w+"]
SPLITTERS = PATTERNS + ["call:split", "call:chars", "call:bar", "call:tuple"]


def splitter_arg(s):
    return {"call:split": str.split, "call:chars": list, "call:bar": lambda t: t.split("|"),
            "call:tuple": lambda t: tuple(t.split())}.get(s, s)


def split_fn(s):
    return splitter_arg(s) if s.startswith("call:") else (lambda t: [m if isinstance(m, str) else m for m in re.compile(s).findall(t)])


_snow = {}


def snow(lang):
    if lang not in _snow:
        import Stemmer
        _snow[lang] = Stemmer.Stemmer(lang)
    return _snow[lang]


def word_fn(name):
    """word -> stem; the empty word is its own stem."""
    if name is None:
        return lambda w: w
    if name.startswith("snow:"):
        return snow(name[5:]).stemWord
    return {
        "prefix3": lambda w: w[:3], "const": lambda w: "x" if w else "", "reverse": lambda w: w[::-1],
        "first": lambda w: w[:1], "dropx": lambda w: w.replace("x", "").replace("a", ""), "upper": lambda w: w.upper(),
        "same": lambda w: w, "longer": lambda w: w and "<%s>%s" % (w, w[:2]), "stop": lambda w: "the" if w.startswith("t") else w,
    }[name]


STEMMERS = [None, None, None, "snow:english", "snow:english", "snow:german", "snow:russian", "prefix3", "const", "reverse", "first", "dropx",
            "upper", "same", "stop", "longer", "longer"]


class ListStemmer:
    def __init__(self, name):
        self.f = word_fn(name)

    def stemWords(self, words):
        return [self.f(w) for w in words]

    def stemWord(self, w):
        return self.f(w)


def list_stemmer(name, kind):
    """A stemmer for tokenize()."""
    if name is None:
        return None
    if name.startswith("snow:") and kind == "object":
        return snow(name[5:])
    if kind == "object":
        return ListStemmer(name)
    f = word_fn(name)
    return lambda lst: list(map(f, lst))


def word_stemmer(name, kind):
    """A stemmer for Tokenizer."""
    if name is None:
        return None
    if name.startswith("snow:") and kind == "object":
        return snow(name[5:])
    if kind == "object":
        return ListStemmer(name)
    return word_fn(name)


# long words that differ in their last letter only
LONG = [c * n + e for n in (64, 128, 255, 256, 1000, 1100, 5000) for c in ("q",) for e in ("a", "b", "")]


piece = st.one_of(
    st.sampled_from(["cat", "cats", "Cats", "CAT", "run", "running", "runs", "the", "The", "a", "is", "dog", "dogs", "xa", "ax", "x", "tiger"]),
    st.sampled_from(["cat", "dog", "bird", "running", "the", "fish", "und", "ikke", "les"]),
    st.sampled_from(gen.WORDS + gen.ODD), st.sampled_from(gen.WORDS + gen.ODD + LONG),
    st.sampled_from(ALL_STOP), st.sampled_from(ALL_STOP).map(str.upper),
    st.text(gen.text_char, max_size=5), st.text("abAB\u00e9\u00c9 |", max_size=6))
sep = st.sampled_from([" ", " ", " ", "  ", "\n", ", ", "-", "_", "|", "", ". ", "\t", "'"])


@st.composite
def text_(draw, max_pieces=7):
    n = draw(st.integers(0, max_pieces))
    out = ""
    for _ in range(n):
        out += draw(piece) + draw(sep)
    return out


@st.composite
def stop_spec(draw, sets=True):
    kind = draw(st.integers(0, 9))
    if kind < 4:
        return ["named", draw(st.sampled_from(sorted(LANGS)))]
    if kind < 7:
        return ["named", draw(st.sampled_from([None, False, True]))]
    ws = draw(st.lists(st.one_of(st.sampled_from(["cat", "the", "Cats", "x", "run", "dog", "the", "\u00e9t\u00e9", "", " the "]),
                                 st.text(gen.text_char, min_size=1, max_size=4)), max_size=5))
    return [draw(st.sampled_from(["list", "tuple"] + (["set"] if sets else []))), ws]


@register
class C16(Prop):
    pid = "C16"
    rule = ("texts (any Unicode, stopwords of all languages in any case, words sharing stems) x lower x pattern x stopwords (every named list, none, "
            "custom list / tuple / set) x stemmer (PyStemmer, object, callable) x ids or strings; non-trivial: at least two tokens kept and one "
            "option different from the defaults or a stopword dropped")
    examples = dict(quick=8000, thorough=150000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        return st.fixed_dictionaries(dict(
            texts=st.lists(text_(), min_size=1, max_size=5), lower=st.sampled_from([True, True, False]),
            pattern=st.sampled_from(PATTERNS), stop=stop_spec(), stemmer=st.sampled_from(STEMMERS),
            kind=st.sampled_from(["object", "call"]), allow=st.sampled_from([True, True, True, False]),
            container=st.sampled_from(["list", "list", "tuple", "generator", "str", "array"]), rep=st.sampled_from([1] * 30 + [40, 3000])))

    def fixed(self, ctx):
        base = dict(texts=["a cat is a feline"], lower=True, pattern=PATTERNS[0], stop=["named", "english"], stemmer=None, kind="object",
                    allow=True, container="list")
        out = [dict(base, texts=t, container=c) for t in (["Hello World hello", "the a", "x"], ["cat"], [""], ["", "cat"])
               for c in ("list", "str", "tuple", "generator")]
        for name in sorted(LANGS):
            own = list(getattr(SW, LANGS[name][0]))
            # every word of every list (so the words of the other lists are kept)
            for pat in (r"[^|]+",):
                for low in (True, False):
                    out.append(dict(base, stop=["named", name], pattern=pat, lower=low, texts=["|".join(own), "|".join(ALL_STOP), "zzz|qqq"]))
            out.append(dict(base, stop=["named", name], texts=[" ".join(own), " ".join(LANGS[name][1] + ["zzz"])]))
        for s in (None, True, False):
            out.append(dict(base, stop=["named", s], pattern=r"[^|]+", texts=["|".join(ALL_STOP), "the|cat"]))
        g = random.Random(5)
        many = [" ".join("w%dx%s" % (g.randrange(3000), g.choice(["s", "ing", "", "ed"])) for _ in range(200)) for _ in range(60)]
        for s in sorted({x for x in STEMMERS if x}) + [None]:
            for kind in ("object", "call"):
                out.append(dict(base, texts=many, stemmer=s, kind=kind))
                out.append(dict(base, texts=["Running runs RUN cats cat the tigers", "table tables runner"], stemmer=s, kind=kind, lower=False))
        for rep in (100, 3000, 40000):
            for s in (["named", "english"], ["list", ["cat", "dogs"]]):
                for stem in (None, "snow:english"):
                    out.append(dict(base, texts=["the cat and running dogs "] * 2 + ["", "dogs"], stop=s, stemmer=stem, rep=rep))
        for stem in (None, "reverse", "same", "snow:english"):
            for pat in (PATTERNS[0], r"\S+"):
                out.append(dict(base, pattern=pat, stemmer=stem, texts=[" ".join(LONG), " ".join("%s%d" % ("ab" * 2 ** j, j) for j in range(17)), "qa"]))
        for p in PATTERNS:
            out.append(dict(base, texts=["The \u00c9t\u00e9 \u0130stanbul x-ray 12 a1 \u65e5\u672c\u8a9e", "e\u0301a \u00df\u00df \u1e9e \u03a3\u03a3 \u01c5"],
                            pattern=p, stop=["named", None]))
        return out

    def run(self, case, ctx):
        low, pat, stop = case["lower"], case["pattern"], stop_words(case["stop"])
        texts = case["texts"][:1] if case["container"] == "str" else list(case["texts"])
        if case.get("rep", 1) > 1:
            texts[0] = texts[0] * min(case["rep"], 2000000 // (len(texts[0]) + 1))
        stem = word_fn(case["stemmer"])
        want, nomatch = [], []
        for t in texts:
            m = re.findall(pat, t.lower() if low else t)
            nomatch.append(not m)
            want.append([stem(w) for w in m if w not in stop])

        def arg():
            c = case["container"]
            if c == "str":
                return texts[0]
            return {"list": list, "tuple": tuple, "generator": iter, "array": lambda x: np.array(x, dtype=object)}[c](texts)

        keep_stop = stop_arg(case["stop"])
        kw = dict(lower=low, token_pattern=pat, stopwords=keep_stop, stemmer=list_stemmer(case["stemmer"], case["kind"]), show_progress=False,
                  allow_empty=case["allow"])
        res = bm25s.tokenize(arg(), **kw)
        expect(hasattr(res, "ids") and hasattr(res, "vocab"), "no ids and vocabulary returned: %r", type(res))
        ids, vocab = res
        expect(len(ids) == len(texts), "%d documents for %d texts", len(ids), len(texts))
        rev = {}
        for t, i in vocab.items():
            expect(isinstance(t, str) and isinstance(i, (int, np.integer)) and i not in rev, "bad vocabulary entry %r: %r", t, i)
            rev[i] = t
        try:
            got = [[rev[i] for i in d] for d in ids]
        except KeyError as e:
            fail("id %s is not in the vocabulary", e)
        expect(sorted(rev) == list(range(len(vocab))), "ids of the vocabulary are not 0..%d: %s", len(vocab) - 1, sorted(rev)[:30])
        used = {t for d in got for t in d}
        expect(set(vocab) == used, "vocabulary and tokens differ by %r", sorted(set(vocab) ^ used)[:10])
        strs = bm25s.tokenize(arg(), return_ids=False, **kw)
        expect(same([list(d) for d in strs], got), "strings %.500r are not the decoded ids %.500r", strs, got)
        for g, w, no, t in zip(got, want, nomatch, texts):
            if not no:
                expect(g == w, "tokens of %.200r: %.300r instead of %.300r", t, g, w)
        empties = [g for g, no in zip(got, nomatch) if no]
        if empties:
            e = [""] if case["allow"] else []
            inverse = [] if case["allow"] else ([""] if "" not in stop else [])
            if all(g == e for g in empties):
                pass
            elif all(g == inverse for g in empties):
                ctx.known("C16", "allow-empty-inverted",
                          "tokenize(): a text without any match gives [] with allow_empty=True and [''] with allow_empty=False, the "
                          "reverse of the documentation")
            else:
                fail("texts without a match give %r (allow_empty=%r)", empties, case["allow"])
        if isinstance(keep_stop, (list, set)):
            expect(keep_stop == stop_arg(case["stop"]), "the caller's stopwords were modified")

    def labels(self, case):
        return ["stop %s" % (case["stop"][1] if case["stop"][0] == "named" else case["stop"][0]), "stemmer %s" % case["stemmer"],
                "lower" if case["lower"] else "case kept", "container " + case["container"]]

    def nontrivial(self, case):
        stop = stop_words(case["stop"])
        m = [w for t in case["texts"] for w in re.findall(case["pattern"], t.lower() if case["lower"] else t)]
        kept = [w for w in m if w not in stop]
        default = case["stemmer"] is None and case["lower"] and case["stop"][1] in ("english", "en", True)
        return len(kept) >= 2 and (len(kept) < len(m) or not default)


# ---------------------------------------------------------------- C17

class Model:
    """What Tokenizer promises, without ids."""

    def __init__(self, spec):
        self.split, self.lower = split_fn(spec["splitter"]), spec["lower"]
        self.stop, self.stem, self.stems = stop_words(spec["stop"]), word_fn(spec["stemmer"]), spec["stemmer"] is not None
        self.reset()

    def reset(self):
        self.words, self.tokens = set(), set()

    def stream(self, texts, update, allow):
        """Yields (tokens of the document); knows of new tokens only as far as texts were consumed."""
        if update is True and allow:
            self.words.add("")
            self.tokens.add("")
        for t in texts:
            ws = list(self.split(t.lower() if self.lower else t))
            if allow and not ws:
                ws = [""]
            out = []
            for w in ws:
                tok = "" if w == "" else self.stem(w)
                if w in self.words:
                    out.append(tok)
                elif w in self.stop:
                    continue
                elif update is True or (update != "never" and self.stems and tok in self.tokens):
                    self.words.add(w)
                    self.tokens.add(tok)
                    out.append(tok)
            if not out and allow and "" in self.words:
                out = [""]
            yield out

    def resolve(self, update):
        return (not self.words) if update == "if_empty" else update


def make_tokenizer(spec, mod=bm25s, stop=None):
    return mod.tokenization.Tokenizer(lower=spec["lower"], splitter=splitter_arg(spec["splitter"]),
                                      stopwords=stop_arg(spec["stop"]) if stop is None else stop,
                                      stemmer=word_stemmer(spec["stemmer"], spec["kind"]))


class Checked:
    """A Tokenizer under observation."""

    def __init__(self, spec, tok=None, model=None, known=None):
        self.spec = spec
        self.tok = tok if tok is not None else make_tokenizer(spec)
        self.model = model if model is not None else Model(spec)
        self.ids = dict(known or {})  # token -> id ever since the last reset

    def sync(self, what):
        vocab = self.tok.get_vocab_dict()
        for t, i in self.ids.items():
            expect(t in vocab and vocab[t] == i, "%s: token %r had id %r, now %r", what, t, i, vocab.get(t))
        new = {t: i for t, i in vocab.items() if t not in self.ids}
        expect(set(vocab) == self.model.tokens, "%s: vocabulary lacks %r, has %r in excess", what,
               sorted(self.model.tokens - set(vocab))[:10], sorted(set(vocab) - self.model.tokens)[:10])
        seen = set(self.ids.values())
        for t, i in new.items():
            expect(isinstance(i, int) and not isinstance(i, bool) and i >= 0 and i not in seen, "%s: new token %r gets id %r, which is taken or invalid",
                   what, t, i)
            seen.add(i)
        self.ids = dict(vocab)

    def decode(self, ids, what):
        rev = {i: t for t, i in self.ids.items()}
        try:
            return [[rev[i] for i in d] for d in ids]
        except KeyError as e:
            fail("%s: unknown id %s", what, e)

    def check(self, got, want, fmt, what):
        """got: returned in format fmt; want: token lists."""
        self.sync(what)
        if fmt == "tuple":
            expect(hasattr(got, "ids") and hasattr(got, "vocab"), "%s: not a tokenized object: %r", what, type(got))
            expect(dict(got.vocab) == self.ids, "%s: vocabulary of the tuple", what)
            got = got.ids
        if fmt == "string":
            expect(same([list(d) for d in got], want), "%s: strings %r instead of %r", what, got, want)
            return
        got = [list(d) for d in got]
        dec = self.decode(got, what)
        expect(dec == want, "%s: tokens %r instead of %r", what, dec, want)
        back = self.tok.decode(got)
        expect(same([list(d) for d in back], want), "%s: decode() gives %r instead of %r", what, back, want)


def container_of(texts, kind):
    if kind == "generator":
        return iter(list(texts)), dict(length=len(texts))
    if kind.startswith("about"):  # the length, which only the progress bar shows, is a guess
        return iter(list(texts)), dict(length=max(0, len(texts) + int(kind[5:])))
    if kind == "tuple":
        return tuple(texts), {}
    return list(texts), {}


token_spec = st.fixed_dictionaries(dict(lower=st.sampled_from([True, True, False]), splitter=st.sampled_from(SPLITTERS), stop=stop_spec(),
                                        stemmer=st.sampled_from(STEMMERS), kind=st.sampled_from(["object", "call"])))
UPDATES = ["if_empty", "if_empty", True, True, False, False, "never"]
call_op = st.tuples(st.just("call"), st.lists(text_(5), max_size=4), st.sampled_from(UPDATES), st.sampled_from([True, True, True, False]),
                    st.sampled_from(["ids", "ids", "tuple", "string"]), st.sampled_from(["list", "list", "list", "tuple", "tuple", "generator", "generator", "about+3", "about-1"]))
small = st.lists(st.sampled_from(["cat", "cats", "xax", "a", "the", "", "cat dog", "running run", "dogs|cats", "a x", "tiger table"]), max_size=3)
small_op = st.tuples(st.just("call"), small, st.sampled_from(UPDATES), st.booleans(), st.sampled_from(["ids", "tuple", "string"]), st.just("list"))
stream_op = st.tuples(st.just("stream"), st.one_of(small, st.lists(text_(4), max_size=4)), st.sampled_from([True, False, "never", "if_empty"]),
                      st.booleans(), st.sampled_from(["tokenize", "direct"]))
next_op = st.tuples(st.just("next"), st.integers(0, 2), st.integers(1, 3))
reset_op = st.tuples(st.just("reset"))
ops_strategy = st.lists(st.one_of(call_op, call_op, small_op, small_op, small_op, stream_op, next_op, next_op, reset_op).map(list),
                        min_size=1, max_size=9)


class Runner:
    """Applies operations to one or more checked tokenizers."""

    def __init__(self, targets):
        self.targets = targets
        self.streams = []

    def apply(self, op, step):
        what = "step %d %s" % (step, op[0])
        returned = []
        if op[0] == "call":
            _, texts, update, allow, fmt, cont = op
            for c in self.targets:
                want = list(c.model.stream(texts, c.model.resolve(update), allow))
                arg, kw = container_of(texts, cont)
                got = c.tok.tokenize(arg, update_vocab=update, return_as=fmt, allow_empty=allow, show_progress=False, **kw)
                c.check(got, want, fmt, "%s (update %r, allow_empty %r, %s)" % (what, update, allow, fmt))
                if fmt == "ids":
                    returned.append([list(d) for d in got])
                    if got and got[0]:
                        got[0].append(10**6)  # the caller's business
                        got[0][0] = -7
        elif op[0] == "stream":
            _, texts, update, allow, via = op
            pair = []
            for c in self.targets:
                if via == "direct":
                    update = True if update == "if_empty" else update
                    g = c.tok.streaming_tokenize(list(texts), update_vocab=update, allow_empty=allow)
                    m = c.model.stream(texts, update, allow)
                else:
                    u = c.model.resolve(update)
                    g = c.tok.tokenize(list(texts), update_vocab=update, return_as="stream", allow_empty=allow, show_progress=False)
                    m = c.model.stream(texts, u, allow)
                pair.append((c, g, m))
            self.streams.append(pair)
        elif op[0] == "next":
            if not self.streams:
                return
            pair = self.streams[op[1] % len(self.streams)]
            for _ in range(op[2]):
                res = []
                for c, g, m in pair:
                    want, got = next(m, None), next(g, None)
                    expect((want is None) == (got is None), "%s: the stream has %s documents", what, "more" if want is None else "fewer")
                    if want is not None:
                        c.check([got], [want], "ids", what + " of a stream")
                        res.append([list(got)])
                expect(all(x == res[0] for x in res), "%s: streams of tokenizers that should be alike yield %r", what, res)
                if not res:
                    break
        elif op[0] == "reset":
            # (an open stream would go on with the vocabulary it started with)
            self.streams = []
            for c in list(self.targets):
                c.tok.reset_vocab()
                c.model.reset()
                c.ids = {}
                c.sync(what)
            return "reset"
        if len(returned) > 1:
            expect(all(r == returned[0] for r in returned), "%s: tokenizers that should be alike return %r", what, returned)

    def finish(self):
        for pair in self.streams:
            for c, g, m in pair:
                for want in m:
                    got = next(g, None)
                    expect(got is not None, "a stream ends early")
                    c.check([got], [want], "ids", "rest of a stream")
                expect(next(g, None) is None, "a stream goes on too long")


def saved_vocab(tok, ctx):
    d = ctx.tmp()
    tok.save_vocab(d)
    out = {}
    for name in os.listdir(d):
        with open(os.path.join(d, name), encoding="utf-8") as f:
            out[name] = json.load(f)
    return out


@register
class C17(Prop):
    pid = "C17"
    rule = ("tokenizer (splitter, lower, stopwords, stemmer) x history of tokenize calls (every update mode, empty-token option and format), open "
            "streams advanced between other calls, and resets (compared with a new tokenizer from then on) against a model of the vocabulary; "
            "non-trivial: at least two calls or streams with text, with different update modes or a stemmer")
    examples = dict(quick=6000, thorough=80000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        return st.fixed_dictionaries(dict(spec=token_spec, ops=ops_strategy))

    def fixed(self, ctx):
        spec = dict(lower=True, splitter=PATTERNS[0], stop=["named", "english"], stemmer=None, kind="call")
        out = []
        g = random.Random(3)

        def texts(n, m, lo=0):
            return [" ".join("w%d%s" % (lo + int(400 * g.random() ** 2), g.choice(["", "s", "ing"])) for _ in range(m)) for _ in range(n)]

        for stem in (None, "snow:english", "prefix3", "dropx"):
            for up in (True, False, "never", "if_empty"):
                out.append(dict(spec=dict(spec, stemmer=stem), ops=[
                    ["call", texts(100, 30), "if_empty", True, "ids", "list"], ["call", texts(50, 30, 100), up, True, "tuple", "list"],
                    ["call", texts(50, 30, 200), up, False, "string", "list"], ["call", texts(20, 30), "never", True, "ids", "generator"],
                    ["reset"], ["call", texts(30, 10), up, True, "ids", "list"], ["call", texts(30, 10), True, True, "ids", "list"]]))
        # many texts in every mode and format, after few
        for stem in (None, "snow:english", "longer"):
            for up in (True, False, "never", "if_empty"):
                for fmt in ("ids", "tuple", "string"):
                    for al in (True, False):
                        out.append(dict(spec=dict(spec, stemmer=stem), ops=[
                            ["call", texts(3, 8), True, al, fmt, "list"], ["call", texts(140, 4, 200), up, al, fmt, "list"], ["call", texts(300, 2, 300), up, al, fmt, "list"]]))
        for stem in (None, "prefix3"):
            for n in (12000, 70000, 140000):
                for fmt in ("ids", "tuple", "string"):
                    t = [" ".join("w%d" % (j if j > n - 500 else j * j % 4001) for j in range(n)), "w1", " ".join("v%d" % (j * 7 % 900) for j in range(n // 10))]
                    out.append(dict(spec=dict(spec, stemmer=stem), ops=[["call", t, True, True, fmt, "list"], ["call", t[::-1], False, True, fmt, "list"]]))
        for stem in (None, "reverse", "same", "snow:english"):
            for sp in (PATTERNS[0], "call:split"):
                t = [" ".join(LONG), " ".join("%s%d" % ("ab" * 2 ** j, j) for j in range(17)), "qa"]
                out.append(dict(spec=dict(spec, stemmer=stem, splitter=sp), ops=[
                    ["call", t, True, True, "string", "list"], ["call", t[::-1], False, True, "tuple", "list"], ["call", [x.upper() for x in t], "never", True, "ids", "list"]]))
        modes = [True, False, "never", "if_empty"]
        for stem in (None, "const", "dropx", "snow:english"):
            for a in modes:
                for b in modes:
                    for al in (True, False):
                        # words, then others with the same stem, the empty text, then all of them again
                        out.append(dict(spec=dict(spec, stemmer=stem, stop=["named", None], splitter=r"\w+"), ops=[
                            ["call", ["xa running", ""], a, al, "ids", "list"], ["call", ["", "ax runs", "zzz", "x"], b, True, "ids", "list"],
                            ["call", ["", "ax runs", "zzz", "x"], b, False, "ids", "list"],
                            ["call", ["zzz ax runs run x a", ""], a, al, "string", "list"], ["call", ["runs", "", "q"], True, al, "tuple", "list"],
                            ["call", ["runs", "", "q r"], "never", al, "tuple", "list"]]))
        for name in sorted(LANGS):
            out.append(dict(spec=dict(spec, stop=["named", name], splitter=r"[^|]+"), ops=[
                ["call", ["|".join(getattr(SW, LANGS[name][0])), "|".join(ALL_STOP), "|".join(LANGS[name][1])], True, True, "string", "list"]]))
        for sp in SPLITTERS:
            out.append(dict(spec=dict(spec, splitter=sp, stop=["named", None]), ops=[
                ["call", ["The \u00c9t\u00e9 \u0130stanbul|x-ray 12", "", " "], True, True, "ids", "list"],
                ["call", ["the \u00e9t\u00e9|new", ""], False, True, "string", "list"], ["reset"],
                ["call", ["", "b a"], True, False, "tuple", "list"], ["call", ["", "b a"], "if_empty", True, "tuple", "list"]]))
        return out

    def run(self, case, ctx):
        r = Runner([Checked(case["spec"])])
        for i, op in enumerate(case["ops"]):
            if r.apply(op, i) == "reset":
                # from now on like a new tokenizer
                r.targets = [r.targets[0], Checked(case["spec"])]
                expect(saved_vocab(r.targets[0].tok, ctx) == saved_vocab(r.targets[1].tok, ctx), "after a reset, more is saved than by a new tokenizer")
        r.finish()

    def labels(self, case):
        return ["stemmer %s" % case["spec"]["stemmer"], "splitter %s" % case["spec"]["splitter"]] + sorted(
            {"%s %s" % (o[0], o[2] if o[0] in ("call", "stream") else "") for o in case["ops"]})

    def nontrivial(self, case):
        calls = [o for o in case["ops"] if o[0] in ("call", "stream") and any(o[1])]
        return len(calls) >= 2 and (len({json.dumps(o[2]) for o in calls}) > 1 or case["spec"]["stemmer"] is not None)


# ---------------------------------------------------------------- C18

VOCAB_NAMES = [None, None, "v.json", "vocab", "w\u00f6rter.json"]


@register
class C18(Prop):
    pid = "C18"
    rule = ("tokenizer x history before saving x JSON implementation on each side x file names x directory (own, nested, of a saved index) x further "
            "history on both tokenizers in lockstep (also after saving again over the old files); non-trivial: the saved vocabulary has at least "
            "two tokens or the stopwords are not empty, and there is a later call")
    examples = dict(quick=3200, thorough=60000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        return st.fixed_dictionaries(dict(
            spec=st.fixed_dictionaries(dict(lower=st.sampled_from([True, True, False]), splitter=st.sampled_from(SPLITTERS),
                                            stop=stop_spec(sets=False), stemmer=st.sampled_from(STEMMERS),
                                            kind=st.sampled_from(["object", "call"]))),
            before=st.lists(st.one_of(call_op, small_op, reset_op).map(list), max_size=4),
            after=ops_strategy, names=st.sampled_from(VOCAB_NAMES), other=st.one_of(stop_spec(sets=False), st.just(["alike"])),
            save_impl=st.sampled_from(["default", "default", "builtin"]), load_impl=st.sampled_from(["default", "default", "builtin"]),
            index=st.sampled_from(["no", "no", "before", "after"]), twice=st.booleans(), used=st.booleans(), aspath=st.booleans()))

    def fixed(self, ctx):
        spec = dict(lower=True, splitter=r"[^|]+", stop=["named", "english"], stemmer=None, kind="call")
        base = dict(spec=spec, before=[], after=[["call", ["the|cat|dog", "", "zebra"], True, True, "ids", "list"]], names=None,
                    other=["named", None], save_impl="default", load_impl="default", index="no", twice=False, used=False, aspath=False)
        out = []
        allw = "|".join(gen.ODD + gen.WORDS)
        # three times over, since every third shard runs in a foreign locale
        for rep in range(2):
            for name in sorted(LANGS):
                for impl in (("default", "default"), ("builtin", "default"), ("default", "builtin"), ("builtin", "builtin")):
                    out.append(dict(base, spec=dict(spec, stop=["named", name]), save_impl=impl[0], load_impl=impl[1],
                                    before=[["call", [allw], True, True, "ids", "list"]],
                                    after=[["call", ["|".join(ALL_STOP), allw], True, True, "ids", "list"],
                                           ["call", ["|".join(ALL_STOP), allw, "new"], False, True, "ids", "list"]]))
        for lo in range(0, 0x3000, 0x400):
            for stem in (None, "upper", "reverse"):
                t = "|".join("%sa" % chr(j) for j in range(lo, lo + 0x400) if chr(j) != "|")
                out.append(dict(base, spec=dict(spec, stemmer=stem, lower=False, stop=["named", None]), before=[["call", [t], True, True, "ids", "list"]],
                                after=[["call", [t], False, True, "ids", "list"], ["call", [t + "|q"], True, True, "ids", "list"]], twice=True))
        for stem in (None, "reverse", "same"):
            t = ["|".join(LONG), "|".join("%s%d" % ("ab" * 2 ** j, j) for j in range(17)), "qa"]
            out.append(dict(base, spec=dict(spec, stemmer=stem, stop=["list", LONG[::2]]), before=[["call", t, True, True, "ids", "list"]],
                            after=[["call", t, False, True, "ids", "list"], ["call", t + ["new"], True, True, "string", "list"]]))
        # long lists of stopwords of every shape
        for n in (60, 250, 1200):
            ws = [["w%d", " w%d", "w%d ", "w%d\n", "W%d", "\u00e9%d", "", "w\u00a0%d"][i % 8] % (() if i % 8 == 6 else i // 9) for i in range(n)]
            for low in (True, False):
                for kind in ("list", "tuple"):
                    out.append(dict(base, spec=dict(spec, stop=[kind, ws], lower=low), save_impl=["default", "builtin"][low], before=[["call", ["w7|w7 | w7|x"], True, True, "ids", "list"]],
                                    after=[["call", ["|".join(ws), "w1|w2 | w3|W4|w5\n"], True, True, "string", "list"], ["call", ["|".join(ws)], False, False, "ids", "list"]]))
        for up in (True, False, "never", "if_empty"):
            for stem in (None, "const", "snow:english", "dropx", "longer"):
                for bup in (True, "never", "if_empty"):
                    for al in (True, False):
                        out.append(dict(base, spec=dict(spec, stemmer=stem), before=[["call", ["cats|running|xa", ""], bup, al, "ids", "list"],
                                                                                       ["call", ["run|ax"], False, al, "ids", "list"],
                                                                                       ["call", ["runner|xax"], "never", al, "ids", "list"]],
                                        after=[["call", ["runs|cat|x", "", "q"], up, al, "ids", "list"],
                                               ["call", ["runs|cats|x|runner|xax", "", "q"], "never", True, "string", "list"],
                                               ["call", ["runs|cats|x|new", "", "q"], True, al, "tuple", "list"]], index="before"))
        return out

    def run(self, case, ctx):
        S, L = sut.impl(case["save_impl"]), sut.impl(case["load_impl"])
        spec = case["spec"]
        a = Checked(spec, tok=make_tokenizer(spec, mod=S))
        r = Runner([a])
        d = os.path.join(ctx.tmp(), "tok", "x")
        arg = pathlib.Path(d) if case["aspath"] else d
        vkw = {} if case["names"] is None else dict(vocab_name=case["names"])
        skw = {} if case["names"] is None else dict(stopwords_name="stop." + case["names"])
        index = files = None

        def save_index():
            x = sut.build(dict(method="bm25l"), [["cat", "the"], ["\u00e9t\u00e9", "cat", "cat"], []])
            x.save(d, corpus=["one", "two", "three"])
            return x

        if case["index"] == "before":
            index = save_index()
            files = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
        if case["twice"]:
            # an earlier, longer save in the same place
            b = Checked(dict(spec, stop=["list", ["earlier %d \u00e9" % i for i in range(50)]]), tok=None)
            b.tok.tokenize(["|".join("earlier%d x%d" % (i, i) for i in range(300))], update_vocab=True, show_progress=False)
            b.tok.save_vocab(arg, **vkw)
            b.tok.save_stopwords(arg, **skw)
        for i, op in enumerate(case["before"]):
            r.apply(op, i)
        vocab = dict(a.tok.get_vocab_dict())
        stops = list(a.tok.stopwords)
        a.tok.save_vocab(arg, **vkw)
        a.tok.save_stopwords(arg, **skw)
        expect(dict(a.tok.get_vocab_dict()) == vocab and list(a.tok.stopwords) == stops, "saving changed the tokenizer")
        if case["index"] == "after":
            index = save_index()
        elif files is not None:
            for f, content in files.items():
                with open(os.path.join(d, f), "rb") as fh:
                    expect(fh.read() == content, "saving the tokenizer changed the index file %s", f)
        if index is not None:
            x = bm25s.BM25.load(d, load_corpus=True)
            expect(x.vocab_dict == index.vocab_dict and np.array_equal(x.get_scores(["cat"]), index.get_scores(["cat"]))
                   and len(x.corpus) == 3, "the index in the same directory loads differently")
        # "alike": as many other stopwords as were saved
        other = make_tokenizer(spec, mod=L, stop=["own%d" % i for i in range(len(stops))] if case["other"] == ["alike"] else stop_arg(case["other"]))
        if case["used"]:
            other.tokenize(["something|that was\nthere before"], update_vocab=True, show_progress=False)
        other.load_vocab(arg, **vkw)
        other.load_stopwords(arg, **skw)
        expect(dict(other.get_vocab_dict()) == vocab, "loaded vocabulary differs: %r", sorted(
            set(other.get_vocab_dict().items()) ^ set(vocab.items()))[:10])
        for name in ("word_to_stem", "stem_to_sid", "word_to_id"):
            expect(getattr(other, name, None) == getattr(a.tok, name, None), "loaded %s differs from that saved", name)
        expect(list(other.stopwords) == stops, "loaded stopwords differ: %r", sorted(set(other.stopwords) ^ set(stops))[:10])
        m = Model(spec)
        m.words, m.tokens = set(a.model.words), set(a.model.tokens)
        b = Checked(spec, tok=other, model=m, known=a.ids)
        r = Runner([a, b])
        for i, op in enumerate(case["after"]):
            r.apply(op, i)
        r.finish()
        expect(list(b.tok.stopwords) == stops, "stopwords changed later")

    def labels(self, case):
        return ["stop %s" % (case["spec"]["stop"][1] if case["spec"]["stop"][0] == "named" else case["spec"]["stop"][0]),
                "stemmer %s" % case["spec"]["stemmer"], "json %s->%s" % (case["save_impl"], case["load_impl"]), "index " + case["index"]]

    def nontrivial(self, case):
        return any(o[0] == "call" for o in case["after"]) and (
            any(o[0] == "call" and any(o[1]) and o[2] is not False for o in case["before"]) or bool(stop_words(case["spec"]["stop"])))
