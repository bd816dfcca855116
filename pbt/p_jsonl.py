"""C13: a memory-mapped jsonl corpus is the list of its lines."""
import json
import os
import pathlib
import random
import sys
import threading

import numpy as np
from hypothesis import strategies as st

import bm25s

from . import gen, sut
from .core import Prop, expect, fail, register
from .p_docs import jsonv, same, text

FILES = ["corpus.jsonl", "corpus.jsonl", "docs", "a.b.jsonl", "\u043a\u043e\u0440\u043f\u0443\u0441.jsonl", "two words.txt"]

ENCODINGS = ["latin-1", "cp1252", "koi8-r", "ascii"]

long_text = st.tuples(st.sampled_from(["x", "\u00e9", "\u65e5", "\U0001f600", "ab\u00e9"]),
                      st.sampled_from([1, 30, 500, 2700, 4090, 8180, 8190, 9000])).map(lambda t: ["rep", t[0], t[1]])
value = st.one_of(text.map(lambda v: ["v", v]), jsonv.map(lambda v: ["v", v]),
                  st.dictionaries(text, jsonv, max_size=3).map(lambda v: ["v", v]), long_text,
                  st.integers(-2**63, 2**63 - 1).map(lambda v: ["v", v]), st.integers(2**63 - 1, 2**64 - 1).map(lambda v: ["v", v]),
                  st.integers(-1, 1).map(lambda v: ["v", v]), st.booleans().map(lambda v: ["v", v]))


def val(v):
    return {"t": v[1] * v[2]} if v[0] == "rep" else v[1]


def write(case, path):
    """The file's bytes and the list of values."""
    vals = [val(v) for v in case["values"]]
    eols = case["eol"]
    out = []
    for i, v in enumerate(vals):
        s = json.dumps(v, ensure_ascii=case["ascii"])
        if case["pad"]:
            s = [s, " " + s, s + "  ", "\t" + s + " "][i % 4]
        eol = eols[i % len(eols)]
        if i == len(vals) - 1 and not case["final"]:
            eol = ""
        out.append(s + eol)
    with open(path, "wb") as f:
        f.write("".join(out).encode(case.get("encoding", "utf-8")))
    return vals


def encoded(case, encoding):
    """The case with another encoding of the file, if that has all its characters."""
    try:
        "".join(json.dumps(val(v), ensure_ascii=case["ascii"]) for v in case["values"]).encode(encoding)
    except UnicodeEncodeError:
        return case
    return dict(case, encoding=encoding)


def make_index(kind, spec, n):
    if kind == "int":
        return spec
    if kind == "slice":
        return slice(*spec)
    if kind == "list":
        return list(spec)
    if kind == "tuple":
        return tuple(spec)
    a = np.array(spec[0], dtype=spec[2]).reshape(spec[1])
    layout = spec[3] if len(spec) > 3 else "C"
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "T":
        return a.T
    if layout == "gaps":
        b = np.zeros(a.shape + (2,), dtype=a.dtype)
        b[..., 0] = a
        return b[..., 0]
    if layout == "reverse":
        return a[::-1]
    return a


def want_of(vals, kind, index):
    """What the list of lines gives; an exception class if it raises."""
    try:
        if kind == "int" or kind == "slice":
            return vals[index]
        if kind in ("list", "tuple"):
            return [vals[i] for i in index]
        return [vals[i] for i in index.flatten().tolist()]
    except IndexError:
        return IndexError


def spoil(x):
    """The caller changes what it was given."""
    if isinstance(x, np.ndarray):
        for y in x.ravel() if x.dtype == object else []:
            spoil(y)
        x[...] = {"U": "gone", "O": None}.get(x.dtype.kind, 7)
    elif isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x["spoiled"] = 1
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoiled")


def check(c, vals, kind, spec, what):
    index = make_index(kind, spec, len(vals))
    keep = index.copy() if kind == "array" else index
    want = want_of(vals, kind, index)
    try:
        got = c[index]
    except IndexError:
        if want is IndexError:
            return
        fail("%s: corpus[%r] raises an index error", what, index)
    except Exception as e:
        fail("%s: corpus[%r] raises %r", what, index, e)
    expect(want is not IndexError, "%s: corpus[%r] of %d lines returns %r", what, index, len(vals), got)
    if kind == "array":
        expect(isinstance(got, np.ndarray) and got.shape == index.shape, "%s: corpus[array of shape %s] has shape %s", what,
               index.shape, np.shape(got))
        whole = got
        got = [got.ravel()[i] for i in range(got.size)]
        expect(len(got) == len(want) and all(same(g, w) for g, w in zip(got, want)), "%s: corpus[%r] is %r instead of %r", what,
               index.tolist(), got, want)
        expect(np.array_equal(index, keep), "%s: index array modified", what)
        spoil(whole)
    else:
        expect(same(got, want), "%s: corpus[%r] is %r instead of %r", what, index, got, want)
        spoil(got)


@st.composite
def index_expr(draw, n):
    kind = draw(st.sampled_from(["int", "int", "slice", "slice", "list", "tuple", "array", "array"]))
    near = st.integers(-n - 2, n + 1)
    inside = st.integers(-n, n - 1)
    if kind == "int":
        return kind, draw(near)
    if kind == "slice":
        b = st.one_of(st.none(), near, st.sampled_from([-10**6, 10**6]))
        return kind, [draw(b), draw(b), draw(st.sampled_from([None, None, 1, 2, -1, -2, 3, 100, -100]))]
    el = draw(st.sampled_from([inside, inside, inside, near]))
    if kind == "array":
        shape = draw(st.sampled_from([[1], [2], [3], [0], [1, 1], [2, 3], [3, 2], [2, 1], [1, 3], [2, 0], [2, 2, 2], [1, 2, 3]]))
        size = int(np.prod(shape))
        xs = draw(st.lists(el, min_size=size, max_size=size))
        return kind, [xs, shape, draw(st.sampled_from(["int32", "int64", "int64", "int16", "int8"])), draw(st.sampled_from(["C", "C", "F", "T", "gaps", "reverse"]))]
    return kind, draw(st.lists(el, max_size=6))


@register
class C13(Prop):
    pid = "C13"
    rule = ("jsonl file (any Unicode, escaped or raw, long lines, LF / CRLF / mixed, UTF-8 or a single-byte encoding, with or without a final newline, padding, file name) x history "
            "of accesses (integer, negative, slice, list, tuple, array of any shape, out of range), close, load, reopening with a stored or fresh "
            "line index, a change of the working directory, two readers, threads reading at once; non-trivial: at least two lines and one access by other than an integer")
    examples = dict(quick=2400, thorough=60000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            vs = draw(st.lists(value, min_size=1, max_size=9))
            if draw(st.integers(0, 5)) == 0:
                k = draw(st.sampled_from(["str", "int", "float"]))
                s = dict(str=text, int=st.integers(-2**63, 2**63 - 1), float=st.floats(allow_nan=False, allow_infinity=False))[k]
                vs = [["v", v] for v in draw(st.lists(s, min_size=1, max_size=9))]
            n = len(vs)
            op = st.one_of(index_expr(n).map(lambda t: ["get"] + list(t)), index_expr(n).map(lambda t: ["get"] + list(t)),
                           index_expr(n).map(lambda t: ["get"] + list(t)), index_expr(n).map(lambda t: ["get"] + list(t)),
                           st.sampled_from([["close+load"], ["load"], ["reopen"], ["reopen nosave"], ["delete index"], ["second"], ["all"],
                                            ["iterate"], ["get_line"], ["rebuild index"], ["threads", 3], ["chdir"]]))
            case = dict(values=vs, eol=draw(st.sampled_from([["\n"], ["\n"], ["\r\n"], ["\n", "\r\n"]])), final=draw(st.booleans()),
                        ascii=draw(st.booleans()), pad=draw(st.integers(0, 5)) == 0, name=draw(st.sampled_from(FILES)),
                        stored=draw(st.sampled_from(["no", "yes", "nosave"])), impl=draw(st.sampled_from(["default", "default", "builtin"])),
                        aspath=draw(st.booleans()), rel=draw(st.sampled_from([False, False, True])), ops=draw(st.lists(op, min_size=3, max_size=12)))
            return encoded(case, draw(st.sampled_from(["utf-8"] * 4 + ENCODINGS)))
        return f()

    def fixed(self, ctx):
        def case(values, ops=None, **kw):
            n = len(values)
            d = dict(values=values, eol=["\n"], final=True, ascii=False, pad=False, name="corpus.jsonl", stored="no", impl="default",
                     aspath=False, ops=ops or [["all"], ["threads", 4], ["get", "int", -1], ["get", "slice", [None, None, -1]], ["get", "int", n],
                                               ["get", "int", -n - 1], ["iterate"], ["reopen"], ["all"], ["get_line"], ["close+load"], ["all"], ["chdir"], ["all"]])
            d.update(kw)
            return d

        out = []
        # every end of line at every position around the buffer size
        for eol in ("\n", "\r\n"):
            for ch in ("x", "\u00e9", "\U0001f600"):
                w = len(ch.encode())
                for size in range(8192 - 24, 8192 + 8):
                    fill = [["rep", ch, (size - 20) // w], ["v", "p" * (size % 7)], ["v", {"a": ch}], ["rep", ch, 8192 // w], ["v", 1]]
                    out.append(case(fill, eol=[eol], final=size % 2 == 0, ops=[["all"], ["reopen"], ["all"], ["get", "int", -1]]))
        out.append(case([["v", {"i": i, "t": "\u00e9" * (i % 91)}] for i in range(4000)], eol=["\n", "\r\n"]))
        out.append(case([["rep", "\u65e5", 100000], ["v", "after"], ["rep", "x", 300000], ["v", "end"]], final=False))
        # lines of more than a megabyte in the middle
        for impl in ("default", "builtin"):
            out.append(case([["v", 0], ["rep", "x", 1100000], ["v", "after"], ["rep", "\u00e9", 2200000], ["v", {"a": 1}], ["rep", "ab\u00e9", 600000], ["v", "end"]],
                            impl=impl, ops=[["all"], ["get", "array", [[1, 2, 3, 4, 5, 6], [2, 3], "int64"]], ["reopen"], ["all"], ["iterate"], ["get_line"]]))
        # many lines at once
        g = random.Random(5)
        for m in (20000, 70000):
            for kind in ("int", "dict", "str"):
                vs = [["v", {"int": i, "dict": {"i": i}, "str": "line %d" % i}[kind]] for i in range(m)]
                idx = [g.randrange(-m, m) for _ in range(6600)]
                out.append(case(vs, ops=[["get", "array", [idx, [60, 110], "int64"]], ["get", "list", idx], ["get", "tuple", idx[:5000]],
                                         ["get", "slice", [None, None, -3]], ["get", "array", [sorted(set(idx)), [len(set(idx))], "int32"]],
                                         ["get", "array", [idx[:100] * 60, [100, 60], "int64"]], ["get", "slice", [5, m - 3, None]]]))
        # a single line, with everything that can be asked of it
        for v in (["v", 1], ["v", ""], ["v", {}], ["v", [1]], ["v", None]):
            out.append(case([v], final=False, ops=[["get", "int", 0], ["get", "int", -1], ["get", "int", 1], ["get", "int", -2],
                                                   ["get", "slice", [None, None, None]], ["get", "array", [[0, 0, -1, -1], [2, 2], "int64"]],
                                                   ["get", "array", [[], [0], "int64"]], ["get", "list", []], ["get", "tuple", [0, 1]]]))
        for words in (gen.ODD, gen.WORDS):
            for a in (False, True):
                for impl in ("default", "builtin"):
                    out.append(case([["v", {w: [w]}] for w in words if not w.endswith("\x00")], ascii=a, impl=impl))
        for e in ENCODINGS:
            for ch in ("\u00e9", "\u0436", "x"):
                for a in (False, True):
                    out.append(encoded(case([["v", {"t": ch * i}] for i in range(40)] + [["rep", ch, 9000], ["v", ch], ["v", 1]], ascii=a, final=a), e))
        # documents that are lists of equal length, and every index array shape
        eq = [["v", [i, i + 1]] for i in range(4)]
        for vs in (eq, [["v", "s%d" % i] for i in range(4)], [["v", i * 0.5] for i in range(4)], [["v", {"k": i}] for i in range(4)],
                   [["v", x] for x in (1, "a", None, [1])]):
            out.append(case(vs, ops=[["get", "array", [list(range(s)), sh, "int64"]] for s, sh in
                                     ((4, [4]), (4, [2, 2]), (2, [2]), (2, [1, 2]), (2, [2, 1]), (1, [1]), (1, [1, 1]), (4, [4, 1]), (4, [1, 2, 2]))]
                            + [["get", "array", [[-1, -4, 3, 0], [2, 2], "int32"]], ["get", "array", [[4], [1], "int64"]],
                               ["get", "array", [[-5], [1], "int64"]], ["get", "array", [[0, 1, -5, 2], [2, 2], "int64"]]]))
        return out

    def run(self, case, ctx):
        M = sut.impl(case["impl"]).utils.corpus
        d = os.path.join(ctx.tmp(), "dir.v1")
        os.makedirs(d)
        path = os.path.join(d, case["name"])
        vals = write(case, path)
        n = len(vals)
        with open(path, "rb") as f:
            raw = f.read()
        cwd = os.getcwd()
        try:
            if case.get("rel"):
                os.chdir(os.path.dirname(d))
            self.history(case, ctx, M, d, path, vals, n, raw)
        finally:
            os.chdir(cwd)

    def history(self, case, ctx, M, d, path, vals, n, raw):
        code = {} if case.get("encoding", "utf-8") == "utf-8" else dict(encoding=case["encoding"])
        arg = os.path.join("dir.v1", case["name"]) if case.get("rel") else path
        arg = pathlib.Path(arg) if case["aspath"] else arg
        if case["stored"] == "yes":
            M.save_mmindex(M.find_newline_positions(arg, show_progress=False, **code), arg, **code)
        index_files = lambda: sorted(x for x in os.listdir(d) if x != case["name"])

        def open_(**kw):
            c = M.JsonlCorpus(arg, show_progress=False, verbosity=0, **code, **kw)
            expect(len(c) == n, "%d elements for %d lines", len(c), n)
            return c

        def all_(c, what):
            for i in range(n):
                got = c[i]
                expect(same(got, vals[i]), "%s: line %d of %d is %r instead of %r", what, i, n, got, vals[i])
                if i % 3 == 0:
                    spoil(got)

        c = open_(save_index=case["stored"] != "nosave")
        if case["stored"] == "nosave":
            expect(index_files() == [], "a line index was written although not asked for: %s", index_files())
        others = []
        for j, op in enumerate(case["ops"]):
            what = "step %d" % j
            if op[0] == "get":
                check(c, vals, op[1], op[2], what)
            elif op[0] == "close+load":
                c.close()
                c.load()
            elif op[0] == "load":
                c.load()
            elif op[0] == "reopen":
                c.close()
                c = open_()
            elif op[0] == "reopen nosave":
                c = open_(save_index=False)
            elif op[0] == "delete index":
                for x in index_files():
                    os.remove(os.path.join(d, x))
            elif op[0] == "chdir":
                # a file given by its full path stays the same file
                if not case.get("rel"):
                    os.chdir(ctx.tmp())
                c.close()
                c.load()
            elif op[0] == "rebuild index":
                M.save_mmindex(M.find_newline_positions(arg, show_progress=False, **code), arg, **code)
            elif op[0] == "second":
                others.append(open_())
                all_(others[-1], what + " second reader")
            elif op[0] == "all":
                all_(c, what)
            elif op[0] == "threads":
                self.threads(c, vals, op[1], what)
            elif op[0] == "iterate":
                got = list(c)
                expect(same(got, vals), "%s: iterating gives %r instead of %r", what, got, vals)
                spoil(got)
            elif op[0] == "get_line":
                mm = M.find_newline_positions(arg, show_progress=False, **code)
                expect(len(mm) == n, "%s: %d newline positions for %d lines", what, len(mm), n)
                for i in range(0, n, max(1, n // 20)):
                    line = M.get_line(arg, i, mm, **code)
                    expect(same(json.loads(line), vals[i]), "%s: get_line(%d) is %r", what, i, line)
        all_(c, "at the end")
        for o in others:
            all_(o, "other reader at the end")
            o.close()
        c.close()
        with open(path, "rb") as f:
            expect(f.read() == raw, "the jsonl file was modified")

    def threads(self, c, vals, m, what):
        """Several threads read, each in its own order."""
        n, wrong, barrier = len(vals), [], threading.Barrier(m)
        reads = max(40, min(2 * n, 2000))

        def work(t):
            try:
                barrier.wait(30)
                for j in range(reads):
                    i = (j * (2 * t + 1) + t) % n
                    if j % 5 == 4:
                        want, got = [vals[i], vals[-1]], c[[i, -1]]
                    else:
                        want, got = vals[i], c[i]
                    if not same(got, want):
                        wrong.append("line %d is %r instead of %r" % (i, got, want))
            except BaseException as e:  # noqa: BLE001
                wrong.append("%s: %s" % (type(e).__name__, e))

        ts = [threading.Thread(target=work, args=(t,)) for t in range(m)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        expect(not any(t.is_alive() for t in ts), "%s: concurrent reads do not end", what)
        expect(not wrong, "%s: concurrent reads: %s", what, wrong[:2])

    def labels(self, case):
        return ["eol %r" % "".join(case["eol"]), "encoding " + case.get("encoding", "utf-8"), "stored " + case["stored"], "json " + case["impl"]] + sorted(
            {o[0] if o[0] != "get" else "get " + o[1] for o in case["ops"]})

    def nontrivial(self, case):
        return len(case["values"]) > 1 and any(o[0] != "get" or o[1] != "int" for o in case["ops"])
