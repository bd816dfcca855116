"""C21 BEIR datasets, C22 evaluation."""
import http.server
import io
import json
import math
import os
import pathlib
import random
import socket
import struct
import threading
import zipfile
from collections import Counter

import numpy as np
from hypothesis import strategies as st

import bm25s

from . import gen, sut
from .core import Prop, expect, fail, register
from .faults import attempt
from .p_docs import jsonv, same, text
from .p_utils import eq

id_char = st.characters(exclude_categories=["Cs", "Cc", "Zs", "Zl", "Zp"])
ids_ = st.one_of(st.sampled_from(["1", "q1", "doc-1", "PLAIN-2", "a_b", "x.y/z", "\u00e9t\u00e9", "\u65e5\u672c", "\U0001f600", "#1", "\"q\"", "0", "query-id", "corpus-id", "query-id-7", "_id", "score"]),
                 st.sampled_from(["a b", "a\u00a0b", "doc\u300012", "x  y", "p\x0bq", "p\x0cq", "p\x1cq", "p\x85q", "p\u2028q"]),
                 st.text(id_char, min_size=1, max_size=5), st.integers(0, 50).map(str))
extra = st.sampled_from([{}, {}, {"metadata": {}}, {"metadata": {}}, {"metadata": {"url": "http://x/\u00e9", "n": [1, None]}}])


@st.composite
def records(draw, kind, max_size=5, min_size=0):
    n = draw(st.lists(ids_, min_size=min_size, max_size=max_size, unique=True))
    out = []
    for i in n:
        r = {"_id": i, "text": draw(text)}
        if kind == "corpus" and draw(st.integers(0, 3)):
            r["title"] = draw(text)
        r.update(draw(extra))
        if draw(st.integers(0, 5)) == 0:
            r["more \u00e9"] = draw(jsonv)
        if draw(st.booleans()):
            r = dict(reversed(list(r.items())))
        out.append(r)
    return out


@st.composite
def judgments(draw, qs, ds):
    qs, ds = qs + draw(st.lists(ids_, max_size=2)), ds + draw(st.lists(ids_, max_size=2))
    qs, ds = list(dict.fromkeys(qs)) or ["q"], list(dict.fromkeys(ds)) or ["d"]
    pairs = draw(st.lists(st.tuples(st.sampled_from(qs), st.sampled_from(ds), st.sampled_from([0, 1, 1, 2, 3, -1, 10])), max_size=12,
                          unique_by=lambda t: t[:2]))
    return [list(x) for x in pairs]


@st.composite
def dataset(draw, splits=("test",)):
    c = draw(records("corpus", min_size=1))
    q = draw(records("queries", max_size=4, min_size=1))
    return dict(corpus=c, queries=q, qrels={s: draw(judgments([x["_id"] for x in q], [x["_id"] for x in c])) for s in splits},
                eol=draw(st.sampled_from(["\n", "\n", "\r\n"])), final=draw(st.booleans()), ascii=draw(st.booleans()))


def dump_lines(path, lines, d):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    body = d["eol"].join(lines) + (d["eol"] if d["final"] and lines else "")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(body)


def write_dataset(root, d):
    for kind in ("corpus", "queries"):
        dump_lines(os.path.join(root, kind + ".jsonl"), [json.dumps(r, ensure_ascii=d["ascii"]) for r in d[kind]], d)
    for split, js in d["qrels"].items():
        dump_lines(os.path.join(root, "qrels", split + ".tsv"), ["query-id\tcorpus-id\tscore"] + ["%s\t%s\t%d" % tuple(j) for j in js], d)


def loaded(rec, kind):
    r = {k: v for k, v in rec.items() if k != "metadata"}
    if kind == "corpus":
        r.setdefault("title", None)
    return r


def check_loaded(M, save_dir, name, d, what, ordered=True):
    """Everything the loaders return for the dataset d in save_dir/name."""
    B = M.utils.beir
    for kind in ("corpus", "queries"):
        f = getattr(B, "load_" + kind)
        want = [loaded(r, kind) for r in d[kind]]
        got = f(name, save_dir=save_dir, show_progress=False, return_dict=False)
        key = lambda r: r["_id"]
        a, b = (got, want) if ordered else (sorted(got, key=key), sorted(want, key=key))
        expect(eq(a, b), "%s: load_%s as a list gives %r instead of %r", what, kind, a, b)
        got = f(name, save_dir=save_dir, show_progress=False)
        by = {r["_id"]: {k: v for k, v in r.items() if k != "_id"} for r in want}
        expect(eq(got, by), "%s: load_%s gives %r instead of %r", what, kind, got, by)
        if ordered:
            expect(list(got) == list(by), "%s: load_%s order", what, kind)
    for split, js in d["qrels"].items():
        kw = {} if split == "test" and len(js) % 2 else dict(split=split)
        got = B.load_qrels(name, save_dir=save_dir, show_progress=False, return_dict=False, **kw)
        a, b = [list(x) for x in got], [list(x) for x in js]
        expect((a if ordered else sorted(a)) == (b if ordered else sorted(b)), "%s: qrels as a list: %r instead of %r", what, a, b)
        got = B.load_qrels(name, save_dir=save_dir, show_progress=False, **kw)
        want = {}
        for q, c, s in js:
            want.setdefault(q, {})[c] = s
        expect(eq({k: dict(v) for k, v in got.items()}, want), "%s: qrels %r instead of %r", what, got, want)


def raises(f, kinds, what):
    try:
        f()
    except kinds:
        return
    except Exception as e:
        fail("%s raises %r", what, e)
    fail("%s raises nothing", what)


def snapshot(root):
    out = {}
    for base, _, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


class Server:
    """An HTTP server on the loopback interface that can fail half-way."""

    _one = None

    @classmethod
    def get(cls):
        if cls._one is None:
            cls._one = cls()
        return cls._one

    def __init__(self):
        self.files, self.mode = {}, None
        me = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"

            def do_GET(self):
                body = me.files.get(self.path)
                if body is None or me.mode == ["refuse"]:
                    self.send_error(404 if body is None else 500)
                    return
                self.send_response(200)
                if me.mode != ["nolength"]:
                    self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                n = len(body)
                if me.mode and me.mode[0] in ("short", "reset"):
                    n = me.mode[1] % (len(body) + 1)
                try:
                    self.wfile.write(body[:n])
                    self.wfile.flush()
                    if me.mode and me.mode[0] == "reset" and n < len(body):
                        self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        self.connection.close()
                except OSError:
                    pass

            def log_message(self, *args):
                pass

        os.environ["no_proxy"] = "127.0.0.1"
        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.server.handle_error = lambda *args: None
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, args=(0.05,), daemon=True).start()
        self.url = "http://127.0.0.1:%d/" % self.server.server_address[1]


def zipped(files, pad=0, name="x"):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        for p, c in files.items():
            z.writestr(p, c)
        if pad:
            z.writestr(name + "/padding.bin", random.Random(pad).randbytes(pad))
    return out.getvalue()


FORUMS = ["android", "english", "gaming", "tex", "wordpress", "u_x", "\u00e9tude", "3dprinting", "42", "Zed-2.0"]


@register
class C21(Prop):
    pid = "C21"
    rule = ("dataset directories (Unicode records, several judgments per query, splits, line endings), sets of CQADupStack sub-forums with some merged "
            "files already present, archives served from file URLs (fresh, repeated, re-downloaded), both JSON implementations, "
            "merges and HTTP downloads stopped by a fault (n-th file operation, failing write, file size, malformed line, short body, reset, refusal) and repeated; non-trivial: at least "
            "two records, and two judgments of one query or two sub-forums, or a fault")
    examples = dict(quick=1800, thorough=50000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        load = st.fixed_dictionaries(dict(kind=st.just("load"), data=st.sampled_from([("test",), ("train", "dev", "test"), ("dev", "test")]).flatmap(
            lambda s: dataset(s)), name=st.sampled_from(["scifact", "cqa/android", "x y"])))
        merge = st.fixed_dictionaries(dict(kind=st.just("merge"), forums=st.lists(st.tuples(st.sampled_from(FORUMS), dataset()), min_size=1, max_size=4,
                                                                                    unique_by=lambda t: t[0]).map(lambda x: [list(t) for t in x]),
                                           present=st.lists(st.sampled_from(["corpus.jsonl", "queries.jsonl", "qrels/test.tsv"]), max_size=2, unique=True)
                                           .flatmap(lambda x: st.sampled_from([[], x]))))
        down = st.fixed_dictionaries(dict(kind=st.just("download"), data=dataset(), second=dataset(), name=st.sampled_from(["scifact", "nq"]),
                                          again=st.sampled_from(["no", "same", "redownload"]), pad=st.sampled_from([0, 0, 20000, 70000])))
        downc = st.fixed_dictionaries(dict(kind=st.just("download-cqa"), forums=st.lists(st.tuples(st.sampled_from(FORUMS), dataset()), min_size=1,
                                                                                           max_size=3, unique_by=lambda t: t[0]).map(
            lambda x: [list(t) for t in x])))
        event = st.tuples(st.sampled_from(["event", "event", "error", "write"]), st.integers(1, 20))
        size = st.tuples(st.just("size"), st.one_of(st.integers(0, 200), st.integers(0, 3000)))
        forums = st.lists(st.tuples(st.sampled_from(FORUMS), dataset()), min_size=1, max_size=3, unique_by=lambda t: t[0]).map(lambda x: [list(t) for t in x])
        broken = st.fixed_dictionaries(dict(kind=st.just("broken-merge"), forums=forums, faults=st.lists(st.one_of(
            event, size, st.tuples(st.just("line"), st.integers(0, 99), st.sampled_from(["corpus.jsonl", "queries.jsonl", "qrels/test.tsv"]))).map(list), min_size=1, max_size=3)))
        net = st.one_of(st.tuples(st.just("short"), st.integers(0, 100000)), st.tuples(st.just("short"), st.integers(0, 200)),
                        st.tuples(st.just("reset"), st.integers(0, 100000)), st.tuples(st.just("tear"), st.integers(0, 9)), st.just(("refuse",)), event, event, size, st.just(("nolength",)))
        bdown = st.fixed_dictionaries(dict(kind=st.just("broken-download"), data=dataset(), old=st.one_of(st.none(), dataset()), cqa=st.one_of(st.none(), st.none(), forums),
                                           faults=st.lists(net.map(list), min_size=1, max_size=3), pad=st.sampled_from([0, 0, 20000, 70000]),
                                           unzip=st.booleans(), progress=st.booleans()))
        return st.tuples(st.one_of(load, load, load, merge, merge, down, downc, broken, broken, bdown, bdown), st.sampled_from(["default", "default", "builtin"])).map(
            lambda t: dict(t[0], impl=t[1]))

    def fixed(self, ctx):
        def data(n=3, tag="", **kw):
            d = dict(corpus=[dict(_id="d%d" % i, title="t\u00e9 %d" % i, text=gen.ODD[i % len(gen.ODD)] + tag, metadata={}) for i in range(n)],
                     queries=[dict(_id="q%d" % i, text="query %d \U0001f600%s" % (i, tag), metadata={"u": i}) for i in range(n)],
                     qrels={"test": [["q%d" % (i % max(1, n // 2)), "d%d" % i, i % 3] for i in range(n)]}, eol="\n", final=True, ascii=False)
            d.update(kw)
            return d

        out = []
        for impl in ("default", "builtin"):
            for n in (1, 2, 40, 3000):
                for kw in ({}, dict(eol="\r\n"), dict(final=False), dict(ascii=True)):
                    out.append(dict(kind="load", data=data(n, **kw), name="scifact", impl=impl))
            # ids with white space (not in the judgments, whose columns it separates)
            for n in (3, 70, 400):
                d = data(n, qrels={"test": []})
                for i in range(n):
                    d["corpus"][i]["_id"] = [" d%d", "d%d ", "d %d", "d%d\n", "\td%d", "d%d\u00a0", "D%d", "d%d"][i % 8] % (i // 8)
                    d["queries"][i]["_id"] = ["q%d ", " q%d", "q%d", "q%d\u2028"][i % 4] % (i // 4)
                out.append(dict(kind="load", data=d, name="scifact", impl=impl))
            # white space within ids does not separate columns (only tabs do) nor lines
            odd = [" ", "  ", "\u00a0", "\u3000", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\x85", "\u2028", "\u2029", "\u2003", ","]
            d = data(len(odd))
            for i, c in enumerate(odd):
                d["corpus"][i]["_id"], d["queries"][i]["_id"] = "d%sx" % c, "q%sx" % c
            for q in (lambda i: i, lambda i: 0):
                e = dict(d, qrels={"test": [["q%sx" % odd[q(i)], "d%sx" % c, i] for i, c in enumerate(odd)]})
                out.append(dict(kind="load", data=e, name="scifact", impl=impl))
                out.append(dict(kind="merge", forums=[["tex", e], ["unix", data(3)]], present=[], impl=impl))
            for present in ([], ["corpus.jsonl"], ["queries.jsonl"], ["qrels/test.tsv"], ["corpus.jsonl", "qrels/test.tsv"]):
                out.append(dict(kind="merge", forums=[[f, data(3 + i, f, final=bool(i % 2))] for i, f in enumerate(FORUMS)], present=present, impl=impl))
            out.append(dict(kind="merge", forums=[["tex", data(500)]], present=[], impl=impl))
            for pad in (0, 100, 16384, 200000, 2000000):
                for again in ("no", "same", "redownload"):
                    out.append(dict(kind="download", data=data(3), second=data(4, "new"), name="scifact", again=again, pad=pad, impl=impl))
            out.append(dict(kind="download-cqa", forums=[[f, data(2, f)] for f in FORUMS], impl=impl))
            two = [[f, data(3, f)] for f in FORUMS[:2]]
            for n in range(1, 24):
                out.append(dict(kind="broken-merge", forums=two, faults=[["event", n]], impl=impl))
                out.append(dict(kind="broken-merge", forums=two, faults=[["size", n * 25]], impl=impl))
                out.append(dict(kind="broken-merge", forums=two, faults=[["error", n]], impl=impl))
                out.append(dict(kind="broken-merge", forums=two, faults=[["write", n]], impl=impl))
                for cqa in (None, two):
                    for old in (None, data(2, "old")):
                        f = [["event", n], ["size", 37 * n], ["short", 97 * n], ["reset", 97 * n], ["tear", n // 5], ["error", n], ["write", n]][n % 7]
                        out.append(dict(kind="broken-download", data=data(3), old=None if cqa else old, cqa=cqa, faults=[f], pad=[0, 40000][n % 2], unzip=n % 3 > 0,
                                        progress=bool(n % 2), impl=impl))
            for file in ("corpus.jsonl", "queries.jsonl", "qrels/test.tsv"):
                for n in range(3):
                    out.append(dict(kind="broken-merge", forums=two, faults=[["line", n, file]], impl=impl))
        return out

    def merged(self, forums, present, kept):
        d = dict(corpus=[], queries=[], qrels={"test": []})
        for name, f in forums:
            for kind in ("corpus", "queries"):
                d[kind] += [dict(r, _id="%s_%s" % (name, r["_id"])) for r in f[kind]]
            d["qrels"]["test"] += [["%s_%s" % (name, q), "%s_%s" % (name, c), s] for q, c, s in f["qrels"]["test"]]
        return d

    def check_merge(self, M, save_dir, forums, present, what):
        root = os.path.join(save_dir, "cqadupstack")
        want = self.merged(forums, present, None)
        for kind in ("corpus", "queries"):
            if kind + ".jsonl" in present:
                continue
            with open(os.path.join(root, kind + ".jsonl"), encoding="utf-8") as f:
                got = [json.loads(line) for line in f]
            key = lambda r: json.dumps(r, sort_keys=True)
            expect(sorted(map(key, got)) == sorted(map(key, want[kind])), "%s: merged %s: %d records, differences %r", what, kind, len(got),
                   list((Counter(map(key, got)) - Counter(map(key, want[kind]))).items())[:3]
                   + list((Counter(map(key, want[kind])) - Counter(map(key, got))).items())[:3])
        if not present:
            # ids of different sub-forums may coincide only if their names do not tell them apart ("u" + "x_1", "u_x" + "1")
            if all(len({r["_id"] for r in want[k]}) == len(want[k]) for k in ("corpus", "queries")):
                check_loaded(M, save_dir, "cqadupstack", want, what, ordered=False)
        elif "qrels/test.tsv" not in present:
            got = [list(x) for x in M.utils.beir.load_qrels("cqadupstack", save_dir=save_dir, show_progress=False, return_dict=False)]
            expect(sorted(got) == sorted(want["qrels"]["test"]), "%s: merged judgments differ", what)

    def broken_merge(self, case, M, root):
        base = os.path.join(root, "cqadupstack")
        for name, d in case["forums"]:
            write_dataset(os.path.join(base, name), d)
        for f in case["faults"]:
            spec, path = f, None
            if f[0] == "line":  # a malformed line, repaired later
                path = os.path.join(base, case["forums"][f[1] % len(case["forums"])][0], f[2])
                with open(path, "rb") as fh:
                    good = fh.read()
                lines = good.split(b"\n")
                lines.insert(max(1, f[1] % (len(lines) + 1)), b"{broken")
                with open(path, "wb") as fh:
                    fh.write(b"\n".join(lines))
                spec = ["event", 10**9]
            done = attempt(spec, root, lambda: M.utils.beir.merge_cqa_dupstack(base))
            if path is not None:
                expect(not done or f[2] == "qrels/test.tsv" or os.path.exists(os.path.join(base, f[2])), "merging a malformed line is silently skipped")
                with open(path, "wb") as fh:
                    fh.write(good)
                if done:  # a line was accepted that the model does not understand
                    return
            elif done:
                self.check_merge(M, root, case["forums"], [], "merge under %s" % (f,))
        M.utils.beir.merge_cqa_dupstack(base)
        self.check_merge(M, root, case["forums"], [], "merge repeated after %s" % case["faults"])

    def broken_download(self, case, M, root):
        B, server = M.utils.beir, Server.get()
        name = "cqadupstack" if case["cqa"] else "scifact"
        server.files.clear()

        def publish(write, pad):
            tree = os.path.join(root, "tree")
            write(os.path.join(tree, name))
            files = snapshot(tree)
            for k in sorted(files):
                os.remove(os.path.join(tree, k))
            server.files["/%s.zip" % name] = zipped(files, pad, name)

        save = os.path.join(root, "datasets")
        args = dict(base_url=server.url + "{}.zip", save_dir=save, show_progress=case["progress"])
        server.mode = None
        again = {}
        if case["old"] is not None and not case["cqa"]:
            publish(lambda d: write_dataset(d, case["old"]), 0)
            B.download_dataset(name, **args)
            check_loaded(M, save, name, case["old"], "downloaded over HTTP")
            again = dict(redownload=True)
        publish(lambda d: [write_dataset(os.path.join(d, f), x) for f, x in case["cqa"]] if case["cqa"] else write_dataset(d, case["data"]), case["pad"])
        archive = server.files["/%s.zip" % name]

        def check(what):
            if case["cqa"]:
                self.check_merge(M, save, case["cqa"], [], what)
            else:
                check_loaded(M, save, name, case["data"], what)

        for f in case["faults"]:
            got = []
            if f[0] == "tear":  # the archive is complete, its extraction was interrupted
                with zipfile.ZipFile(B.download_dataset(name, unzip=False, **args, **again)) as z:
                    for m in z.namelist()[: f[1] + 1]:
                        z.extract(m, save)
                last = os.path.join(save, m)
                if os.path.isfile(last):
                    os.truncate(last, os.path.getsize(last) // 2)
                again = {}
                continue
            net = f[0] in ("short", "reset", "refuse", "nolength")
            server.mode = f if net else None
            done = attempt(["event", 10**9] if net else f, save, lambda: got.append(B.download_dataset(name, unzip=case["unzip"], **args, **again)))
            server.mode = None
            if done and not case["unzip"]:
                with open(got[0], "rb") as fh:
                    expect(fh.read() == archive, "an incomplete download (%s) is reported as complete", f)
            elif done:
                check("download under %s" % (f,))
        B.download_dataset(name, **args, **again)
        check("download repeated after %s" % case["faults"])
        again = {}
        B.download_dataset(name, **args)
        check("download repeated twice after %s" % case["faults"])

    def run(self, case, ctx):
        M = sut.impl(case["impl"])
        B = M.utils.beir
        root = ctx.tmp()
        kind = case["kind"]
        if kind == "load":
            name = case["name"]
            write_dataset(os.path.join(root, *name.split("/")), case["data"])
            before = snapshot(root)
            check_loaded(M, root, name, case["data"], "dataset")
            check_loaded(M, pathlib.Path(root), name, case["data"], "dataset, path object")
            raises(lambda: B.load_qrels(name, split="other", save_dir=root, show_progress=False), ValueError, "an unknown split")
            for s in {"train", "dev", "test"} - set(case["data"]["qrels"]):
                raises(lambda: B.load_qrels(name, split=s, save_dir=root, show_progress=False), FileNotFoundError, "a missing split")
            raises(lambda: B.load_corpus("absent", save_dir=root, show_progress=False), FileNotFoundError, "a missing corpus")
            raises(lambda: B.load_queries("absent", save_dir=root, show_progress=False), FileNotFoundError, "a missing query file")
            expect(snapshot(root) == before, "loading changed the files")
        elif kind == "merge":
            base = os.path.join(root, "cqadupstack")
            os.makedirs(base)
            for name, d in case["forums"]:
                write_dataset(os.path.join(base, name), d)
            for p in case["present"]:
                os.makedirs(os.path.dirname(os.path.join(base, p)), exist_ok=True)
                with open(os.path.join(base, p), "w") as f:
                    f.write("already here\n")
            before = snapshot(root)
            for i in range(2):
                B.merge_cqa_dupstack(base if i else pathlib.Path(base))
                after = snapshot(root)
                expect(all(after.get(k) == v for k, v in before.items()), "merging changed existing files")
                extra_ = {k.replace(os.sep, "/") for k in set(after) - set(before)}
                expect(extra_ <= {"cqadupstack/" + x for x in ("corpus.jsonl", "queries.jsonl", "qrels/test.tsv")}, "merging wrote %s", sorted(extra_))
                self.check_merge(M, root, case["forums"], case["present"], "merge %d" % i)
                before = after
        elif kind == "broken-merge":
            self.broken_merge(case, M, root)
        elif kind == "broken-download":
            self.broken_download(case, M, root)
        else:
            src = os.path.join(root, "server")
            os.makedirs(src)
            save = os.path.join(root, "datasets")
            url = "file://" + src + "/{}.zip"
            cqa = kind == "download-cqa"
            name = "cqadupstack" if cqa else case["name"]

            def publish(write, pad=0):
                tree = os.path.join(root, "tree")
                write(os.path.join(tree, name))
                with zipfile.ZipFile(os.path.join(src, name + ".zip"), "w", zipfile.ZIP_DEFLATED) as z:
                    for p, c in snapshot(tree).items():
                        z.writestr(p, c)
                    if pad:
                        z.writestr(name + "/padding.bin", random.Random(pad).randbytes(pad))

            if cqa:
                publish(lambda d: [write_dataset(os.path.join(d, f), x) for f, x in case["forums"]])
                got = B.download_dataset(name, base_url=url, save_dir=save, show_progress=False)
                expect(os.path.realpath(got) == os.path.realpath(os.path.join(save, name)), "download_dataset returns %r", got)
                self.check_merge(M, save, case["forums"], [], "downloaded")
                return
            publish(lambda d: write_dataset(d, case["data"]), case["pad"])
            with open(os.path.join(src, name + ".zip"), "rb") as f:
                archive = f.read()
            z = B.download_dataset(name, base_url=url, save_dir=save, unzip=False, show_progress=False)
            with open(z, "rb") as f:
                expect(f.read() == archive, "the downloaded archive differs from the served one")
            got = B.download_dataset(name, base_url=url, save_dir=save, show_progress=False)
            expect(os.path.realpath(got) == os.path.realpath(os.path.join(save, name)), "download_dataset returns %r", got)
            check_loaded(M, save, name, case["data"], "downloaded")
            if case["again"] != "no":
                publish(lambda d: write_dataset(d, case["second"]), 0)
                B.download_dataset(name, base_url=url, save_dir=save, redownload=case["again"] == "redownload", show_progress=False)
                check_loaded(M, save, name, case["second"] if case["again"] == "redownload" else case["data"], "downloaded again")

    def labels(self, case):
        return [case["kind"], "json " + case["impl"]] + sorted({"fault " + f[0] for f in case.get("faults", [])})

    def nontrivial(self, case):
        if case.get("faults"):
            return True
        if "forums" in case:
            return len(case["forums"]) > 1
        js = [j for s in case["data"]["qrels"].values() for j in s]
        return len(case["data"]["corpus"]) > 1 and len({j[0] for j in js}) < len(js)


# ---------------------------------------------------------------- C22

def metrics(qrels, results, k):
    """(ndcg, map, recall, precision) of trec_eval at cutoff k."""
    sums = [0.0] * 4
    qs = [q for q in qrels if q in results]
    for q in qs:
        rel = qrels[q]
        ranked = sorted(results[q], key=lambda d: -results[q][d])
        gains = [rel.get(d, 0) for d in ranked]
        dcg = sum(g / math.log2(i + 2) for i, g in enumerate(gains[:k]))
        ideal = sum(g / math.log2(i + 2) for i, g in enumerate(sorted(rel.values(), reverse=True)[:k]))
        n = sum(1 for v in rel.values() if v > 0)
        hits, ap = 0, 0.0
        for i, g in enumerate(gains[:k]):
            if g > 0:
                hits += 1
                ap += hits / (i + 1)
        sums[0] += dcg / ideal if ideal else 0.0
        sums[1] += ap / n if n else 0.0
        sums[2] += hits / n if n else 0.0
        sums[3] += hits / k
    return [s / len(qs) for s in sums]


@register
class C22(Prop):
    pid = "C22"
    rule = ("judgments (graded, several per query, queries missing on either side) x cutoffs (also repeated) x results (distinct scores, unjudged documents, documents whose id is "
            "the query's) x identical-id handling, also converted from arrays of retrieval output; non-trivial: two judged and answered "
            "queries and a relevant document retrieved")
    examples = dict(quick=5000, thorough=150000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            docs = ["d%d" % i for i in range(draw(st.integers(2, 14)))]
            qs = ["q%d" % i for i in range(draw(st.integers(1, 5)))]
            docs += draw(st.sampled_from([[], qs, qs]))  # ids that are query ids too
            if draw(st.integers(0, 3)) == 0:
                ren = {x: draw(ids_) + x for x in qs + docs}
                qs, docs = [ren[q] for q in qs], [ren[x] for x in docs]
            results = {}
            judged = {}
            for j, q in enumerate(qs):
                side = draw(st.sampled_from(["both"] * 5 + ["res", "rel"])) if j else "both"
                if side != "rel":
                    rs = draw(st.lists(st.sampled_from(docs), min_size=1, max_size=len(docs), unique=True))
                    if set(rs) == {q}:
                        rs.append(next(d for d in docs if d != q))
                    sc = draw(st.lists(st.integers(-20, 2000), min_size=len(rs), max_size=len(rs), unique=True))
                    results[q] = [[d, s / 4] for d, s in zip(rs, sc)]
                if side != "res":
                    ds = draw(st.lists(st.sampled_from(docs + ["unretrieved"]), min_size=1, max_size=len(docs), unique=True))
                    judged[q] = [[d, draw(st.sampled_from([0, 1, 1, 1, 2, 3]))] for d in ds]
            return dict(results=results, qrels=judged, ks=draw(st.lists(st.sampled_from([1, 2, 3, 5, 10, 100, 1000, 7, 4]), min_size=1, max_size=4)),
                        ignore=draw(st.sampled_from([True, False, None])), via=draw(st.booleans()))
        return f()

    def fixed(self, ctx):
        out = []
        g = random.Random(11)
        for nq, nd in ((3, 40), (30, 200), (60, 1200)):
            for ig in (True, False, None):
                res, rel = {}, {}
                for i in range(nq):
                    q = "q%d" % i
                    ds = ["d%d" % j for j in range(nd)] + [q]
                    g.shuffle(ds)
                    sc = g.sample(range(10 * nd), len(ds))
                    res[q] = [[d, s / 4] for d, s in zip(ds, sc)]
                    rel[q] = [["d%d" % j, g.choice([0, 1, 1, 2, 3])] for j in g.sample(range(nd), g.randint(1, min(nd, 60)))] + [[q, 1]]
                out.append(dict(results=res, qrels=rel, ks=[1, 3, 5, 10, 100, 1000], ignore=ig, via=True))
        # every place of the only relevant document, every cutoff
        for place in range(6):
            for k in (1, 2, 3, 5, 6, 10):
                out.append(dict(results={"q": [["d%d" % i, 10 - i] for i in range(6)]}, qrels={"q": [["d%d" % place, 2], ["x", 1]]}, ks=[k],
                                ignore=True, via=bool(place % 2)))
        return out

    def run(self, case, ctx):
        B = bm25s.utils.beir
        qrels = {q: dict((d, s) for d, s in v) for q, v in case["qrels"].items()}
        results = {q: dict((d, float(s)) for d, s in v) for q, v in case["results"].items()}
        if case["via"]:
            # the same in the form retrieval returns it, padded to a common length query by query
            qids = list(case["results"])
            out = {}
            for n in sorted({len(case["results"][q]) for q in qids}):
                part = [q for q in qids if len(case["results"][q]) == n]
                hits = np.array([[d for d, _ in sorted(case["results"][q], key=lambda x: -x[1])] for q in part])
                sc = np.array([[s for _, s in sorted(case["results"][q], key=lambda x: -x[1])] for q in part], dtype="float32")
                got = B.postprocess_results_for_eval(hits, sc, part)
                expect({q: dict(v) for q, v in got.items()} == {q: results[q] for q in part}, "conversion gives %r", got)
                expect(all(type(s) is float for v in got.values() for s in v.values()), "scores are not floats: %r", got)
                out.update({q: {str(d): s for d, s in v.items()} for q, v in got.items()})
            given = out
            renamed = B.clean_results_keys({"run@%s" % q if "@" not in q else q: v for q, v in given.items()})
            if not any("@" in q for q in given):
                expect(renamed == given, "clean_results_keys gives the keys %r", list(renamed))
        else:
            given = {q: dict(v) for q, v in results.items()}
        ignore = case["ignore"] is not False
        used = {q: {d: s for d, s in v.items() if not (ignore and d == q)} for q, v in results.items()}
        kw = {} if case["ignore"] is None else dict(ignore_identical_ids=case["ignore"])
        for attempt in range(2):
            res = B.evaluate({q: dict(v) for q, v in qrels.items()}, given, list(case["ks"]), **kw)
            expect(len(res) == 4, "evaluate returns %d values", len(res))
            for name, got, j in (("NDCG", res[0], 0), ("MAP", res[1], 1), ("Recall", res[2], 2), ("P", res[3], 3)):
                expect(list(got) == ["%s@%d" % (name, k) for k in dict.fromkeys(case["ks"])], "keys %s for cutoffs %s", list(got), case["ks"])
                for k in case["ks"]:
                    v = got["%s@%d" % (name, k)]
                    want = metrics(qrels, used, k)[j]
                    expect(abs(v - want) <= 0.51e-5, "%s@%d is %r instead of %r", name, k, v, want)
                    expect(round(v, 5) == v, "%s@%d = %r is not rounded to five decimals", name, k, v)

    def labels(self, case):
        return ["ignore %s" % case["ignore"], "queries %d" % len(case["results"])] + (["converted"] if case["via"] else [])

    def nontrivial(self, case):
        both = [q for q in case["qrels"] if q in case["results"]]
        hit = any(s > 0 and d in dict(map(tuple, case["results"][q])) for q in both for d, s in case["qrels"][q])
        return len(both) >= 2 and hit
