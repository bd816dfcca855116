"""C20: saving to and loading from the (simulated) hub."""
import contextlib
import json
import os
import pathlib
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

import bm25s
import bm25s.hf

from . import gen, sut
from .core import Prop, expect, fail, register
from .p_persist import bits, check_params, doc_elements, index_of, lambda_diff, same_corpus, stored, token_ids, tree
from .p_retrieve import FIXED_P
from .p_token import Checked, Runner, make_tokenizer, stop_arg, stop_spec, word_stemmer, splitter_arg


class Hub:
    """Repositories with branches; replaces the network calls of huggingface_hub.HfApi."""

    def __init__(self, root):
        self.root, self.repos, self.uploads, self.n = root, {}, [], 0
        self.meanwhile = None  # what somebody else does while the next upload is under way
        self.broken = False

    def full(self, repo_id):
        return repo_id if "/" in repo_id else "someone/" + repo_id

    @contextlib.contextmanager
    def active(self):
        import huggingface_hub

        hub = self

        def chosen(files, allow, ignore):
            from huggingface_hub.utils import filter_repo_objects

            return {k: files[k] for k in filter_repo_objects(list(files), allow_patterns=allow, ignore_patterns=ignore)}

        def create_repo(api, repo_id, *, token=None, private=None, repo_type=None, exist_ok=False, **kw):
            rid = hub.full(repo_id)
            if rid in hub.repos and not exist_ok:
                raise RuntimeError("repository exists")
            hub.repos.setdefault(rid, dict(private=private, type=repo_type or "model", branches={"main": {}}))
            return types.SimpleNamespace(repo_id=rid, repo_type=repo_type or "model", repo_name=rid.split("/")[1], namespace=rid.split("/")[0],
                                         url="https://hub/" + rid)

        def upload_folder(api, *, repo_id, folder_path, path_in_repo=None, commit_message=None, token=None, repo_type=None, revision=None,
                          allow_patterns=None, ignore_patterns=None, delete_patterns=None, **kw):
            rid = hub.full(repo_id)
            if repo_type not in (None, "model"):
                raise RuntimeError("wrong repository type %r" % (repo_type,))
            if self.meanwhile:
                f, self.meanwhile = self.meanwhile, None
                f()
            if self.broken:
                raise ConnectionError("the hub does not answer")
            files = {os.path.join(path_in_repo or "", k).replace(os.sep, "/"): v for k, v in tree(str(folder_path)).items() if v is not None}
            branches = hub.repos[rid]["branches"]
            files = chosen(files, allow_patterns, ignore_patterns)
            branch = branches.setdefault(revision or "main", dict(branches["main"]))
            if delete_patterns is not None:
                for k in chosen(branch, delete_patterns, None):
                    del branch[k]
            branch.update(files)
            hub.uploads.append(dict(repo=rid, files=files, folder=str(folder_path), revision=revision or "main", message=commit_message))
            return types.SimpleNamespace(commit_url="https://hub/commit")

        def repo_info(api, repo_id, **kw):
            rid = hub.full(repo_id)
            if rid not in hub.repos:
                raise RuntimeError("no repository " + rid)
            return types.SimpleNamespace(id=rid)

        def snapshot_download(api, repo_id, *, revision=None, token=None, local_dir=None, repo_type=None, allow_patterns=None, ignore_patterns=None, **kw):
            rid = hub.full(repo_id)
            files = chosen(hub.repos[rid]["branches"][revision or "main"], allow_patterns, ignore_patterns)
            if local_dir is None:
                hub.n += 1
                local_dir = os.path.join(hub.root, "cache", "snapshot%d" % hub.n)
            for k, v in files.items():
                p = os.path.join(str(local_dir), k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(v)
            return str(local_dir)

        api = huggingface_hub.HfApi
        fakes = dict(create_repo=create_repo, upload_folder=upload_folder, repo_info=repo_info, model_info=repo_info, snapshot_download=snapshot_download)
        saved = {k: getattr(api, k) for k in fakes}
        for k, f in fakes.items():
            setattr(api, k, f)
        old = tempfile.tempdir
        tempfile.tempdir = os.path.join(self.root, "tmp")
        os.makedirs(tempfile.tempdir, exist_ok=True)
        cwd = os.getcwd()
        os.makedirs(os.path.join(self.root, "cwd"), exist_ok=True)
        os.chdir(os.path.join(self.root, "cwd"))
        try:
            yield
        finally:
            os.chdir(cwd)
            tempfile.tempdir = old
            for k, f in saved.items():
                setattr(api, k, f)


LOCAL = ["none", "none", "absent", "nested", "empty", "full", "full", "hidden", "subdir", "own", "emptyfile"]
save_opts = st.fixed_dictionaries(dict(local=st.sampled_from(LOCAL), overwrite=st.sampled_from([False, False, True]), repo=st.sampled_from([0, 0, 0, 1, 2]),
                                       revision=st.sampled_from([None, None, None, "dev"]), private=st.sampled_from([None, True, False]), during=st.sampled_from([None] * 6 + ["failure", "failure", "other"])))
load_opts = st.fixed_dictionaries(dict(repo=st.sampled_from([0, 0, 0, 1, 2]), revision=st.sampled_from([None, None, None, "dev"]),
                                       local=st.sampled_from([False, False, True])))
REPOS = ["me/repo", "bare-name", "other/repo"]


@register
class C20(Prop):
    pid = "C20"
    rule = ("sequence of saves (index with or without corpus, vocabulary, stopwords) and loads against a simulated hub x three repositories (two of the same name) and branches x uploads that fail, or during which somebody else uploads x "
            "state of the local directory (none, absent, empty, with other files, with an earlier save) x overwrite x readme; non-trivial: a save "
            "followed by a load of the same kind from the same branch")
    examples = dict(quick=800, thorough=20000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        @st.composite
        def f(draw):
            c = draw(gen.corpus(max_docs=6, big=False))
            idx = st.fixed_dictionaries(dict(params=gen.params(), corpus=gen.corpus(max_docs=6, big=False)))
            op = st.one_of(
                st.tuples(st.just("index"), idx, st.sampled_from([None, "str", "dict", "attached", "both"]), st.sampled_from([True, True, False]), save_opts),
                st.tuples(st.just("vocab"), save_opts), st.tuples(st.just("stopwords"), save_opts),
                st.tuples(st.just("load index"), st.booleans(), st.booleans(), load_opts),
                st.tuples(st.just("load vocab"), load_opts), st.tuples(st.just("load stopwords"), load_opts),
                st.tuples(st.just("more text"), st.lists(st.sampled_from(["new words here", "cats running", "été ß", "the end"]), max_size=2)))
            ops = [list(o) for o in draw(st.lists(op, min_size=1, max_size=7))]
            # load what was saved last, most of the time
            tail = []
            for o in ops:
                if o[0] in ("index", "vocab", "stopwords") and draw(st.integers(0, 3)):
                    lo = dict(repo=o[-1]["repo"], revision=o[-1]["revision"], local=draw(st.booleans()))
                    tail.append(["load index", draw(st.booleans()), draw(st.booleans()), lo] if o[0] == "index" else ["load " + o[0], lo])
            return dict(ops=ops + tail, stemmer=draw(st.sampled_from([None, "snow:english", "prefix3"])), stop=draw(stop_spec(sets=False)),
                        texts=draw(st.lists(st.sampled_from(["a cat and the dog", "running \u00e9t\u00e9 cats", "", "\u65e5\u672c\u8a9e text"]), max_size=3)),
                        impl=draw(st.sampled_from(["default", "default", "builtin"])))
        return f()

    def fixed(self, ctx):
        out = []
        idx = lambda m="lucene": dict(params=dict(FIXED_P, method=m), corpus={"words": ["a", "\u00e9t\u00e9"], "docs": [[0], [1], [0, 1, 1]]})
        so = lambda **kw: dict(dict(local="none", overwrite=False, repo=0, revision=None, private=None), **kw)
        lo = lambda **kw: dict(dict(repo=0, revision=None, local=False), **kw)
        base = dict(stemmer=None, stop=["named", "german"], texts=["a cat and the dog", "\u00e9t\u00e9"], impl="default")
        for impl in ("default", "builtin"):
            for dur in ("failure", "other"):
                for local in ("none", "absent", "full"):
                    for repo in (0, 1, 2):
                        s, bad = so(local=local), so(local=local, during=dur)
                        out.append(dict(base, impl=impl, ops=[["index", idx("bm25l"), "str", True, dict(bad, repo=repo)], ["index", idx(), None, False, s], ["load index", True, False, lo()],
                                                              ["vocab", dict(bad, repo=repo)], ["stopwords", s], ["stopwords", bad], ["vocab", s], ["load vocab", lo()], ["load stopwords", lo()],
                                                              ["index", idx("bm25l"), None, True, dict(so(), repo=2 - repo)], ["load index", False, False, lo(repo=2 - repo)], ["load index", False, True, lo()]]))
        for local in ("none", "absent", "nested", "empty", "full", "hidden", "subdir", "own", "emptyfile"):
            for ow in (False, True):
                for impl in ("default", "builtin"):
                    s = so(local=local, overwrite=ow)
                    for m in ("lucene", "bm25l"):
                        for corpus in (None, "str", "attached"):
                            out.append(dict(base, impl=impl, ops=[["index", idx(m), corpus, True, s]] + [
                                ["load index", lc, mm, lo(local=lc)] for lc in (False, True) for mm in (False, True)]))
                    out.append(dict(base, impl=impl, ops=[["vocab", s], ["stopwords", s], ["load vocab", lo()], ["load stopwords", lo()]]))
                    out.append(dict(base, impl=impl, stemmer="snow:english", ops=[
                        ["stopwords", s], ["load stopwords", lo()], ["vocab", s], ["index", idx(), "dict", False, s], ["load vocab", lo(local=True)],
                        ["load index", True, True, lo(local=True)], ["more text", ["new words"]], ["vocab", s], ["load vocab", lo()],
                        ["index", idx("bm25+"), "both", True, so(local=local, overwrite=ow, revision="dev")],
                        ["load index", True, False, lo(revision="dev")], ["load index", True, False, lo()]]))
        return out

    def run(self, case, ctx):
        M = sut.impl(case["impl"])
        root = ctx.tmp()
        hub = Hub(root)
        spec = dict(lower=True, splitter=r"\w+", stop=case["stop"], stemmer=case["stemmer"], kind="call")

        def tokenizer(stop):
            return M.hf.TokenizerHF(lower=True, splitter=splitter_arg(spec["splitter"]), stopwords=stop, stemmer=word_stemmer(spec["stemmer"], "call"))

        tok = tokenizer(stop_arg(case["stop"]))
        if case["texts"]:
            tok.tokenize(list(case["texts"]), update_vocab=True, show_progress=False)
        state = {}  # (repo, branch) -> what should be there
        own = {}    # kind -> directory of an earlier local save
        work = os.path.join(root, "work")
        os.makedirs(work)
        counter = [0]

        def new_dir():
            counter[0] += 1
            return os.path.join(work, "dir%d" % counter[0])

        def outside(d):
            """Everything in the working directory but d and its parents."""
            rel = os.path.relpath(d, work) + os.sep if d else None
            return {k: v for k, v in tree(work).items() if not d or not ((k + os.sep).startswith(rel) or rel.startswith(k + os.sep))}

        def branch(o):
            key = (hub.full(REPOS[o["repo"]]), o["revision"] or "main")
            if key not in state:
                state[key] = dict(state.get((key[0], "main"), {})) if key[1] != "main" else {}
            return state[key]

        def save(o, what, plain, call, optional=()):
            """call(repo, **kwargs) saves; plain(dir) writes the same files without the hub."""
            ref = new_dir()
            plain(ref)
            want = tree(ref)
            local = o["local"]
            d = None
            if local != "none":
                d = new_dir()
                if local == "nested":
                    d = os.path.join(d, "not", "yet")
                if local == "own" and what in own:
                    d = own[what]
                elif local == "subdir":  # nothing but an empty directory
                    os.makedirs(os.path.join(d, "sub"))
                elif local == "emptyfile":
                    os.makedirs(d)
                    for name in sorted(want) if len(hub.uploads) % 2 else ["x"]:
                        open(os.path.join(d, name), "w").close()
                elif local == "hidden":
                    os.makedirs(os.path.join(d, ".cache"))
                    for name in [".gitignore", ".cache/x"]:
                        with open(os.path.join(d, name), "w") as f:
                            f.write("mine: %s\n" % name)
                elif local in ("empty", "full", "own"):
                    os.makedirs(d)
                    if local != "empty":
                        os.makedirs(os.path.join(d, "sub"))
                        names = ["data.csc.index.npy", "corpus.jsonl", "vocab.tokenizer.json", "README.md"]
                        if o["overwrite"]:  # the whole directory is uploaded: nothing a later load would read
                            names = sorted(want)
                        for name in ["notes.txt", "sub/x"] + names:
                            with open(os.path.join(d, name), "w") as f:
                                f.write("mine: %s\n" % name)
            before = tree(d) if d and os.path.isdir(d) else {}
            others = outside(d)
            kw = dict(revision=o["revision"]) if o["revision"] else {}
            if o["private"] is not None:
                kw["private"] = o["private"]
            if d is not None:
                kw["local_dir"] = pathlib.Path(d) if len(hub.uploads) % 3 == 1 else d
            if o["overwrite"]:
                kw["overwrite_local"] = True
            if o.get("during") == "failure":
                # what a failed upload leaves in the local directory and the temporary one is not specified
                hub.broken = True
                try:
                    call(REPOS[o["repo"]], **kw)
                except ConnectionError:
                    pass
                else:
                    fail("%s: no error although the hub cannot be reached", what)
                finally:
                    hub.broken = False
                if local == "own":
                    own.pop(what, None)
                return False
            if o.get("during") == "other":
                hub.meanwhile = somebody
            places = {p: os.listdir(os.path.join(root, p)) for p in ("tmp", "cwd")}
            n = len(hub.uploads)
            fresh = hub.full(REPOS[o["repo"]]) not in hub.repos
            call(REPOS[o["repo"]], **kw)
            if o.get("during") == "other":
                expect(hub.meanwhile is None and len(hub.uploads) == n + 2, "%s: %d uploads with that of somebody else", what, len(hub.uploads) - n)
            else:
                expect(len(hub.uploads) == n + 1, "%s: %d uploads", what, len(hub.uploads) - n)
            up = hub.uploads[-1]
            expect(up["repo"] == hub.full(REPOS[o["repo"]]) and up["revision"] == (o["revision"] or "main"), "%s: uploaded to %s %s", what,
                   up["repo"], up["revision"])
            if fresh:
                private = True if o["private"] is None else o["private"]
                expect(hub.repos[up["repo"]]["private"] == private, "%s: privacy %r instead of %r", what, hub.repos[up["repo"]]["private"], private)
            locally = d is not None and (not before or o["overwrite"])
            got = {k: v for k, v in up["files"].items() if k not in optional}
            missing = [k for k in optional if k not in up["files"]]
            expect(not missing, "%s: %s not uploaded", what, missing)
            bad = [k for k in want if got.get(k) != want[k]]
            expect(not bad, "%s: uploaded files %s differ from the saved ones", what, bad)
            if locally:
                excess = [k for k in got if k not in want and got[k] != before.get(k)]
            else:
                excess = [k for k in got if k not in want]
            expect(not excess, "%s: more files uploaded than saved: %s", what, excess)
            if d is not None:
                after = tree(d)
                if locally:
                    expect({k: v for k, v in after.items() if v is not None} == dict({k: v for k, v in before.items() if v is not None}, **up["files"]),
                           "%s: the local directory has %s instead of the saved files", what, sorted(after))
                    own[what] = d
                else:
                    expect(after == before, "%s: a non-empty local directory was changed: %s", what,
                           sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0)))
            left = outside(d)
            expect(left == others, "%s: other directories changed", what)
            for place in ("tmp", "cwd"):
                now = os.listdir(os.path.join(root, place))
                expect(sorted(now) == sorted(places[place]), "%s: left behind: %s", what, sorted(set(now) ^ set(places[place])))
            return True

        def somebody():
            """Another index and tokenizer go to repositories of the same names."""
            i = hub.n = hub.n + 1
            r2 = sut.build(dict(method="bm25+"), [["other%d" % i, "zz"], ["zz"]], cls=M.hf.BM25HF)
            ref2 = os.path.join(root, "somebody%d" % i)
            M.BM25.save(r2, ref2, corpus=["x", "y %d" % i])
            r2.save_to_hub("somebody/" + ["repo", "bare-name"][i % 2], corpus=["x", "y %d" % i], include_readme=bool(i % 2))
            got = {k: v for k, v in hub.uploads[-1]["files"].items() if k != "README.md"}
            expect(got == tree(ref2), "an upload at the same time has files %s instead of %s, or others' content", sorted(got), sorted(tree(ref2)))

        def where(o):
            b = state.get((hub.full(REPOS[o["repo"]]), o["revision"] or "main"), {})
            kw = dict(revision=o["revision"]) if o["revision"] else {}
            if o["local"]:
                kw["local_dir"] = new_dir()
            return b, kw

        with hub.active():
            for i, op in enumerate(case["ops"]):
                what, o = op[0], op[-1]
                if what == "index":
                    docs = gen.expand(op[1]["corpus"])
                    kind = op[2]
                    attached = doc_elements("str", len(docs), 1) if kind in ("attached", "both") else None
                    arg = doc_elements("dict" if kind in ("dict", "both") else "str", len(docs), 2) if kind in ("str", "dict", "both") else None
                    r = sut.build(op[1]["params"], docs, cls=M.hf.BM25HF, corpus=attached)
                    if not save(o, what, lambda d: M.BM25.save(r, d, corpus=arg),
                                lambda repo, **kw: r.save_to_hub(repo, corpus=arg, include_readme=op[3], **kw), optional=["README.md"] if op[3] else []):
                        continue
                    corpus = arg if arg is not None else attached
                    b = branch(o)
                    b["index"] = (r, None if corpus is None else stored(corpus))
                elif what == "vocab":
                    if not save(o, what, lambda d: tok.save_vocab(d), lambda repo, **kw: tok.save_vocab_to_hub(repo, **kw)):
                        continue
                    branch(o)["vocab"] = dict(tok.get_vocab_dict()), [list(x) for x in tok.tokenize(PROBE, update_vocab=False, show_progress=False)]
                elif what == "stopwords":
                    if not save(o, what, lambda d: tok.save_stopwords(d), lambda repo, **kw: tok.save_stopwords_to_hub(repo, **kw)):
                        continue
                    branch(o)["stop"] = list(tok.stopwords)
                elif what == "more text":
                    tok.tokenize(list(op[1]), update_vocab=True, show_progress=False)
                elif what == "load index":
                    b, kw = where(o)
                    if "index" not in b:
                        continue
                    r, corpus = b["index"]
                    x = M.hf.BM25HF.load_from_hub(REPOS[o["repo"]], load_corpus=op[1], mmap=op[2], **kw)
                    expect(isinstance(x, M.hf.BM25HF), "loaded a %s", type(x))
                    check_params(x, r, what)
                    expect(x.vocab_dict == r.vocab_dict, "vocabulary: %s", lambda_diff(x.vocab_dict, r.vocab_dict))
                    words = [w for w in r.vocab_dict if w][:5]
                    for w in words + ["zzz"]:
                        expect(bits(x.get_scores([w, "zzz"])) == bits(r.get_scores([w, "zzz"])), "scores of %r differ after loading", w)
                    if op[1] and corpus is not None:
                        same_corpus([x.corpus[j] for j in range(len(x.corpus))], corpus, what)
                elif what == "load vocab":
                    b, kw = where(o)
                    if "vocab" not in b:
                        continue
                    t = tokenizer(stop_arg(case["stop"]))
                    t.load_vocab_from_hub(REPOS[o["repo"]], **kw)
                    vocab, probe = b["vocab"]
                    expect(dict(t.get_vocab_dict()) == vocab, "vocabulary: %s", lambda_diff(t.get_vocab_dict(), vocab))
                    got = [list(x) for x in t.tokenize(PROBE, update_vocab=False, show_progress=False)]
                    expect(got == probe, "the loaded tokenizer gives %r instead of %r", got, probe)
                elif what == "load stopwords":
                    b, kw = where(o)
                    if "stop" not in b:
                        continue
                    t = tokenizer(None)
                    t.load_stopwords_from_hub(REPOS[o["repo"]], **kw)
                    expect(list(t.stopwords) == b["stop"], "stopwords %r instead of %r", list(t.stopwords)[:10], b["stop"][:10])

    def labels(self, case):
        return sorted({o[0] for o in case["ops"]}) + sorted({"local %s%s" % (o[-1]["local"], " overwrite" if o[-1]["overwrite"] else "")
                                                             for o in case["ops"] if isinstance(o[-1], dict) and "overwrite" in o[-1]})

    def nontrivial(self, case):
        seen = set()
        for o in case["ops"]:
            if not isinstance(o[-1], dict):
                continue
            key = (o[-1]["repo"], o[-1]["revision"])
            if o[0].startswith("load "):
                if (o[0][5:],) + key in seen:
                    return True
            else:
                seen.add((o[0],) + key)
        return False


PROBE = ["a cat and the dog", "running \u00e9t\u00e9 cats runs", "", "unknown"]
