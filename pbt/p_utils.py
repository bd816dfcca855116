"""C19 JSON helpers, C26 timers."""
import contextlib
import importlib.util
import io
import json
import os
import random
import re
import sys
import types

from hypothesis import strategies as st

import bm25s

from . import gen, sut
from .core import Prop, expect, fail, register

# ---------------------------------------------------------------- C19

ints = st.one_of(st.integers(-5, 5), st.integers(-2**63, 2**64 - 1), st.sampled_from([2**53, 2**53 + 1, -2**63, 2**63 - 1, 2**63, 2**64 - 1]))
strs = st.one_of(st.sampled_from(gen.ODD + gen.WORDS + [""]), st.text(gen.text_char, max_size=10))
flts = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.1, 1.0, -0.0, 1e22, 1e-7, 123456789.123456789, 5e-324,
                                                                                     1.7976931348623157e308]))
leaf = st.one_of(ints, strs, strs, flts, st.booleans(), st.none())
# dictionaries are pairs, since keys may be integers
value = st.recursive(leaf.map(lambda v: ["v", v]), lambda c: st.one_of(
    st.lists(c, max_size=4).map(lambda x: ["l", x]), st.lists(c, max_size=3).map(lambda x: ["t", x]),
    st.lists(st.tuples(st.one_of(strs, strs, st.integers(-2**63, 2**63 - 1), st.integers(0, 20)), c).map(list), max_size=4,
             unique_by=lambda p: str(p[0])).map(lambda x: ["d", x])), max_leaves=12)


def build(v):
    """-> (Python value, the JSON value it denotes)."""
    if v[0] == "v":
        return v[1], v[1]
    if v[0] in "lt":
        xs = [build(x) for x in v[1]]
        return (list if v[0] == "l" else tuple)(x for x, _ in xs), [y for _, y in xs]
    if v[0] == "deep":
        x, y = build(v[2])
        for i in range(v[1]):
            x, y = ([x], [y]) if i % 2 else ({"k": x}, {"k": y})
        return x, y
    if v[0] == "rng":
        g = random.Random(v[1])
        d = {"%s%d" % (chr(g.randrange(32, 0xD000)), i): i for i in range(v[2])}
        return d, d
    ps = [(k, build(x)) for k, x in v[1]]
    return {k: x for k, (x, _) in ps}, {str(k): y for k, (_, y) in ps}


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


@register
class C19(Prop):
    pid = "C19"
    rule = ("JSON value (any Unicode, 64-bit integers, finite floats, nesting, integer keys) x ensure_ascii on / off / default, serialised and parsed "
            "with each implementation in all four combinations; non-trivial: a container, or text outside of ASCII")
    examples = dict(quick=10000, thorough=300000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        return st.fixed_dictionaries(dict(value=value, ascii=st.sampled_from([True, False, None])))

    def fixed(self, ctx):
        out = []
        for a in (True, False, None):
            for lo in range(0, 0x110000, 0x1000):
                # every character, among others
                step = 1 if lo < 0x10000 else 37
                t = "".join(chr(j) for j in range(lo, lo + 0x1000, step) if not 0xD800 <= j < 0xE000)
                out.append(dict(value=["v", t], ascii=a))
            for v in gen.ODD + [0, -1, 1.5, True, False, None, "", 2**53 + 1, -2**63, 2**64 - 1, 1e308, 5e-324, -0.0]:
                out.append(dict(value=["v", v], ascii=a))
                out.append(dict(value=["d", [[v if isinstance(v, str) else "k", ["l", [["v", v], ["v", v]]]]]], ascii=a))
            for k in (0, -1, 7, 10**15, 2**63 - 1, -2**63):
                out.append(dict(value=["d", [[k, ["v", "\u00e9"]], ["other", ["d", [[k, ["v", k]]]]]]], ascii=a))
            out.append(dict(value=["deep", 120, ["v", "\U0001f600"]], ascii=a))
            out.append(dict(value=["rng", 1, 20000], ascii=a))
            out.append(dict(value=["d", []], ascii=a))
            out.append(dict(value=["l", []], ascii=a))
        return out

    def run(self, case, ctx):
        x, want = build(case["value"])
        kw = {} if case["ascii"] is None else dict(ensure_ascii=case["ascii"])
        impls = dict(default=sut.impl("default").utils.json_functions, builtin=sut.impl("builtin").utils.json_functions)
        for name, j in impls.items():
            text = j.dumps(x, **kw)
            expect(isinstance(text, str), "%s: dumps returns a %s", name, type(text))
            expect("\n" not in text and "\r" not in text, "%s: output on several lines: %r", name, text)
            if case["ascii"] is not False:
                expect(text.isascii(), "%s: output is not ASCII: %r", name, text)
            try:
                std = json.loads(text)
                text.encode("utf-8")
            except ValueError as e:
                fail("%s: invalid JSON %r: %s", name, text, e)
            expect(eq(std, want), "%s: %r does not denote %r", name, text, want)
            for other, k in impls.items():
                got = k.loads(text)
                expect(eq(got, want), "written with %s, read with %s: %r instead of %r", name, other, got, want)
        expect(eq(build(case["value"])[1], want), "harness")

    def labels(self, case):
        return ["ensure_ascii %s" % case["ascii"], "kind " + case["value"][0]]

    def nontrivial(self, case):
        return case["value"][0] != "v" or not str(case["value"][1]).isascii()


# ---------------------------------------------------------------- C26

class Clock:
    def __init__(self, t):
        self.t = t
        self.wall = 0

    def module(self):
        import time as real

        m = types.ModuleType("time")
        for k in dir(real):
            setattr(m, k, getattr(real, k))
        for k in ("monotonic", "perf_counter"):
            setattr(m, k, lambda: self.t)
            setattr(m, k + "_ns", lambda: int(self.t * 10**9))
        # the time of day, which is corrected every now and then
        m.time = lambda: 2.0**30 + self.t + self.wall
        m.time_ns = lambda: int((2**30 + self.t + self.wall) * 10**9)
        for k in ("process_time", "thread_time"):  # the process mostly sleeps
            setattr(m, k, lambda: self.t / 16)
            setattr(m, k + "_ns", lambda: int(self.t * 10**9) // 16)
        return m


@contextlib.contextmanager
def simulated(clock):
    import bm25s.utils.benchmark as real

    saved = sys.modules["time"]
    sys.modules["time"] = clock.module()
    try:
        spec = importlib.util.spec_from_file_location("bm25s.utils.benchmark_simulated", real.__file__)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        yield mod
    finally:
        sys.modules["time"] = saved


NAMES = ["load", "Load", "index all", "a b", "x"]


@register
class C26(Prop):
    pid = "C26"
    rule = ("sequence of start / pause / resume / stop / read / export operations on several timers under a simulated clock that advances in between; "
            "non-trivial: a timer is paused and stopped, or two timers run at once")
    examples = dict(quick=5000, thorough=150000)
    budget = dict(quick=60, thorough=900)

    def cases(self, prof):
        nm = st.sampled_from(NAMES)
        op = st.one_of(
            st.tuples(st.just("start"), nm), st.tuples(st.just("pause"), nm), st.tuples(st.just("resume"), nm),
            st.tuples(st.just("pause"), st.just("load")), st.tuples(st.just("resume"), st.just("load")),
            st.tuples(st.just("stop"), nm, st.booleans()), st.tuples(st.just("elapsed"), nm, st.sampled_from([None, 0, 1, 2, 6, 9])),
            st.tuples(st.just("export"), st.booleans(), st.booleans()), st.tuples(st.just("show_all")), st.tuples(st.just("query"), nm))
        step = st.tuples(op.map(list), st.sampled_from([0, 0.5, 1, 1, 3, 10, 0.0078125, 1000, 86400, 1 / 1024, 1 / 1048576])).map(list)
        return st.fixed_dictionaries(dict(clock=st.sampled_from([0, 0, 0.25, 1000, 2.0**24]), precision=st.sampled_from([None, None, 0, 2, 8]),
                                          prefix=st.sampled_from(["", "p"]), adjust=st.sampled_from([0, 0, 3600, -2]), first=st.sampled_from([[], [[["start", "load"], 1]]]),
                                          steps=st.lists(step, min_size=1, max_size=16)))

    def fixed(self, ctx):
        import itertools

        out = []
        # every short history of one timer
        for n in range(0, 6):
            for seq in itertools.product(("pause", "resume"), repeat=n):
                steps = [[[o, "load"], 2**i] for i, o in enumerate(seq)]
                out.append(dict(clock=0, precision=None, prefix="", first=[[["start", "load"], 64]],
                                steps=steps + [[["stop", "load", False], 1024], [["elapsed", "load", None], 0], [["export", False, False], 1]]))
        # and every short history of one that was stopped before
        for n in range(0, 4):
            for seq in itertools.product(("pause", "resume", "stop"), repeat=n):
                steps = [[[o, "load"] + [False] * (o == "stop"), 2**i] for i, o in enumerate(("stop",) + seq)]
                out.append(dict(clock=0, precision=None, prefix="", first=[[["start", "load"], 64]],
                                steps=steps + [[["stop", "load", False], 1024], [["elapsed", "load", None], 0], [["export", False, False], 1]]))
        return out

    def run(self, case, ctx):
        clock = Clock(case["clock"])
        with simulated(clock) as mod, contextlib.redirect_stdout(io.StringIO()) as shown:
            kw = {} if case["precision"] is None else dict(precision=case["precision"])
            t = mod.Timer(case["prefix"], **kw)
            model = {}  # name -> [total, running since or None, stopped]

            def total(n):
                s, since, _ = model[n]
                return s + (clock.t - since if since is not None else 0)

            def raises(f, what):
                try:
                    f()
                except Exception:
                    return
                fail("%s does not raise an error", what)

            def check(n, what):
                got = t.elapsed(n, precision=9)
                expect(abs(got - model[n][0]) <= 1e-6, "%s: timer %r ran %r, elapsed() says %r", what, n, model[n][0], got)

            for i, (op, dt) in enumerate(case["first"] + case["steps"]):
                what = "step %d %s" % (i, op)
                n = op[1] if len(op) > 1 else None
                if op[0] == "start":
                    if n in model:
                        raises(lambda: t.start(n), what + " (again)")
                    else:
                        t.start(n)
                        model[n] = [0, clock.t, False]
                elif op[0] == "stop":
                    if n not in model:
                        raises(lambda: t.stop(n), what + " (unknown)")
                    else:  # (a timer may be resumed after it was stopped, and stopped again)
                        want = total(n)
                        shown.seek(0)
                        shown.truncate()
                        got = t.stop(n, show=op[2])
                        model[n] = [want, None, True]
                        expect(abs(got - want) <= 1e-6, "%s: stop() returns %r, timer ran %r", what, got, want)
                        if op[2]:
                            digits = min(4, 4 if case["precision"] is None else case["precision"])
                            told = [float(x) for x in re.findall(r"\d+\.\d+", shown.getvalue())]
                            expect(n in shown.getvalue() and any(abs(x - want) <= 0.5000001 * 10.0**-digits + 2e-4 for x in told),
                                   "%s: timer ran %r, shown is %r", what, want, shown.getvalue())
                elif op[0] in ("pause", "resume"):
                    if n in model:
                        getattr(t, op[0])(n)
                        if op[0] == "pause":
                            model[n] = [total(n), None, model[n][2]]
                        elif model[n][1] is None:
                            model[n][1] = clock.t
                elif op[0] == "elapsed":
                    if n not in model or not model[n][2]:
                        raises(lambda: t.elapsed(n), what + " (not stopped)")
                    elif model[n][1] is None:
                        got = t.elapsed(n) if op[2] is None else t.elapsed(n, precision=op[2])
                        digits = op[2] if op[2] is not None else 4 if case["precision"] is None else case["precision"]
                        expect(abs(got - model[n][0]) <= 0.5000001 * 10.0**-digits + 1e-6, "%s: elapsed %r, timer ran %r", what, got, model[n][0])
                        expect(abs(got - round(got, digits)) < 1e-12, "%s: elapsed %r is not rounded to %d decimals", what, got, digits)
                elif op[0] == "export":
                    d = t.to_dict(underscore=op[1], lowercase=op[2])
                    names = {m: (lambda x: x.lower() if op[2] else x)(m.replace(" ", "_") if op[1] else m) for m in model}
                    expect(set(d) == set(names.values()), "%s: exports %s", what, sorted(d))
                    for m in model:
                        if model[m][2] and model[m][1] is None and list(names.values()).count(names[m]) == 1:
                            expect(abs(d[names[m]]["elapsed"] - model[m][0]) <= 1e-6, "%s: exported %r for %r, it ran %r", what,
                                   d[names[m]]["elapsed"], m, model[m][0])
                    for v in d.values():
                        v.clear()
                        v["elapsed"] = -1
                    d.clear()
                elif op[0] == "show_all":
                    t.show_all()
                elif op[0] == "query":
                    expect(bool(t.has_started(n)) == (n in model), "%s: has_started", what)
                    expect(bool(t.has_stopped(n)) == (n in model and model[n][2]), "%s: has_stopped", what)
                for m in model:
                    if model[m][2] and model[m][1] is None:
                        check(m, what)
                clock.t += dt
                clock.wall += case.get("adjust", -2)
            for m in model:
                if not model[m][2] or model[m][1] is not None:
                    want = total(m)
                    got = t.stop(m)
                    expect(abs(got - want) <= 1e-6, "at the end: stop(%r) returns %r, it ran %r", m, got, want)
                    model[m] = [want, None, True]
                clock.t += 1
            for m in model:
                check(m, "at the end")

    def labels(self, case):
        return ["ops %d" % (len(case["steps"]) // 5 * 5)] + sorted({s[0][0] for s in case["steps"]})

    def nontrivial(self, case):
        ops = [s[0] for s in case["first"] + case["steps"]]
        started = {o[1] for o in ops if o[0] == "start"}
        return len(started) > 1 or any(o[0] == "pause" and o[1] in started for o in ops)
