"""One shard of a check (or one replay).  See run.py."""
import argparse
import hashlib
import importlib.abc
import importlib.machinery
import json
import logging
import os
import random
import shutil
import sys
import time
import traceback
import warnings

PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = {"hypothesis", "sortedcontainers", "attr", "attrs"}


class _Finder(importlib.abc.MetaPathFinder):
    """Hypothesis (only) comes from the tools' virtual environment."""

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if path is None and (top in _NAMES or top.startswith("_hypothesis")):
            return importlib.machinery.PathFinder.find_spec(name, [PYVENV])
        return None


sys.meta_path.append(_Finder())
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

from pbt import core  # noqa: E402


class Stop(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


class Runner:
    def __init__(self, prop, a):
        self.prop, self.a = prop, a
        self.ctx = core.Ctx(os.path.join(a.dir, "work"), core.profile(a.shard), a.shard, a.tier)
        self.ev = self.nontrivial = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.failures = []
        self.t_start = None
        self.t_fail = None
        self.budget = prop.budget[a.tier]
        self.stopped = 0
        self.journal = os.path.join(a.dir, "journal.json")
        self.last_partial = time.time()

    def result(self):
        best = sorted(self.failures, key=lambda f: len(canon(f["case"])))[:1]
        return dict(evaluations=self.ev, nontrivial=self.nontrivial, hashes=sorted(self.hashes),
                    labels=self.labels, samples=self.samples, failures=best, rule=self.prop.rule,
                    skipped=self.stopped, known=self.ctx.known_seen)

    def write(self, name, obj):
        path = os.path.join(self.a.dir, name)
        with open(path + ".tmp", "w") as f:
            json.dump(obj, f)
        os.replace(path + ".tmp", path)

    def one(self, case):
        now = time.time()
        if self.t_start is None:
            self.t_start = now
        if self.t_fail is None:
            if now - self.t_start > self.budget:
                self.stopped = 1
                raise Stop()
        elif now - self.t_fail > 45:
            raise Stop()
        text = canon(case)
        case = json.loads(text)  # the check only ever sees what a replay would see
        with open(self.journal, "w") as f:
            f.write('{"case": %s}' % text)
        self.ev += 1
        if self.t_fail is None:
            labels = set(self.prop.labels(case))
            for lab in labels:
                self.labels[lab] = self.labels.get(lab, 0) + 1
            if self.prop.nontrivial(case):
                self.nontrivial += 1
                h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
                if h not in self.hashes:
                    self.hashes.add(h)
                    if len(self.samples) < 2 and len(text) < 1500:
                        self.samples.append(case)
        if now - self.last_partial > 5:
            self.last_partial = now
            self.write("partial.json", self.result())
        try:
            self.prop.run(case, self.ctx)
        except Exception as e:
            if isinstance(e, core.HarnessError):
                raise
            if self.t_fail is None:
                self.t_fail = time.time()
            if isinstance(e, core.Violation):
                msg = str(e)
            else:
                msg = "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
            self.failures.append(dict(case=case, msg=msg))
            raise core.Violation(type(e).__name__) from None
        finally:
            self.ctx.cleanup()

    def explore(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings

        prop, a = self.prop, self.a
        fixed = list(prop.fixed(self.ctx))
        try:
            for n, case in enumerate(fixed):
                if n % a.nshards != a.shard:
                    continue
                try:
                    self.one(case)
                except core.Violation:
                    return
            # the fixed cases do not use up the budget of the generated ones
            self.t_start = None
            h = hashlib.sha256(("%d|%s|%d" % (a.seed, prop.pid, a.shard)).encode()).hexdigest()
            seed = int(h[:12], 16)
            random.seed(seed)

            @hypothesis.seed(seed)
            @settings(max_examples=prop.examples[a.tier], database=None, deadline=None,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet,
                      print_blob=False)
            @given(prop.cases(self.ctx.prof))
            def test(case):
                self.one(case)

            test()
        except Stop:
            pass
        except Exception as e:
            if not self.failures:
                raise core.HarnessError("%s: %s" % (type(e).__name__, e)) from e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--dir", required=True)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = core.get(a.pid)
    r = Runner(prop, a)
    if a.shard % 3 == 1:
        from pbt import sut
        sut.foreign_locale()
    try:
        if a.replay:
            with open(a.replay, encoding="utf-8") as f:
                case = json.load(f)["case"]
            r.budget = 1e9
            try:
                r.one(case)
            except core.Violation:
                pass
        else:
            r.explore()
    except Exception as e:
        traceback.print_exc()
        r.write("out.json", dict(r.result(), error="%s: %s" % (type(e).__name__, e)))
        sys.stdout.flush()
        os._exit(3)
    r.write("out.json", r.result())
    shutil.rmtree(r.ctx.root, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)  # skip interpreter shutdown (thread pools of jax/numba)


if __name__ == "__main__":
    main()
