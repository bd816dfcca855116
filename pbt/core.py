"""Registry of properties and the context a check runs in."""
import importlib
import os
import shutil


class Violation(AssertionError):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The machinery itself failed."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# Every shard compiles numba for one (score dtype, int dtype, non-occurrence) combination only,
# since each combination costs seconds.
_PROFILES = [
    ("float32", "int32", False),
    ("float32", "int32", True),
    ("float64", "int32", True),
    ("float32", "int64", True),
    ("float64", "int64", False),
    ("float32", "int64", False),
    ("float64", "int32", False),
    ("float64", "int64", True),
]


def profile(shard):
    d, i, n = _PROFILES[shard % len(_PROFILES)]
    return dict(dtype=d, int_dtype=i, nnoc=n, shard=shard)


class Ctx:
    def __init__(self, root, prof, shard, tier):
        self.root, self.prof, self.shard, self.tier = root, prof, shard, tier
        self.n = 0
        self.known_seen = {}
        os.makedirs(root, exist_ok=True)

    def tmp(self):
        self.n += 1
        d = os.path.join(self.root, "d%d" % self.n)
        os.makedirs(d)
        return d

    def cleanup(self):
        for name in os.listdir(self.root):
            shutil.rmtree(os.path.join(self.root, name), ignore_errors=True)

    def known(self, pid, key, what):
        """A genuine defect that is listed in known_findings.txt; anything else is a violation."""
        prefix = "known: property=%s key=%s " % (pid, key)
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
        if os.path.exists(path):
            with open(path, encoding="utf-8") as f:
                if any(line.startswith(prefix) for line in f):
                    self.known_seen[key] = what
                    return
        raise Violation(what)


class Prop:
    pid = None
    rule = ""
    examples = dict(quick=400, thorough=20000)
    budget = dict(quick=40, thorough=900)

    def cases(self, prof):
        raise NotImplementedError

    def fixed(self, ctx):
        return []

    def run(self, case, ctx):
        raise NotImplementedError

    def labels(self, case):
        return []

    def nontrivial(self, case):
        return True


_REG = {}
MODULES = {
    "C01": "p_score", "C06": "p_score", "C02": "p_retrieve", "C23": "p_retrieve",
    "C03": "p_retrieve", "C05": "p_retrieve", "C08": "p_retrieve", "C10": "p_retrieve",
    "C07": "p_docs", "C24": "p_invalid", "C04": "p_forms", "C09": "p_history",
    "C11": "p_persist", "C12": "p_persist", "C14": "p_persist", "C15": "p_persist",
    "C13": "p_jsonl", "C16": "p_token", "C17": "p_token", "C18": "p_token",
    "C19": "p_utils", "C21": "p_beir", "C22": "p_beir", "C26": "p_utils",
    "C20": "p_hub", "C25": "p_e2e", "C27": "p_deps", "C28": "p_crash", "C29": "p_copies",
}


def register(cls):
    _REG[cls.pid] = cls()
    return cls


def get(pid):
    importlib.import_module("pbt." + MODULES[pid])
    return _REG[pid]
