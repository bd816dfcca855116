#!/usr/bin/env python3
"""Master of one check:  run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Spawns shards (pbt.worker) that generate cases for the property and decide each of them with its
oracle; collects them, writes evidence/<PROPERTY>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored, 1 violation, 2 error of the machinery.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable

CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL}


def child_env(hashseed, scratch):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO + os.pathsep + HERE,
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONUTF8="1",
        JAX_PLATFORMS="cpu",
        HF_HUB_OFFLINE="1",
        HF_HUB_DISABLE_TELEMETRY="1",
        HF_HOME=os.path.join(scratch, "hf"),
        TMPDIR=scratch,
        NUMBA_NUM_THREADS="4",
        OMP_NUM_THREADS="2",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false",
    )
    env.setdefault("NUMBA_OPT", "0")
    env.pop("DISABLE_TQDM", None)
    env["DISABLE_TQDM"] = "1"
    return env


def spawn(args, scratch, name, hashseed, tqdm=False):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd, exist_ok=True)
    log = open(os.path.join(d, "log"), "ab")
    env = child_env(hashseed, d)
    if tqdm:
        env.pop("DISABLE_TQDM", None)
    p = subprocess.Popen(
        [PY, "-m", "pbt.worker"] + args + ["--dir", d],
        cwd=cwd, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
        start_new_session=True,
    )
    return p, d


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def load(path):
    try:
        with open(path, encoding="utf-8") as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def tail(d, n=2500):
    try:
        with open(os.path.join(d, "log"), "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def replay(path, pid, scratch, name, timeout=90):
    """-> (verdict, message); verdict in ok / violation / crash / hang / error."""
    rec = load(path)
    p, d = spawn([pid, "--replay", os.path.abspath(path)], scratch, name, rec.get("hashseed", 0),
                 rec.get("tqdm", False))
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", "no result within %d s" % timeout
    if rc < 0:
        return "crash", "process killed by signal %d" % -rc
    out = load(os.path.join(d, "out.json")) or {}
    if out.get("failures"):
        return "violation", out["failures"][0]["msg"]
    if rc != 0 or "error" in out or not out:
        return "error", "rc=%d %s\n%s" % (rc, out.get("error", ""), tail(d))
    return "ok", ""


def save_replay(pid, rec):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    text = json.dumps(rec, indent=1, ensure_ascii=True)
    h = hashlib.sha256(json.dumps(rec.get("case"), sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def known_findings(pid):
    out = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as f:
            for line in f:
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2].strip()
                    key, _, what = rest.partition(" ")
                    out[key.split("=", 1)[1]] = what
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.pid
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="bm25s-verif-")
    try:
        if a.replay:
            v, msg = replay(a.replay, pid, scratch, "replay")
            if v in ("violation", "crash", "hang"):
                print("%s: %s" % (v, msg))
                print("VIOLATION property=%s replay=%s" % (pid, a.replay))
                return 1
            print(v, msg)
            return 0 if v == "ok" else 2
        return run(a, pid, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, pid, scratch, t0):
    thorough = a.tier == "thorough"
    nshards = a.shards or (8 if thorough else 6)
    limit = 3300 if thorough else 420
    procs = []
    for i in range(nshards):
        hs = int(hashlib.sha256(("%d|%s|%d" % (a.seed, pid, i)).encode()).hexdigest()[:8], 16)
        args = [pid, "--tier", a.tier, "--seed", str(a.seed), "--shard", str(i), "--nshards", str(nshards)]
        tq = i % 3 == 2
        p, d = spawn(args, scratch, "s%d" % i, hs, tq)
        procs.append((i, p, d, hs, tq))
    results, violations, errors, notes = [], [], [], []
    deadline = t0 + limit
    for i, p, d, hs, tq in procs:
        hung = False
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            kill(p)
            rc, hung = None, True
        out = load(os.path.join(d, "out.json"))
        if out is not None and rc == 0:
            results.append(out)
            for f in out["failures"]:
                violations.append(dict(property=pid, case=f["case"], msg=f["msg"], hashseed=hs, tqdm=tq,
                                       seed=a.seed, shard=i, kind="oracle"))
            continue
        partial = load(os.path.join(d, "partial.json"))
        if partial:
            results.append(partial)
            for f in partial.get("failures", []):
                violations.append(dict(property=pid, case=f["case"], msg=f["msg"], hashseed=hs, tqdm=tq,
                                       seed=a.seed, shard=i, kind="oracle"))
        journal = load(os.path.join(d, "journal.json"))
        crashed = rc is not None and rc < 0 and -rc in CRASH_SIGNALS
        if (crashed or hung) and journal is not None:
            # the process died (or hung) inside of this case
            rec = dict(property=pid, case=journal["case"], hashseed=hs, tqdm=tq, seed=a.seed, shard=i,
                       kind="hang" if hung else "crash",
                       msg="hung" if hung else "process killed by signal %d" % -rc)
            path = save_replay(pid, rec)
            reproduced = False
            for t in range(2):
                v, msg = replay(path, pid, scratch, "re%d_%d" % (i, t), 60)
                if v in ("violation", "crash", "hang"):
                    rec["msg"] += "; on replay: %s %s" % (v, msg)
                    reproduced = True
                    break
            if reproduced or crashed:
                violations.append(rec)
            else:
                notes.append("shard %d stopped at the time limit; its last case passes alone" % i)
            continue
        if rc is not None and rc < 0:
            notes.append("shard %d killed by signal %d (memory?)" % (i, -rc))
            if partial:
                continue
        if hung:
            notes.append("shard %d stopped at the time limit" % i)
            continue
        errors.append("shard %d rc=%s %s\n%s" % (i, rc, (out or {}).get("error", ""), tail(d)))

    distinct, labels, samples, known = set(), {}, [], {}
    ev = nontrivial = skipped = 0
    rule = ""
    for r in results:
        ev += r["evaluations"]
        nontrivial += r["nontrivial"]
        skipped += r.get("skipped", 0)
        distinct.update(r["hashes"])
        rule = r.get("rule", rule)
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        known.update(r.get("known", {}))
        samples.extend(r["samples"])
    listed = known_findings(pid)
    for key, what in sorted(known.items()):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[key] or what))
    best = None
    if violations:
        violations.sort(key=lambda r: (r["kind"] != "oracle", len(json.dumps(r["case"]))))
        best = violations[0]
        path = save_replay(pid, best)
    evidence = dict(
        property=pid, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=ev, distinct_nontrivial=len(distinct), rule=rule,
            samples=samples[:6], nontrivial_evaluations=nontrivial,
            class_counts=dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            shards=nshards, budget_stopped_shards=skipped, notes=notes,
            known_findings_seen=sorted(known),
        ),
        assumptions=["oracles in /verif/pbt are correct", "Hypothesis, numpy, scipy, numba, jax as installed"],
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", "%s.json.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % pid))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        pid, a.tier, a.seed, ev, len(distinct), time.time() - t0))
    for n in notes:
        print("note:", n)
    if a.verbose:
        for k, v in sorted(labels.items(), key=lambda kv: -kv[1]):
            print("   %6d %s" % (v, k))
    if best:
        print("  %s" % best["msg"][:1500])
        print("  case: %s" % json.dumps(best["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:1]:
            print("ERROR (%d shards):" % len(errors), e[:300], "...", e[-1500:])
        return 2
    if ev == 0 or (len(distinct) < 2):
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
