"""Writes MANIFEST.json from the registry (pbt/core.py) and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOTES = {
    "C01": ("property-based testing against a float64 reference of the published formulas", "the reference formulas (pbt/ref.py) as published; sampled corpora"),
    "C02": ("property-based testing, invariant over the full score vector", "scores themselves are decided by C01; ties may be broken any way"),
    "C03": ("differential property-based testing of all backends and options", "the sequential numpy path as reference, itself decided by C01/C02"),
    "C04": ("differential property-based testing of input forms", "the token-string form as reference plus the reference formula"),
    "C05": ("metamorphic property-based testing with crash detection", "sampled batches"),
    "C06": ("metamorphic property-based testing", "rounding bounds from the reference formula"),
    "C07": ("property-based testing against indexing of the corpus", "the ids returned without a corpus, decided by C02"),
    "C08": ("metamorphic property-based testing (masked = unmasked x weight)", "unmasked scores decided by C01"),
    "C09": ("stateful property-based testing against freshly built indexes", "thread schedules are those the operating system produces"),
    "C10": ("metamorphic property-based testing (batch vs. single queries)", "single-query answers decided by C02"),
    "C11": ("round-trip property-based testing", "the file system behaves"),
    "C12": ("round-trip property-based testing against a model of the stored form", "the file system behaves"),
    "C13": ("stateful property-based testing against a Python list", "json as parser of the lines"),
    "C14": ("stateful, model-based property-based testing of save/load histories", "no concurrent writer during a save (interrupted saves: C28)"),
    "C15": ("fault injection with generated truncation points", "a file cut short is the fault model"),
    "C16": ("property-based testing against the documented pipeline", "re and PyStemmer as the definition of matches and stems"),
    "C17": ("stateful, model-based property-based testing", "re and the stemmer as given"),
    "C18": ("round-trip and lockstep stateful property-based testing", "the file system behaves"),
    "C19": ("round-trip property-based testing", "the standard json module as second implementation"),
    "C20": ("stateful property-based testing against a simulated hub", "the hub stores and returns the uploaded folder"),
    "C21": ("property-based testing against generated datasets", "urllib's file: scheme stands for the network"),
    "C22": ("property-based testing against directly computed metric definitions", "trec_eval's definitions"),
    "C23": ("property-based testing of top-k invariants", "finite scores"),
    "C24": ("property-based testing with generated invalid requests", "the listed kinds of invalid requests"),
    "C25": ("end-to-end property-based testing against reference tokenizer and formula", "re and PyStemmer as given"),
    "C26": ("stateful property-based testing under a simulated clock", "the clock functions of the time module are what the timer reads"),
    "C27": ("differential property-based testing of installations with and without the optional dependencies", "a module that cannot be imported stands for one that is not installed"),
    "C28": ("stateful property-based testing with injected faults (interrupts at the n-th file operation, file size limits, failing document sources)", "a stop between two file operations or at a file size is the fault model; no power-loss reordering"),
    "C29": ("differential stateful property-based testing across deep copies, pickles, a second process and threads", "thread interleavings are those the interpreter produces at a 1 us switch interval, not enumerated"),
}


def main():
    from pbt.core import MODULES
    checks = []
    for pid in sorted(MODULES):
        if not os.path.exists(os.path.join(HERE, "pbt", MODULES[pid] + ".py")):
            continue
        tech, note = NOTES[pid]
        checks.append(dict(
            property=pid, quick_cmd="python3 run.py %s --tier quick" % pid,
            thorough_cmd="python3 run.py %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid, technique=tech, level="exploration",
            level_note="Explores generated inputs only (see evidence for counts); assumes: " + note + ".",
        ))
    done = {c["property"] for c in checks}
    na = [dict(property="N01", reason="a statement about machine time and resident memory: no input-determined oracle that "
               "generated-input search could decide without false alarms")]
    for pid in sorted(MODULES):
        if pid not in done:
            na.append(dict(property=pid, reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="Checks import bm25s from /repo's working tree (pure Python, nothing to build) and Hypothesis from the tools' "
                   "environment. One check at a time may use all cores. Replays: python3 run.py <PID> --replay FILE.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
