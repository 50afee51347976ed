"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
TECH = {
    "C19": "explicit-state model checking (breadth-first to the fixpoint) on the real objects against a dictionary model",
    "C11": "explicit-state model checking (fixpoint over reachable selection states) plus bounded exhaustive enumeration, on the real code against a reference model",
    "C12": "explicit-state model checking (fixpoint) plus bounded exhaustive enumeration of keyword histories on the real code against a reference model",
    "C13": "stateless model checking: exhaustive exploration of callback answers, aborts, rewinds and faults on the real runner against a reference model",
    "C14": "stateless model checking: every way of driving the same execution, compared with each other and a reference model",
    "C15": "exhaustive exploration of severity-setting histories on the real code against a reference model",
    "C16": "exhaustive exploration of the interleavings of runs on the real code (preemption bounded for long pairs)",
    "C18": "bounded exhaustive enumeration of input texts executed on the real code under a monitor",
    "C20": "bounded exhaustive enumeration of pairs, triples and lists executed on the real classes against the law",
}
TECH["C22"] = "stateless model checking: bounded exhaustive enumeration of programs x faults of the visitors on the real code against a reference model"
DEFAULT = "stateless model checking: bounded exhaustive enumeration of programs x environment answers on the real code against a reference interpreter"
NOTE = {
    "C18": "Every text of the stated families is executed on the real code; texts outside the families (longer token sequences, two distant edits) are not reached. Exhausting memory, time or the recursion limit is out of scope.",
    "C19": "All reachable states for the given keys, values and number of layers, including the hidden attributes; no bound on the length of histories.",
    "C16": "Longer pairs of runs are explored with a bound on preemptions; there is no parallelism in the code, a step is atomic.",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "bash /verif/run %s quick" % p,
        "thorough_cmd": "bash /verif/run %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH.get(p, DEFAULT),
        "level": "model_checking",
        "level_note": NOTE.get(p, "Exhaustive within the bounds named in the evidence file (rule, bounds) on the real code; the reference model "
                                  "is compared with the implementation on every execution. Larger programs than the bound are not reached."),
    })
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": []}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
