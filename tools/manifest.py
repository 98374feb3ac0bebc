#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
SEQ = "explicit-state model checking of the real code: breadth-first over all operation histories, compared with a reference model"
FAULT = "bounded exhaustive exploration of the real code under a fault injector: every crash point, torn write and failing file operation"
ENUM = "bounded exhaustive enumeration of executions of the real code against a reference model"
SCHED = "stateless model checking of the real code under a controlled scheduler: all thread interleavings up to a preemption bound"
D = {
 "C01": ("model_checking", SEQ, "Every history of adds, flushes, closes, reopenings and kills up to depth 7 (9 thorough) over colliding users and items, on the real change log with a simulated file; trusts the simulated file's os.File semantics."),
 "C02": ("model_checking", SEQ, "Same space as C01; counters after every operation and the file's bytes after every flush and close."),
 "C03": ("fault_enumeration", FAULT, "Every history up to depth 5 (6 thorough), every file operation of the next call, every torn prefix, recovery crashed in turn. Process death, not power loss."),
 "C04": ("fault_enumeration", ENUM, "All truncations, single bytes, byte pairs, ranges, counts and record sequences of small logs, compared byte for byte with an independent parser."),
 "C05": ("fault_enumeration", FAULT, "Every history up to depth 5 (6 thorough), every file operation failing once or for good after every partial length, five continuations each."),
}
done = {}
p = here + "/tools/levels.py"
if os.path.exists(p):
    ns = dict(SEQ=SEQ, FAULT=FAULT, ENUM=ENUM, SCHED=SCHED)
    exec(open(p).read(), ns)
    D.update(ns["D"])
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "verif", "enable": "none needed: the checks build /repo's working tree through go build -overlay, which adds the harness package and instrumented copies of files; nothing in /repo is guarded", "source_commits": []},
 "checks": [], "not_applicable": [], "notes": "Model checking of the real code: see DESIGN.md."}
for q in props:
    i = q["id"]
    if i in D:
        lv, te, no = D[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": te, "level": lv, "level_note": no})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
