#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = ("model_checking", "stateless model checking of the real code (DPOR with sleep sets, controlled scheduler)",
  "All thread interleavings (up to commutation of independent steps) of the real resampler on small samples; scheduling points are all lock and task operations, which is sufficient for code without unsafe shared data. Trusted: the stand-ins for parking_lot and rayon-core in shims/, checked against a naive explorer.")
ENUM = ("exploration", "bounded-exhaustive execution of the real code over all inputs of small domains, against an independent reference implementation",
  "Every input of the stated small domains is run through the real code; nothing is said about larger ones. Trusted: the reference implementation in harness/src.")
OPS = ("model_checking", "explicit enumeration of all operation sequences up to a depth on the real code, compared with an abstract model after each",
  "All sequences of operations (and splits over collectors) up to the stated depth, each replayed on the real code; nothing is said about longer ones. Trusted: the abstract model in harness/src.")
FAULT = ("fault_enumeration", "exhaustive fault injection: every run of the real code repeated with each single fault",
  "Every single fault of the stated kinds in each of the listed small runs; nothing is said about several faults or larger runs. Trusted: the fault injector and the comparison with the undisturbed run.")
CHECKS = {
 "C01": SCHED, "C02": SCHED, "C03": SCHED, "C08": SCHED,
 "C04": ENUM, "C05": ENUM, "C06": ENUM, "C07": ENUM, "C09": ENUM, "C10": ENUM, "C11": ENUM, "C12": ENUM, "C13": ENUM, "C16": ENUM, "C21": ENUM, "C22": ENUM, "C23": ENUM, "C24": ENUM, "C25": ENUM, "C26": ENUM,
 "C14": FAULT,
 "C15": FAULT,
 "C17": OPS, "C18": OPS, "C19": OPS, "C20": OPS,
}
NA = {}
props = [json.loads(l)["id"] for l in open(D + "/properties.jsonl")]
checks = []
for p in props:
    if p in CHECKS:
        level, tech, note = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
          "technique": tech, "level": level, "level_note": note, "evidence_file": f"evidence/{p}.json"})
m = {"version": 1, "setup_cmd": "./build.sh",
 "hooks": {"guard": "none", "enable": "No hooks in /repo. The harness workspaces replace parking_lot and rayon-core through [patch.crates-io] with the stand-ins in shims/.", "source_commits": []},
 "checks": checks,
 "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in CHECKS]}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
open(D + "/MANIFEST.json", "a").write("\n")
