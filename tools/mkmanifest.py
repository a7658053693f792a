#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIN = "deterministic simulation with fault injection: seeded schedule and fault search; histories checked for linearizability against an executable reference model"
T = {
 "C01": "deterministic simulation: seeded schedule search; ownership history of every id checked",
 "C13": "deterministic simulation: seeded schedule search with stalled and frozen callers; per-call step bound and deadlock detection",
 "C14": "deterministic simulation: seeded schedule search with vector-clock race detection on every shared access",
}
NOTE = {
 "C01": "Sampled schedules and histories, 1-4 callers, small and huge ranges; every verdict is over a full recorded history.",
 "C13": "The bound is an explicit step budget per call (entries, capacity, request size, overlap); progress is decided with all other callers frozen or holding iterators or selectors.",
 "C14": "Races are judged by happens-before over the simulated sync primitives, independent of the interleaving that happened to run.",
}
d = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": [], "not_applicable": [
 {"property": "C19", "reason": "Parsing range text and id arithmetic are pure functions of one value: no concurrency, time, I/O or other party is involved, so there is no schedule, history or fault to search. Their effects inside trees and id sets are still judged by C07-C10 and C20."}],
 "notes": "No hooks in /repo: the instrumented copy of pkg/... is generated from the working tree at build time and used through go build -overlay. See DESIGN.md."}
for i in [*range(1, 19), 20, 21]:
    p = "C%02d" % i
    d["checks"].append({"property": p, "quick_cmd": f"bin/check.sh {p} quick", "thorough_cmd": f"bin/check.sh {p} thorough",
      "technique": T.get(p, LIN), "level": "exploration",
      "level_note": NOTE.get(p, "Seeded sampling of workloads, faults and schedules (1-4 callers); each history is decided exactly against the model, a clean batch is evidence over the runs made.")})
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(d, indent=1) + "\n")
