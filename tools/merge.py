# merge.py EVIDENCE FLAVOUR OTHER: adds the coverage of the run on another flavour of the library to an evidence file
import json, sys
e = json.load(open(sys.argv[1])); o = json.load(open(sys.argv[3])); c = o["coverage"]
e["coverage"].setdefault("other_flavours", {})[sys.argv[2]] = {k: c[k] for k in ("evaluations", "distinct_nontrivial", "runs_per_hour", "simulated_seconds", "distinct_interleavings", "fault_injecting_runs", "determinism", "worst_error_of_tolerance")}
e["wall_s"] += o["wall_s"]; e["violations"] = e.get("violations", 0) + o.get("violations", 0)
if "violation" in o: e["violation"] = o["violation"]
json.dump(e, open(sys.argv[1], "w"))
