#!/usr/bin/env python3
"""regenerates MANIFEST.json from props.json and properties.jsonl (run by hand after editing props.json)"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(V + "/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
note = ("Bounded: {b} Within these bounds every path of the real code (its optimised LLVM IR, rebuilt from /repo on each run) is executed symbolically and every "
        "assertion decided by Z3 or by the executor's own simplifier; the evidence says when a budget cut the exploration. Violations are reported only after the concrete input fails on the native build. "
        "Trusts: rustc/LLVM, the executor and its term simplifier (sampled against native runs on every check), Z3, stated facts about exp/ln/log2/pow, constant hashing for hash maps.")
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks use the public API only. Known and fixed defects: known-findings.txt."}
for i in ids:
    c = conf[i]
    if c["bounds"] == "x":
        m["not_applicable"].append({"property": i, "reason": "check not finished yet"})
    else:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the compiled LLVM IR with Z3", "level": "model_checking", "level_note": note.format(b=c["bounds"])})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
