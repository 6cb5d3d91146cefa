#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "checks"))
import run
R = run.registry()
TECH = "TLA+ specification model-checked with TLC; executions of the code under controlled schedules validated against it by TLC"
NOTE = ("TLC explores the specification exhaustively in the worlds named in the evidence; the real library code (compiled from /repo, system calls "
        "replaced by a deterministic virtual POSIX world) is executed under many schedules{extra}, and TLC decides of every distinct recorded execution "
        "whether the specification allows it. Bounded: small worlds and scenarios, sampled schedules, sequentially consistent memory. Trusted: TLC, the harness' model of Linux.")
EXTRA = dict(C08=", with a crash at every instruction or system call of the victim", C10=", with signals at every blocking point", C11=", with every system call refused in turn",
             C12=", with refused calls and foreign descriptors", C13=", crashes included", C26=", with ROS replaced by an idealised one", C27=", with ROS replaced by an idealised one")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in R: continue
    c = dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
             technique=R[i].get("technique", TECH), level=R[i].get("level", "model_checking"), level_note=R[i].get("note", NOTE.format(extra=EXTRA.get(i, ""))))
    checks.append(c)
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=i, reason="check under construction") for i in ids if i not in R],
         notes="No hooks in /repo: the harness compiles its unmodified sources against a virtual POSIX world (harness/). Commits in /repo are repairs only (known_findings.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
