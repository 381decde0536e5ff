#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cfg = json.load(open(os.path.join(V, "checks.json")))
NA = json.load(open(os.path.join(V, "tools/na.json"))) if os.path.exists(os.path.join(V, "tools/na.json")) else {}
T = {
 "": "explicit-state model checking of the real code: bounded exhaustive enumeration of inputs/histories executed on the implementation and compared with an independent reference model on every execution",
 "map": "stateless model checking of the real code with every map-iteration order (deviation-bounded) chosen by a controlled explorer (check-time overlay), plus exhaustive input enumeration",
 "sched": "stateless model checking of the real code under a controlled cooperative scheduler (preemption-bounded enumeration of all interleavings, check-time overlay), with happens-before race detection on each of them in a second build",
 "fault": "exhaustive fault enumeration on the real code: every execution in which one operation of the disk or filesystem fails (thorough: every pair), or files cannot grow beyond a size (operations intercepted by a check-time overlay and a filesystem wrapper), each followed by later uses, against the undisturbed execution",
 "crash": "exhaustive crash-point and torn-write enumeration on the real code (file operations intercepted by a check-time overlay), followed by replay of later runs against a reference",
}
checks = []; na = []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
          "evidence_file": "evidence/%s.json" % i, "technique": T[c.get("tech", "")], "level": "model_checking",
          "level_note": c.get("note", "bounded exhaustive: holds on every execution within the bounds listed in DESIGN.md, not beyond")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
