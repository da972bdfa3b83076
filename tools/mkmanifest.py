#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, props/conf.json and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/props/conf.json"))
T = json.load(open(V + "/tools/techniques.json"))
checks = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    t = T[p]
    checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": t[0],
        "level": conf.get(p, {}).get("level", "exploration"), "level_note": t[1]})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [],
     "notes": "All checks build the library and utilities from /repo's working tree with clang and AddressSanitizer (C38: ThreadSanitizer) into /verif/.build and run generated cases in forked workers. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks))
