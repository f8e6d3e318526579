#!/usr/bin/env python3
"""setprop.py ID field value: edits properties.jsonl in place"""
import json, sys, os
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/properties.jsonl"
L = [json.loads(l) for l in open(p)]
for d in L:
    if d["id"] == sys.argv[1]: d[sys.argv[2]] = sys.argv[3]
open(p, "w").write("".join(json.dumps(d) + "\n" for d in L))
