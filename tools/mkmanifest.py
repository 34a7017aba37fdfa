#!/usr/bin/env python3
# Writes MANIFEST.json from registry.py (one entry per claimed property)
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import registry
ch = []
for k, r in sorted(registry.CHECKS.items()):
    ch.append(dict(property=k, quick_cmd="python3 check.py %s quick" % k, thorough_cmd="python3 check.py %s thorough" % k,
                   technique=r["technique"], level="model_checking", level_note=r["note"]))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
na = [dict(property=i, reason=registry.NOT_CLAIMED.get(i, "no check yet")) for i in ids if i not in registry.CHECKS]
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'.'); import vb, registry; print('ready')\"", checks=ch, not_applicable=na,
         notes="Every check compiles the code under test straight from /repo's working tree (no hooks in /repo) and links it to the controlled runtime in rt/. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
