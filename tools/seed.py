#!/usr/bin/env python3
"""seed.py ID PROP "needs" "what it breaks" FILE OLD NEW [FILE OLD NEW ...]: makes /verif/seeded/ID/{patch.diff,meta.json} from edits in the scratch worktree /tmp/sw."""
import sys, os, json, subprocess
i, prop, needs, what, *ed = sys.argv[1:]
W = "/tmp/sw"
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", os.environ.get("REV", "HEAD")], text=True).strip()])
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
for k in range(0, len(ed), 3):
    p = os.path.join(W, ed[k]); s = open(p).read()
    if s.count(ed[k + 1]) != 1: sys.exit("%s: %d occurrences of %r" % (ed[k], s.count(ed[k + 1]), ed[k + 1]))
    open(p, "w").write(s.replace(ed[k + 1], ed[k + 2]))
d = os.environ.get("SEEDS", "/tmp/w/seeded") + "/" + i; os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
print(open(d + "/patch.diff").read())
