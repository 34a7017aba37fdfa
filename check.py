#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--only case] [--verbose]: builds what the check needs from /repo and runs it."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb, registry
def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"): tier = rest.pop(0)
    t = time.time()
    r = registry.CHECKS[prop]
    c = os.path.join(vb.HERE, "checks")
    if "custom" in r:
        raise SystemExit(r["custom"](prop, tier, rest))
    h = vb.host(os.path.join(c, r["host"]), r.get("host_defs", ()))
    ls = []
    for l in r["libs"](tier) if callable(r["libs"]) else r["libs"]:
        if isinstance(l, str): l = {"cfg": l}
        if "avx512" in l["cfg"] and not l.get("bare") and not vb.avx512(): print("%s left out: not supported by this processor" % l["cfg"]); continue
        ls.append((l.get("name", l["cfg"]), vb.lib_async(l["cfg"], os.path.join(c, l.get("rank", r.get("rank"))), l.get("opt", r.get("opt", "-O2")), l.get("defs", ()), l.get("tsan", ()), bare=l.get("bare", False))))
    libs = [(n, f()) for n, f in ls]
    b = h()
    print("built %d configuration(s) of %s in %.1f s" % (len(libs), vb.REPO, time.time() - t)); sys.stdout.flush()
    rc = vb.run_check(prop, b, libs, tier, rest)
    vb.prune()
    raise SystemExit(rc)
main()
