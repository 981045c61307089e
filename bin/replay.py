#!/usr/bin/env python3
"""replay.py FILE: runs the scenario or vector of a VIOLATION's replay file on the current tree and shows the verdict."""
import json, os, shutil, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import knx

d = json.load(open(sys.argv[1]))
work = os.path.join(knx.ROOT, "work", "replay-%d" % os.getpid())
os.makedirs(work)
try:
    knx.build()
    if "vector" in d:
        wrong = knx.codec([d["vector"]], work)[0]
        for line, x, got in wrong:
            print("vector   %s\nwrong    %s\nexpected %s\nobserved %s" % (line, x["w"], x["x"], json.dumps(got)))
        bad = bool(wrong)
    else:
        s = d["scenario"]
        tr = knx.run_scenarios([(s["id"], s["kind"], s["lines"])], work, 1)[s["id"]]
        for st in tr["steps"]:
            for a in st["st"]:
                print("  < " + json.dumps(a)[:200])
            for e in st["ev"]:
                print("      > " + json.dumps(e)[:200])
        v = knx.validate([knx.canon(tr)], work, 1)[0][s["id"]]
        bad = not v["acc"]
        if bad:
            print("deviates at step %d, second %d; the specification allows" % (v["k"], v["t"]))
            for a in (v.get("diag") or {}).get("alts", [])[:10]:
                print("  frames %s returns %s" % (json.dumps(a["o"]), json.dumps(a["r"])))
    print("still violated" if bad else "conforms")
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(work, ignore_errors=True)
