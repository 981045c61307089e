#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough] [--seed N]

Decides one property: (1) exhaustive TLC runs of the specification, (2) conformance of the real code, built from
/repo's working tree, to the specification.  Exit 0 held, 1 VIOLATION, 2 the machinery itself failed."""
import argparse, json, os, random, shutil, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import knx, models, scen, suite, vec, attrib

TUNNEL = ["C%02d" % i for i in range(1, 18)]
CODEC = sorted(vec.PARTS)
# properties of the codecs that also show in what the client sends
BOTH = ["C21"]


def run_models(prop, tier, work, cov):
    """Exhaustive runs: they do not look at the code, so a failure here is ours"""
    todo = []
    if prop in TUNNEL:
        for c in (models.QUICK if tier == "quick" else models.THOROUGH)[prop]:
            todo.append(("MCTunnel", models.cfg(c, "Spec", models.ALLSAFE), c["Kind"]))
        live = models.LIVENESS if tier == "quick" else models.LIVENESS_THOROUGH
        if prop in live:
            c, pr = live[prop]
            todo.append(("MCTunnel", models.cfg(c, "FairSpec", (), pr), "liveness"))
    for law in models.LAWS.get(prop, ()):
        todo.append(("MCCodec", models.cfg({"Law": law, "Fine": 1}, "Spec", ["Holds"]), law))
    for n, (mod, text, name) in enumerate(todo):
        f = os.path.join(work, "model%d.cfg" % n)
        with open(f, "w") as h:
            h.write(text)
        rc, out = knx.tlc(mod, f, work, workers=knx.CORES, heap="12g", timeout=400 if tier == "quick" else 3600)
        g, d = knx.counts(out)
        if rc != 0:
            raise knx.ToolError("model %s of %s failed (rc=%d)\n%s" % (name, prop, rc, out[-3000:]))
        cov["states"] += d
        cov["transitions"] += g
        cov["models"].append({"model": mod, "of": name, "generated": g, "distinct": d})


def known():
    """Entries 'finding: property=<id> key=<key> <text>' of known-findings.txt"""
    res = {}
    f = os.path.join(knx.ROOT, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            w = l.split()
            if len(w) > 2 and w[0] == "finding:":
                res[(w[1].split("=")[1], w[2].split("=")[1])] = " ".join(w[3:])
    return res


def write_replay(prop, n, data):
    d = os.path.join(knx.ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(f, "w") as h:
        json.dump(data, h, indent=1)
    return f


def tunnel(prop, tier, seed, work, cov):
    t0 = time.time()
    scens, info = suite.suite(prop, tier, seed, work)
    cov["timing"]["generate"] = round(time.time() - t0, 1)
    t0 = time.time()
    traces = knx.run_scenarios(scens, work)
    cov["timing"]["run"] = round(time.time() - t0, 1)
    t0 = time.time()
    planned = len(scens)
    scens = [s for s in scens if s[0] in traces]
    canon = {s[0]: knx.canon(traces[s[0]]) for s in scens}
    verdicts, gen, dist = knx.validate(list(canon.values()), work)
    cov["timing"]["validate"] = round(time.time() - t0, 1)
    cov["scenarios"] = info
    cov["traces_validated_against_impl"] += len(verdicts)
    cov["undecided_traces"] = planned - len(verdicts)
    cov["trace_states"] = dist
    cov["stimuli"] = sum(len(s[2]) for s in scens)
    cov["observed_frames"] = sum(len(st["outs"]) for c in canon.values() for st in c["steps"])
    cov["observed_returns"] = sum(len(st["rets"]) for c in canon.values() for st in c["steps"])
    r = random.Random(seed)
    for s in r.sample(scens, min(2, len(scens))):
        cov["samples"].append({"scenario": s[0], "kind": s[1], "stimuli": s[2][:12], "verdict": "accepted" if verdicts.get(s[0], {}).get("acc") else "rejected"})
    byid = {s[0]: s for s in scens}
    bad = [v for v in verdicts.values() if not v["acc"]]
    charged = attrib.charge(bad, canon, byid)
    cov["rejected_traces"] = len(bad)
    out = []
    if bad and not any(prop in c["props"] for c in charged.values()):
        out = later(prop, bad, canon, byid, work)
    for tid, props in sorted(charged.items(), key=lambda x: len(byid[x[0]][2])):
        if prop in props["props"]:
            out.append((props["key"], {"property": prop, "scenario": {"id": tid, "kind": byid[tid][1], "lines": byid[tid][2]},
                                       "step": verdicts[tid]["k"], "second": verdicts[tid]["t"], "facets": props["facets"],
                                       "observed": canon[tid]["steps"][verdicts[tid]["k"] - 1] if verdicts[tid]["k"] <= len(canon[tid]["steps"]) else None,
                                       "allowed": (verdicts[tid].get("diag") or {}).get("alts", [])[:5]}))
    return out, len(bad)


def later(prop, bad, canon, byid, work):
    """The first deviation of a trace may be about another property and a later one about this one"""
    own = set(suite.OWN.get(prop, ())) | {"soak_" + x for x in suite.SOAK.get(prop, ())} | {"sweep_" + x for x in suite.SWEEP.get(prop, ())}
    fam = lambda v: v["id"].split(".")[0]
    todo, n = [], {}
    for v in sorted((v for v in bad if v.get("diag")), key=lambda v: (fam(v) not in own, len(canon[v["id"]]["steps"]))):
        n[fam(v)] = n.get(fam(v), 0) + 1
        if n[fam(v)] <= (12 if fam(v) in own else 2) and len(todo) < 48:
            todo.append((v, []))
    for _ in range(3):
        items = []
        for v, known in todo:
            c = attrib.goes_on(v, canon[v["id"]])
            if c is not None:
                items.append((canon[v["id"]], known + [{"k": v["k"], "t": v["t"], "c": c}]))
        if not items:
            return []
        vs = knx.further(items, work)
        charged = attrib.charge(vs, canon, byid, False)
        byv = {v["id"]: v for v in vs}
        out = [(c["key"], {"property": prop, "scenario": {"id": tid, "kind": byid[tid][1], "lines": byid[tid][2]}, "step": byv[tid]["k"], "second": byv[tid]["t"], "facets": c["facets"],
                           "observed": canon[tid]["steps"][byv[tid]["k"] - 1], "allowed": byv[tid]["diag"]["alts"][:5]})
               for tid, c in charged.items() if prop in c["props"]]
        if out:
            return out
        todo = [(v, next(k for t, k in items if t["id"] == v["id"])) for v in vs]
    return []


def codecs(prop, tier, seed, work, cov):
    lines = vec.vectors(prop, seed, tier != "quick")
    wrong, ok, err, gen, dist = knx.codec(lines, work)
    cov["traces_validated_against_impl"] += len(lines)
    cov["vectors"] = {"total": len(lines), "accepted_by_code": ok, "refused_by_code": err}
    r = random.Random(seed)
    for l in r.sample(lines, 3):
        cov["samples"].append({"vector": l[:300]})
    out = []
    for line, x, got in wrong:
        if prop in attrib.codec(x):
            out.append((x["op"] + "/" + "+".join(sorted(x["w"])), {"property": prop, "vector": line, "wrong": x["w"], "expected": x["x"], "observed": got}))
    return out, len(wrong)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-models", action="store_true", help="conformance only (development)")
    a = ap.parse_args()
    prop, t0 = a.property, time.time()
    work = os.path.join(knx.ROOT, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": [], "timing": {}}
    try:
        knx.build()
        cov["timing"]["build"] = round(time.time() - t0, 1)
        found, rejected = [], 0
        if prop in TUNNEL or prop in BOTH:
            f, n = tunnel(prop, a.tier, a.seed, work, cov)
            found += f
            rejected += n
        if prop in CODEC:
            f, n = codecs(prop, a.tier, a.seed, work, cov)
            found += f
            rejected += n
        t1 = time.time()
        if not found and not a.no_models:
            run_models(prop, a.tier, work, cov)
        cov["timing"]["models"] = round(time.time() - t1, 1)
    except knx.ToolError as e:
        print("ERROR " + str(e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kn = known()
    new, seen = [], set()
    for key, data in found:
        if (prop, key) in kn:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, key)]))
            seen.add(key)
        else:
            new.append((key, data))
    shown = {}
    for key, data in new:
        shown.setdefault(key, data)
    for n, (key, data) in enumerate(list(shown.items())[:5]):
        data["count"] = sum(1 for k, _ in new if k == key)
        print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, n, data)))
        print("  %s: %d case(s), e.g. %s" % (key, data["count"], json.dumps(data.get("facets") or data.get("vector"))[:300]))
    if not new and rejected:
        print("note: %d case(s) deviate from the specification in ways other properties forbid" % rejected)
    cov["other_deviations"] = rejected - len(found)
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": cov,
          "assumptions": attrib.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    os.makedirs(os.path.join(knx.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(knx.ROOT, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s %s: %d traces/vectors conform, %d model states, %.0f s" % (prop, "VIOLATED" if new else "held", cov["traces_validated_against_impl"] - rejected, cov["states"], ev["wall_s"]))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
