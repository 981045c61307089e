"""Shared machinery: build the harness, run scenarios on the real code, validate the traces with TLC."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "knx-harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e["RUST_LOG"] = "off"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build():
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HARNESS, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stderr[-4000:])


def canon(tr):
    """Trace as KnxTrace.tla expects it"""
    steps = []
    for st in tr["steps"]:
        d = sum(a["n"] for a in st["st"] if a["s"] == "adv")
        ev = st["ev"]
        steps.append({
            "st": st["st"], "d": d,
            "outs": [{"t": e["t"], "b": e["b"], "d": e["d"]} for e in ev if e["e"] == "out"],
            "rets": [{"t": e["t"], "o": e["o"], "ok": e["ok"], "v": e["v"]} for e in ev if e["e"] == "ret" and e["ok"] != 2],
            "lg": [e["n"] for e in ev if e["e"] == "lget"],
            "bad": [e["t"] for e in ev if e["e"] in ("panic", "storm")],
        })
    return {"id": tr["id"], "kind": tr["kind"].split("/")[0] if tr["kind"].split("/")[0] in ("client", "monitor") else "search", "steps": steps}


def run_scenarios(scens, work, shards=None):
    """scens: list of (id, kind, [lines]); returns {id: trace}; a scenario that hangs the code gets a 'storm'"""
    shards = shards or CORES
    os.makedirs(work, exist_ok=True)
    parts = [scens[i::shards] for i in range(shards)]

    def one(i):
        todo, res, rounds = list(parts[i]), {}, 0
        while todo:
            inp, out = os.path.join(work, "scen%d.txt" % i), os.path.join(work, "raw%d.ndjson" % i)
            if os.path.exists(out):
                os.unlink(out)
            with open(inp, "w") as f:
                for sid, kind, lines in todo:
                    f.write("S %s %s\n%s\nE\n" % (sid, kind, "\n".join(lines)))
            p = subprocess.run([BIN, "run", inp, out], env=env(), capture_output=True, text=True)
            if os.path.exists(out):
                for l in open(out):
                    if l.endswith("\n"):
                        t = json.loads(l)
                        res[t["id"]] = t
            left = [s for s in todo if s[0] not in res]
            if p.returncode == 0 and left:
                raise ToolError("harness lost scenarios")
            if not left:
                break
            if p.returncode == 0:
                raise ToolError("harness failed: rc=%d %s" % (p.returncode, p.stderr[-500:]))
            rounds += 1
            if p.returncode == 3:       # one hung, the harness has written what it did until then
                todo = left
            else:                       # the first unfinished one killed the process
                sid, kind, lines = left[0]
                res[sid] = {"id": sid, "kind": kind, "steps": [{"st": [{"s": "start"}], "ev": [{"e": "storm", "t": 0}]}], "hang": p.returncode}
                todo = left[1:]
            if rounds >= 3:
                break                   # enough is broken; the rest is not run
        return res

    out = {}
    with ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            out.update(r)
    return out


def tlc(module, cfg, work, extra_env=None, args=(), workers="1", heap="2g", timeout=3600):
    """Runs TLC in SPEC with its own metadir; returns (rc, stdout)"""
    meta = os.path.join(work, "meta-%s-%d" % (os.path.basename(cfg), time.monotonic_ns()))
    os.makedirs(meta, exist_ok=True)
    e = env()
    e.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


def counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def marked(out, tag):
    res = []
    for l in out.splitlines():
        m = re.match(r'^"@%s (.*)"$' % tag, l)
        if m:
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def diagnose(g, d, work):
    """What the specification allows at the given instants of these traces"""
    diag = {}
    try:
        rc, out = tlc("KnxTrace", "KnxTrace.cfg", work, {"KNX_TRACES": g, "KNX_DIAG": d, "KNX_DIAGMODE": "1"}, timeout=120)
    except ToolError:
        return diag
    for x in marked(out, "DIAG"):
        diag.setdefault(x["id"], {"alts": [], "lg": None})["alts"].append(x)
    for x in marked(out, "LGET"):
        diag.setdefault(x["id"], {"alts": [], "lg": None})["lg"] = x["lg"]
    return diag


def further(items, work):
    """items: [(trace, known deviations [{k, t, c}])]. The next deviation of each trace, as verdicts with diagnosis"""
    res = []

    def one(i):
        part = items[i::CORES]
        if not part:
            return []
        g, d = os.path.join(work, "fur%d.ndjson" % i), os.path.join(work, "furd%d.ndjson" % i)

        def write(at):
            with open(g, "w") as h, open(d, "w") as hd:
                for t, f in part:
                    if at is None or t["id"] in at:
                        h.write(json.dumps(t, separators=(",", ":")) + "\n")
                        x = at[t["id"]] if at else {"k": 0, "t": 0}
                        hd.write(json.dumps({"k": x["k"], "t": x["t"], "f": f}) + "\n")

        write(None)
        try:
            rc, out = tlc("KnxTrace", "KnxTrace.cfg", work, {"KNX_TRACES": g, "KNX_DIAG": d, "KNX_DIAGMODE": "2"}, timeout=90)
        except ToolError:
            return []
        bad = {x["id"]: x for x in marked(out, "TRACE") if not x["acc"]}
        if not bad:
            return []
        write(bad)
        diag = diagnose(g, d, work)
        for x in bad.values():
            x["diag"] = diag.get(x["id"])
        return [x for x in bad.values() if x["diag"]]

    with ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(one, range(CORES)):
            res += r
    return res


def validate(traces, work, shards=None):
    """traces: list of canonical traces. Returns (verdicts {id: {...}}, generated, distinct)"""
    shards = min(shards or CORES, max(1, len(traces)))
    # balance by size
    order = sorted(traces, key=lambda t: -sum(len(s["outs"]) + 1 for s in t["steps"]))
    parts = [order[i::shards] for i in range(shards)]
    verd, gen, dist = {}, 0, 0

    def judge(ts, f, limit=None):
        """Verdicts of these traces; when together they take too long, in parts; a single one is left undecided"""
        with open(f, "w") as h:
            for t in ts:
                h.write(json.dumps(t, separators=(",", ":")) + "\n")
        e = {"KNX_TRACES": f, "KNX_DIAG": f, "KNX_DIAGMODE": "0"}
        try:
            rc, out = tlc("KnxTrace", "KnxTrace.cfg", work, e, timeout=limit or 60 + len(ts) // 3)
        except ToolError:
            if len(ts) == 1:
                return [], (0, 0)
            m = min(len(ts), CORES)
            with ThreadPoolExecutor(m) as ex:
                r = list(ex.map(lambda j: judge(ts[j::m], "%s.%d" % (f, j), 60 + len(ts) // 10), range(m)))
            return [x for a in r for x in a[0]], (sum(a[1][0] for a in r), sum(a[1][1] for a in r))
        v = marked(out, "TRACE")
        if rc != 0 or len(v) != len(ts):
            raise ToolError("trace validation failed (rc=%d)\n%s" % (rc, out[-3000:]))
        return v, counts(out)

    def one(i):
        f = os.path.join(work, "traces%d.ndjson" % i)
        v, c = judge(parts[i], f)
        rej = [x for x in v if not x["acc"]]
        diag = {}
        if rej:
            rej.sort(key=lambda x: (x["k"], x["id"]))
            fams, pick = set(), []
            for n, x in enumerate(rej):
                fam = x["id"].split(".")[0]
                if n < 10 or (fam not in fams and len(pick) < 24):
                    pick.append(x)
                fams.add(fam)
            rej = pick
            bad = {x["id"]: x for x in rej}
            g = os.path.join(work, "rej%d.ndjson" % i)
            d = os.path.join(work, "diag%d.ndjson" % i)
            sub = [t for t in parts[i] if t["id"] in bad]
            with open(g, "w") as h, open(d, "w") as hd:
                for t in sub:
                    h.write(json.dumps(t, separators=(",", ":")) + "\n")
                    hd.write(json.dumps({"k": bad[t["id"]]["k"], "t": bad[t["id"]]["t"], "f": []}) + "\n")
            diag = diagnose(g, d, work)
        return v, diag, c

    with ThreadPoolExecutor(shards) as ex:
        for v, diag, c in ex.map(one, range(shards)):
            gen += c[0]
            dist += c[1]
            for x in v:
                x["diag"] = diag.get(x["id"])
                verd[x["id"]] = x
    return verd, gen, dist


def codec(lines, work, shards=None):
    """Runs the vectors on the real code and lets TLC judge the results.
    Returns (wrong [(vector, {op, w, x})], ok, err, generated, distinct)"""
    shards = min(shards or CORES, max(1, len(lines) // 500 + 1))
    os.makedirs(work, exist_ok=True)
    parts = [lines[i::shards] for i in range(shards)]

    def one(i):
        inp, out = os.path.join(work, "vec%d.txt" % i), os.path.join(work, "vec%d.ndjson" % i)
        with open(inp, "w") as f:
            f.write("\n".join(parts[i]) + "\n")
        hung = []
        while True:
            todo = open(inp).read().splitlines()
            e = env()
            if hung:
                e["KNX_FLUSH"] = "1"
            try:
                rc = subprocess.run([BIN, "codec", inp, out], env=e, capture_output=True, timeout=90).returncode
            except subprocess.TimeoutExpired:
                rc = 3
            if rc == 0:
                break
            # a vector hung or killed the process: find it, and go on without it
            if not hung:
                hung = [None]
                continue
            n = open(out).read().count("\n")
            if n >= len(todo) or len(hung) > 3:
                raise ToolError("codec run failed: rc=%d" % rc)
            hung.append(todo.pop(n))
            parts[i] = todo
            with open(inp, "w") as f:
                f.write("\n".join(todo) + "\n")
        hung = hung[1:]
        rc, o = tlc("KnxCodec", "KnxCodec.cfg", work, {"KNX_VECTORS": out})
        done = marked(o, "CODEC")
        if rc != 0 or len(done) != 1 or done[0]["n"] != len(parts[i]):
            raise ToolError("codec validation failed (rc=%d)\n%s" % (rc, o[-3000:]))
        got = open(out).read().splitlines()
        bad = [(h, {"op": h.split()[0], "w": ["panic"], "x": "no hang or abort"}, {"k": 2, "f": [], "e": []}) for h in hung]
        bad += [(parts[i][x["i"] - 1], x, json.loads(got[x["i"] - 1])) for x in marked(o, "WRONG")]
        return bad, done[0], counts(o)

    wrong, ok, err, gen, dist = [], 0, 0, 0, 0
    with ThreadPoolExecutor(shards) as ex:
        for bad, d, c in ex.map(one, range(shards)):
            wrong += bad
            ok += d["ok"]
            err += d["err"]
            gen += c[0]
            dist += c[1]
    return wrong, ok, err, gen, dist
