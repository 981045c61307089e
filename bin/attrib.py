"""Which properties a deviation from the specification violates.

A rejected trace names the first instant (step, second) that no behaviour of the specification matches, and what the
specification allows there.  The smallest difference between observed and allowed gives facets (what kind of frame or
return is wrong); each facet belongs to the properties that speak about it.  Unusual situations that happened before
(flags of the specification: malformed datagram, fault, concurrency, ...) charge the property about that situation,
but only if the same facet does not also fail without it."""

ASSUMPTIONS = [
    "the harness drives the real code on a single-threaded runtime with virtual time and an interposed UDP socket; true parallelism and real networks are not exercised",
    "datagrams arrive from the gateway's address; the sender address is not varied",
    "the specification's timing is in whole seconds",
]

CONTEXT = {
    "bad": "C11", "badconn": "C11", "badcemi": "C11", "fault": "C16", "dreq": "C10", "cserr": "C08", "full": "C17", "backlog": "C17", "conc": "C15", "cancel": "C15",
    "disc": "C09", "timeout": "C07", "refused": "C01", "noreply": "C01", "ldrop": "C12",
}
FAMILY = {
    "attempts": ["C01"], "numbers": ["C02"], "acks": ["C03"], "delivery": ["C04"], "reads": ["C05"], "writes": ["C06"], "limits": ["C07"], "heartbeat": ["C08"],
    "disconnect": ["C09"], "gwdisc": ["C10"], "fuzz": ["C11"], "trunc": ["C11"], "listeners": ["C12"], "search": ["C13"], "status": ["C14"],
    "concurrent": ["C15"], "preempt": ["C15"], "faults": ["C16"], "slow": ["C17"], "sizes": ["C21"],
}
WAITS = {"read", "write", "status", "disc"}


def sid(b):
    return b[2] * 256 + b[3] if len(b) >= 4 else 0


def is_subseq_diff(obs, exp):
    """Multiset difference: (observed only, expected only)"""
    left = list(exp)
    extra = []
    for x in obs:
        if x in left:
            left.remove(x)
        else:
            extra.append(x)
    return extra, left


def ops_of(canon, upto):
    """call id -> (op, args, time of the call); time of the failing step's begin"""
    now, res = 0, {}
    for k, st in enumerate(canon["steps"][:upto]):
        for a in st["st"]:
            if a["s"] == "call":
                res[a["o"]] = (a["op"], a, now)
        if k < upto - 1:
            now += st["d"]
    return res, now


def facets_of(v, canon, kind):
    """Facets of the smallest difference at the failing instant, with the flags of that alternative"""
    k, t = v["k"], v["t"]
    if k > len(canon["steps"]):
        return None
    st = canon["steps"][k - 1]
    ops, now = ops_of(canon, k)
    now += t
    diag = v.get("diag") or {}
    alts = diag.get("alts") or []
    fl0 = set(alts[0]["fl"]) if alts else set()
    res = []
    if any(x == t for x in st["bad"]):
        res.append(("panic", None, {"running": sorted({ops[o][0] for o in ops})[:1], "late": False, "up": False, "ended": False}))
    lg = diag.get("lg")
    if lg is not None and lg != st["lg"]:
        res.append(("lget", None, {}))
    obs_o = [(tuple(o["b"]), tuple(o["d"])) for o in st["outs"] if o["t"] == t]
    obs_r = [(r["o"], r["ok"], tuple(r["v"])) for r in st["rets"] if r["t"] == t]
    best = None
    for a in alts:
        exp_o = [(tuple(o["b"]), tuple(o["d"])) for o in a["o"]]
        exp_r = [(r["o"], r["ok"], tuple(r["v"])) for r in a["r"]]
        eo, mo = is_subseq_diff(obs_o, exp_o)
        er, mr = is_subseq_diff(obs_r, exp_r)
        cost = len(eo) + len(mo) + len(er) + len(mr)
        # one frame in place of a similar one is a smaller difference than two unrelated ones
        for x in eo:
            if any(sid(x[0]) == sid(y[0]) for y in mo):
                cost -= 0.5
        for x in er:
            if any(x[0] == y[0] for y in mr):
                cost -= 0.5
        if best is None or cost < best[0]:
            best = (cost, a, eo, mo, er, mr, exp_o)
    if best is None:
        return (res or None), fl0
    cost, a, eo, mo, er, mr, exp_o = best
    info = {"up": a.get("up", False), "ended": a["pc"] in ("ended", "end"), "ops": sorted(set(a["ops"].values())) if isinstance(a["ops"], dict) else sorted(set(a["ops"]))}
    active = {ops[o][0] for o in ops} if not info["ops"] else set(info["ops"])
    for b, d in eo:
        twin = next((y for y in mo if sid(y[0]) == sid(b)), None)
        res.append(("out%04x" % sid(b), "changed" if twin else "extra", dict(info, b=b, twin=twin[0] if twin else None, dest=bool(twin) and twin[0] == b, active=active)))
    for b, d in mo:
        if not any(sid(x[0]) == sid(b) for x in eo):
            res.append(("out%04x" % sid(b), "missing", dict(info, b=b, twin=None, active=active)))
    for o, ok, val in er:
        twin = next((y for y in mr if y[0] == o), None)
        op, args, at = ops.get(o, ("?", {}, 0))
        res.append(("ret." + op, "changed" if twin else "extra", dict(info, ok=ok, twin=twin, late=now - at >= 9, at0=now == at, toolong=len(args.get("v", [])) > 253, active=active)))
    for o, ok, val in mr:
        if not any(x[0] == o for x in er):
            op, args, at = ops.get(o, ("?", {}, 0))
            res.append(("ret." + op, "missing", dict(info, ok=ok, twin=None, late=now - at >= 9, at0=now == at, toolong=len(args.get("v", [])) > 253, active=active)))
    if not res:
        # same events in an order that is not allowed
        for i, (x, y) in enumerate(zip(obs_o, exp_o)):
            if x != y:
                for b in (x[0], y[0]):
                    res.append(("out%04x" % sid(b), "order", dict(info, b=b, twin=None, active=active)))
                break
        for r in obs_r:
            op, args, at = ops.get(r[0], ("?", {}, 0))
            res.append(("ret." + op, "order", dict(info, ok=r[1], twin=None, late=False, at0=False, toolong=False, active=active)))
        if len({r[0] for r in obs_r}) > 1:
            res.append(("order", None, info))
    return res, set(a["fl"])


def base(facet, how, i, kind):
    """Properties a facet belongs to by itself"""
    p = set()
    up, ended = i.get("up"), i.get("ended")
    if facet == "panic":
        p.add("C11")
    elif facet == "lget" or facet == "ret.lis":
        p.add("C12")
    elif facet == "order":
        p.add("C15")
    elif facet.startswith("out"):
        s = int(facet[3:], 16)
        b, twin = i.get("b"), i.get("twin")
        if ended and how in ("extra", "changed"):
            p.add("C09")
        if s == 0x0205:
            p.add("C01")
        elif s == 0x0424:
            p |= {"C02", "C12"} if how != "changed" else {"C02"}
            if how == "changed" and b[6:10] == twin[6:10]:
                p = {"C19"}
        elif s == 0x0420:
            if how == "changed":
                if b[6:10] != twin[6:10]:
                    p.add("C02")
                if b[10:] != twin[10:] or b[:6] != twin[:6]:
                    p.add("C21")
            else:
                who = {"read": "C05", "sol": "C21"}
                for op in i.get("active", ()):
                    if op == "write":
                        p.add("C06" if kind == "client" else "C21")
                    elif op in who:
                        p.add(who[op])
                if not up:
                    p.add("C01")
                if not p:
                    p.add("C02")
                p.add("C02") if how == "extra" else None
        elif s == 0x0421:
            p.add("C03")
        elif s == 0x0207:
            if "status" in i.get("active", ()):
                p |= {"C14", "C08"}
            else:
                p.add("C08")
            if not up:
                p.add("C01")
        elif s == 0x0209:
            p.add("C09")
            if not up:
                p.add("C01")
        elif s == 0x020a:
            p.add("C10")
        elif s == 0x0201:
            p.add("C13")
        else:
            p.add("C19")
    elif facet.startswith("ret."):
        op = facet[4:]
        p |= {"read": {"C05"}, "write": {"C06"} if kind == "client" else {"C21", "C01"}, "sol": {"C21", "C01"}, "status": {"C14"}, "disc": {"C09"},
              "next": {"C04"}, "isconn": {"C01"}, "search": {"C13"}, "flush": {"C15"}}.get(op, set())
        if i.get("toolong"):
            p.add("C21")
        if op in WAITS and kind != "search":
            if i.get("late"):
                p.add("C07")
            if i.get("at0") and not up:
                p.add("C01")
        if ended:
            p.add("C09")
    return p


def goes_on(v, canon):
    """After this deviation the trace can be followed further: 0 as the specification says, 1 the session was given up
    and asked for anew although it should not have been; None when it cannot be known how things stand"""
    got = facets_of(v, canon, canon["kind"])
    if got is None or not got[0]:
        return None
    c = 0
    for what, how, i in got[0]:
        if what == "panic" or (what in ("out0205", "out0424") and how in ("missing", "order")):
            return None
        if what == "out0205" and how == "extra":
            c = 1
    if c and len(canon["steps"][v["k"] - 1]["st"]) > 1:
        return None         # when it was given up is not known
    return c


def charge(rejected, canon, byid, context=True):
    """{trace id: {"props": set, "facets": [...], "key": str}}"""
    rows = []
    for v in rejected:
        c = canon[v["id"]]
        kind = c["kind"]
        got = facets_of(v, c, kind)
        fam = v["id"].split(".")[0]
        if got is None or not got[0]:
            fl = got[1] if got else set()
            rows.append((v["id"], kind, None, set(fl), fam))
            continue
        for f in got[0]:
            rows.append((v["id"], kind, f, got[1], fam))
    # smallest sets of circumstances per facet
    group = {}
    for tid, kind, f, fl, fam in rows:
        if f is not None:
            group.setdefault((f[0], f[1]), []).append(frozenset(fl) - {"recon"})
    minimal = {k: {x for x in s if not any(y < x for y in s)} for k, s in group.items()}
    diagnosed = any(f is not None for _, _, f, _, _ in rows)
    out = {}
    for tid, kind, f, fl, fam in rows:
        e = out.setdefault(tid, {"props": set(), "facets": [], "key": ""})
        if f is None:
            if not diagnosed:
                e["props"] |= set(FAMILY.get(fam, [])) | {CONTEXT[x] for x in fl if x in CONTEXT}
                e["key"] = "undiagnosed/" + fam
            continue
        p = base(f[0], f[1], f[2], kind)
        s = frozenset(fl) - {"recon"}
        if context and s in minimal[(f[0], f[1])]:
            ctx = {CONTEXT[x] for x in s if x in CONTEXT}
            p |= ctx
            if f[0] == "panic":
                for op in f[2].get("running", ()):
                    p |= base("ret." + op, "missing", {}, kind)
                if s & {"fault"} and not s & {"bad", "badconn", "badcemi"}:
                    p.discard("C11")
            # a lost session that is not asked for again is about the reason it was lost
            if f[0] == "out0205" and s & {"dreq", "cserr", "bad"} and not s & {"refused", "noreply", "badconn"}:
                p.discard("C01")
        e["props"] |= p
        e["facets"].append({"what": f[0], "how": f[1], "circumstances": sorted(fl), "properties": sorted(p)})
        e["key"] = e["key"] or "%s/%s" % (f[0], f[1])
    return out


def codec(x):
    """Properties a wrong codec result violates"""
    op, w = x["op"], set(x["w"])
    if op.startswith("p.f."):
        return {"C23"}
    if op.startswith("p."):
        return {"C24"}
    if op.startswith("l."):
        return {"C25"} if w - {"panic", "accept"} else {"C23" if op == "l.float" else "C24"}
    if op.startswith("a."):
        return {"C22"}
    if op in ("d.cemi", "d.con", "d.ind"):
        return {"C20"}
    if op in ("e.ldata", "e.apdu", "e.tpdu"):
        return {"C21"}
    if op.startswith("e."):
        return {"C19"}
    p = set()
    if w & {"accept", "fields"}:
        p.add("C18")
    if w & {"bytes"}:
        p.add("C19")
    if w & {"panic"}:
        p |= {"C18"} | ({"C19"} if x["x"].startswith('{"k":1') else set())
    return p
