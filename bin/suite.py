"""Scenarios for a property: hand-made families (scen.py), behaviours generated from the specification by TLC
(GenTunnel: transition cover, random walks)."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import knx, scen

OWN = {
    "C01": ["attempts", "plain", "faults", "gwdisc"], "C02": ["numbers", "concurrent", "plain", "sizes", "burst", "blocked"], "C03": ["acks", "delivery", "slow", "hbrace", "blocked", "extreme"],
    "C04": ["delivery", "slow", "hbrace", "extreme"], "C05": ["reads", "concurrent", "extreme"], "C06": ["writes", "concurrent", "extreme"], "C07": ["limits", "status"], "C08": ["heartbeat", "hbrace", "blocked"],
    "C09": ["disconnect"], "C10": ["gwdisc"], "C11": ["fuzz", "trunc"], "C12": ["listeners"], "C13": ["search"], "C14": ["status", "heartbeat"],
    "C15": ["concurrent", "preempt", "burst"], "C16": ["faults", "blocked"], "C17": ["slow", "acks", "burst"], "C21": ["sizes", "plain"],
}
# long histories
SOAK = {
    "C01": ["attempts", "sessions"], "C02": ["sessions", "calls"], "C03": ["traffic"], "C04": ["traffic"], "C05": ["calls"], "C06": ["calls"], "C07": ["calls"],
    "C08": ["heartbeat", "sessions"], "C09": [], "C10": ["sessions"], "C11": ["sessions", "traffic", "attempts"], "C12": ["listeners"], "C13": ["search"],
    "C14": ["calls"], "C15": ["calls"], "C16": ["attempts", "calls", "sessions"], "C17": ["traffic"], "C21": [],
}
# every value of a field
SWEEP = {
    "C01": ["refusal", "channel"], "C02": ["channel", "telegrams"], "C03": ["frames", "channel"], "C04": ["frames"], "C05": ["values"], "C06": ["confirms"], "C07": ["values", "confirms"],
    "C08": ["state", "channel"], "C09": ["goodbye", "channel"], "C10": ["channel"], "C11": ["unknown", "refusal", "frames"], "C12": ["channel"], "C14": ["state", "channel"],
    "C15": ["telegrams"], "C16": ["errors"], "C17": ["frames"], "C21": ["telegrams"],
}
KINDS = {"C04": ["monitor"], "C12": ["monitor"], "C05": ["client"], "C06": ["client"], "C07": ["client", "monitor"], "C14": ["client"], "C13": []}


def tail(kind, r):
    """What an ordinary session does, after whatever happened before"""
    d = lambda b: "dg " + scen.hx(b)
    ind = lambda n: d(scen.tun(21, n, scen.cemi(0x29, 2563, scen.big(1, [n, 5]))))
    con = lambda n: d(scen.tun(21, n, scen.cemi(0x2e, 2563, scen.big(2, [7, 8]))))
    l = ["adv 45", d(scen.conn_res(21)), "adv 1", ind(77)]
    if kind == "client":
        l += ["call 901 read 2563 0 -", ind(78), "call 902 write 2563 0 0708", con(79), "call 903 status 0 0 -", d(scen.state(21)), "adv %d" % r.choice([12, 61])]
    else:
        l += ["call 901 next 0 0 -", "call 902 sol 2563 0 -", "call 903 isconn 0 0 -", "call 904 write 2563 0 0708", ind(78), "call 905 next 0 0 -", "adv %d" % r.choice([12, 61])]
    l += r.choice([[d(scen.dreq(21)), "adv 1"], [d(scen.conn_res(21)), "adv 1"], ["call 906 disc 0 0 -", d(scen.dres(21)), "adv 61", ind(80)]])
    return l


def settle_tail(x, kind, r):
    """A scenario of the specification, the socket made to work again, then an ordinary session"""
    blocked = [l for l in x if l.endswith("block")]
    return list(x) + (["unblock"] if blocked and blocked[-1].endswith(" block") or blocked[-1:] == ["block"] else []) + tail(kind, r)


def vary(lines, r, kind):
    """Other values in the fields of well-formed frames that nothing depends on, or whose value the specification follows"""
    ip = lambda: r.choice([[0, 0, 0, 0], [255] * 4, [127, 0, 0, 1], [224, 0, 23, 12], [r.randrange(256) for _ in range(4)]])
    port = lambda: scen.w16(r.choice([0, 3671, 65535, r.randrange(65536)]))
    out = []
    for l in lines:
        w = l.split()
        if kind != "search" and r.random() < 0.05 and not (out and out[-1].startswith("+")):
            # from a stranger
            ch = r.randrange(256)
            out.append("xdg " + scen.hx(r.choice([scen.conn_res(ch), scen.conn_res(ch, 36), scen.tun(ch, r.randrange(256), scen.cemi(0x29, 2563, scen.big(1, [7]))), scen.tun(8, 0, scen.cemi(0x2e, 2563, scen.big(2, [7]))), scen.dreq(8),
                                                  scen.dres(8), scen.state(8, 33), scen.state(8), [1, 2, 3], []])))
        if w[-2:-1] == ["serr"]:
            l = " ".join(w[:-1] + [w[-1].replace("1", r.choice("123456789"))])
        if w[-2:] == ["rerr", "111"]:
            l = " ".join(w[:-1] + [str(r.choice([111, 111, 113, 101, 104, 5, 100, 110, 12, 103, 22]))])
        if w[-2:-1] == ["dg"] and w[-1] != "-" and r.random() < 0.5:
            b = list(bytes.fromhex(w[-1]))
            sid = b[2] * 256 + b[3] if len(b) > 5 and b[:2] == [6, 16] else 0
            if sid == 0x206 and len(b) == 20 and b[8] == 8:
                b[9:16] = [r.choice([1, 1, 2, r.randrange(256)])] + ip() + port()
                b[18:20] = [r.randrange(256), r.randrange(256)]
            elif sid == 0x209 and len(b) == 16 and b[8] == 8:
                b[7] = r.choice([0, 0, r.randrange(256)])
                b[9:16] = [r.choice([1, 1, 2, r.randrange(256)])] + ip() + port()
            elif sid in (0x420, 0x423) and len(b) >= 10 and b[6] == 4:
                b[9] = r.choice([0, r.randrange(256)])
                if sid == 0x420 and len(b) >= 21 and b[10] in (0x2e, 0x29, 0x2b) and b[11] == 0:
                    if r.random() < 0.7:
                        b[12] = (b[12] & 1) | (r.choice([r.randrange(256), 0x9c, 0xbc, 0x94, 0xb0, 0, 0xfe]) & 0xfe)
                    if r.random() < 0.3:
                        b[13] = r.choice([0xe0, 0x60, 0xf0, 0x80, 0xd0, r.randrange(256)])
                    if r.random() < 0.5:
                        b[14:16] = [r.randrange(256), r.randrange(256)]
                    if r.random() < 0.2:
                        b[19] = (b[19] & 3) | (r.randrange(64) << 2)
                if sid == 0x423 and len(b) == 13 and b[10] in (2, 6, 7, 8):
                    b[10:13] = [r.choice([2, 6, 7, 8]), r.randrange(256), r.randrange(256)]
            elif sid == 0x421 and len(b) == 10 and b[6] == 4:
                b[7:10] = [r.choice([b[7], r.randrange(256)]), r.randrange(256), r.choice([0, 0, r.randrange(256)])]
            if sid in (0x206, 0x208, 0x209, 0x20a, 0x421, 0x423) and len(b) == b[4] * 256 + b[5] and r.random() < 0.2:
                b += [r.randrange(256) for _ in range(r.choice([1, 2, 10, 60]))]
            w[-1] = scen.hx(b)
            l = " ".join(w)
        out.append(l)
    return out


def cover(kind, depth, work, seed):
    text = open(os.path.join(knx.SPEC, "GenCover_%s.cfg" % kind)).read().replace("Depth = 5", "Depth = %d" % depth)
    f = os.path.join(work, "cover_%s.cfg" % kind)
    with open(f, "w") as h:
        h.write(text)
    rc, out = knx.tlc("GenTunnel", f, work, workers=1, heap="4g", timeout=1800)
    if rc != 0:
        raise knx.ToolError("scenario generation failed\n" + out[-2000:])
    hist = [tuple(x) for x in knx.marked(out, "SCEN")]
    pre = {x[:i] for x in hist for i in range(1, len(x))}
    return sorted({x for x in hist if x not in pre}), knx.counts(out)


def walks(kind, num, work, seed):
    rc, out = knx.tlc("GenTunnel", os.path.join(knx.SPEC, "GenWalk_%s.cfg" % kind), work, args=["-simulate", "num=%d" % num, "-depth", "600", "-seed", str(seed)], workers=1, heap="4g", timeout=1800)
    if rc != 0:
        raise knx.ToolError("scenario generation failed\n" + out[-2000:])
    seen, res = set(), []
    for x in knx.marked(out, "SCEN"):
        p = tuple(x[:-1])
        if p not in seen:
            seen.add(p)
            res.append(x)
    return res


def suite(prop, tier, seed, work):
    quick = tier == "quick"
    own = OWN[prop]
    if prop == "C13":
        weights = {"search": 60 if quick else 1500}
    else:
        weights = {f: (2 if quick else 30) for f in scen.FAMILIES if f != "search" and not f.startswith(("soak", "sweep"))}
        for f in own:
            weights[f] = (40 if quick else 600) // (1 if len(own) < 4 else 2)
    for f in SOAK[prop]:
        weights["soak_" + f] = 3 if quick else 40
    for f in SWEEP.get(prop, ()):
        weights["sweep_" + f] = 2 if quick else 30
    scens = scen.generate(seed, weights)
    info = {"families": len(scens)}
    kinds = KINDS.get(prop, ["client", "monitor"])
    ncover = (1200 if quick else 12000) // max(1, len(kinds))
    nwalk = (80 if quick else 2500) // max(1, len(kinds))
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        for k in kinds:
            jobs.append((k, "cover", ex.submit(cover, k, 5, work, seed)))
            jobs.append((k, "walk", ex.submit(walks, k, nwalk, work, seed)))
        for k, what, j in jobs:
            r = random.Random("%s/%s/%s/%d" % (prop, k, what, seed))
            if what == "cover":
                hist, c = j.result()
                info["cover_" + k] = {"abstract_transitions": c[1], "scenarios": len(hist), "replayed": min(ncover, len(hist))}
                pick = r.sample(hist, min(ncover, len(hist)))
            else:
                pick = j.result()
                info["walks_" + k] = len(pick)
            for i, x in enumerate(pick):
                scens.append(("%s.%s.%d" % (what, k, i), k, settle_tail(x, k, r)))
    r = random.Random("vary/%s/%d" % (prop, seed))
    return [(sid, k, vary(lines, r, k)) if r.random() < 0.5 else (sid, k, lines) for sid, k, lines in scens], info
