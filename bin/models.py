"""Bounded models of MCTunnel and laws of MCCodec, per property: (module constants, invariants/properties)."""

BASE = {"HbPeriod": 3, "ReplyTime": 2, "RetryTime": 1, "CallTime": 2, "QueueCap": 2, "CtlCap": 2, "SeqMod": 256, "TrackFlags": False, "MaxBlocks": 0}


def m(kind, dgs, calls, dg, nc, nf, na, **kw):
    d = dict(BASE)
    d.update({"Kind": kind, "DgNames": dgs.split(), "CallNames": calls.split(), "MaxDg": dg, "MaxCalls": nc, "MaxFaults": nf, "MaxCancel": na})
    d.update(kw)
    return d


ALLSAFE = ["TypeOK"] + ["C%02d" % i for i in range(1, 18)]
LIVE = ["CallsEnd", "Recovers", "KeepsTrying"]

# quick models take some seconds, thorough ones some minutes
QUICK = {
    "C01": [m("client", "conn refuse junk empty dreq", "read status", 3, 1, 1, 0), m("monitor", "conn refuse junk", "sol isconn", 3, 2, 1, 0)],
    "C02": [m("client", "conn conA dreq", "read write", 4, 2, 1, 0, SeqMod=3), m("monitor", "conn dreq", "sol write", 3, 3, 1, 0, SeqMod=4), m("client", "conn dreq", "read write", 3, 2, 0, 0, SeqMod=3, MaxBlocks=1)],
    "C03": [m("client", "conn respA badcemi feat ack junk state", "read", 4, 1, 0, 0), m("monitor", "conn respA shortind feat ack", "next", 4, 1, 1, 0), m("client", "conn respA feat serr", "read", 3, 1, 0, 0, MaxBlocks=1)],
    "C04": [m("monitor", "conn respA conA shortind dreq dres", "next disc", 4, 2, 0, 0)],
    "C05": [m("client", "conn respA readA respB conA", "read", 4, 2, 0, 0), m("client", "conn respA dreq junk", "read write", 3, 2, 0, 1)],
    "C06": [m("client", "conn conA nconA conB respA", "write", 4, 2, 0, 0), m("client", "conn conA nconA serr", "write read", 3, 2, 0, 1)],
    "C07": [m("client", "conn respB conB state dreq dres", "read write status disc", 3, 1, 1, 0)],
    "C08": [m("client", "conn state serr junk dreq", "status", 4, 1, 1, 0), m("monitor", "conn state serr", "next", 4, 1, 1, 0), m("client", "conn state dreq respA", "status", 3, 1, 0, 0, MaxBlocks=1)],
    "C09": [m("client", "conn dres respA conn state", "disc write", 3, 2, 0, 1), m("monitor", "conn dres respA", "disc next isconn", 4, 2, 0, 0)],
    "C10": [m("client", "conn dreq respA", "read status", 4, 1, 1, 0), m("monitor", "conn dreq respA", "next sol", 4, 2, 0, 0)],
    "C11": [m("client", "conn respA junk empty badcemi dreq", "read", 4, 1, 0, 0), m("monitor", "conn respA junk shortind badcemi", "next", 4, 1, 0, 0)],
    "C12": [m("monitor", "conn dreq junk refuse", "lis sol", 4, 2, 1, 0)],
    "C13": [m("search", "sres junk respA empty", "search", 4, 1, 1, 0), m("search", "sres junk", "search", 4, 2, 1, 1)],
    "C14": [m("client", "conn state serr dres respA", "status", 4, 1, 1, 0), m("client", "conn state serr dreq", "status read", 3, 2, 0, 1)],
    "C15": [m("client", "conn respA conA state", "read write status", 3, 2, 0, 1), m("monitor", "conn respA dres", "next sol disc", 3, 2, 0, 1)],
    "C16": [m("client", "conn respA dreq", "read write", 3, 1, 2, 0), m("client", "conn state dres", "status disc", 3, 1, 2, 0), m("monitor", "conn respA", "next sol", 3, 1, 2, 0),
            m("client", "conn dreq dres", "read disc", 3, 1, 1, 0, MaxBlocks=1)],
    "C17": [m("client", "conn respA state serr", "status", 4, 1, 0, 0, QueueCap=1), m("monitor", "conn respA feat dreq", "next", 5, 1, 0, 0, QueueCap=1)],
}
THOROUGH = {
    "C01": [m("client", "conn refuse junk empty dreq", "read status", 4, 2, 1, 0), m("monitor", "conn refuse junk dreq", "sol isconn lis", 4, 2, 1, 1)],
    "C02": [m("client", "conn conA dreq junk", "read write", 4, 3, 1, 0, SeqMod=3), m("monitor", "conn dreq junk", "sol write", 4, 4, 1, 0, SeqMod=4)],
    "C03": [m("client", "conn respA badcemi feat ack junk state", "read", 5, 1, 1, 0), m("monitor", "conn respA shortind feat ack", "next", 5, 2, 1, 0), m("client", "conn respA feat serr dreq", "read", 4, 1, 0, 0, MaxBlocks=2)],
    "C04": [m("monitor", "conn respA conA shortind dreq dres", "next disc", 5, 2, 0, 0), m("monitor", "conn respA shortind junk", "next", 5, 3, 0, 1)],
    "C05": [m("client", "conn respA readA respB conA dreq", "read", 4, 2, 1, 1), m("client", "conn respA readA", "read", 5, 3, 0, 0)],
    "C06": [m("client", "conn conA nconA conB respA dreq", "write", 4, 2, 1, 1), m("client", "conn conA nconA", "write read", 5, 2, 0, 1)],
    "C07": [m("client", "conn respB conB state dreq dres", "read write status disc", 4, 2, 0, 0)],
    "C08": [m("client", "conn state serr junk dreq respA", "status disc", 4, 2, 1, 0), m("monitor", "conn state serr dres", "next sol", 4, 2, 1, 0), m("monitor", "conn respA dreq serr", "next sol", 4, 2, 0, 0, MaxBlocks=2)],
    "C09": [m("client", "conn dres respA state dreq", "disc write status", 4, 2, 1, 0), m("monitor", "conn dres respA dreq", "disc next isconn sol", 4, 2, 0, 1)],
    "C10": [m("client", "conn dreq respA state", "read status disc", 4, 2, 1, 0), m("monitor", "conn dreq respA", "next sol lis", 4, 2, 1, 1)],
    "C11": [m("client", "conn respA junk empty badcemi dreq serr", "read write", 4, 2, 0, 0), m("monitor", "conn respA junk shortind badcemi dres", "next sol", 5, 1, 0, 0)],
    "C12": [m("monitor", "conn dreq junk refuse serr", "lis sol isconn", 5, 2, 1, 0)],
    "C13": [m("search", "sres junk respA empty", "search", 6, 2, 1, 1)],
    "C14": [m("client", "conn state serr dres respA dreq", "status", 4, 2, 1, 1)],
    "C15": [m("client", "conn respA conA state dres", "read write status disc", 3, 3, 0, 1), m("monitor", "conn respA dres", "next sol disc isconn", 3, 3, 0, 1)],
    "C16": [m("client", "conn respA dreq state", "read write status", 3, 2, 2, 0), m("monitor", "conn respA dreq", "next sol lis", 3, 2, 2, 0), m("client", "conn respA dreq dres", "read disc", 3, 2, 1, 0, MaxBlocks=1)],
    "C17": [m("client", "conn respA state serr dreq", "status read", 5, 1, 0, 0, QueueCap=1), m("monitor", "conn respA feat dreq", "next", 6, 2, 0, 0, QueueCap=1)],
}
# liveness under weak fairness of the system's own steps and of time
LIVENESS = {
    "C01": (m("client", "conn refuse junk", "read", 2, 1, 1, 0), ["KeepsTrying", "Recovers"]),
    "C07": (m("client", "conn respB dres", "read write status disc", 2, 1, 0, 0), ["CallsEnd"]),
    "C11": (m("client", "conn junk respA", "read", 3, 1, 0, 0), ["Recovers", "KeepsTrying"]),
    "C10": (m("client", "conn dreq", "read status", 3, 1, 0, 0), ["Recovers", "CallsEnd"]),
    "C16": (m("client", "conn", "read disc", 2, 1, 1, 0, MaxBlocks=1), ["Recovers", "KeepsTrying", "CallsEnd"]),
}
LIVENESS_THOROUGH = {
    p: (m("client", "conn respA dreq dres junk", "read status disc", 3, 1, 1, 0, MaxBlocks=1), LIVE) for p in LIVENESS
}
LAWS = {"C18": ["frame", "noise", "dib"], "C19": ["frame", "dib"], "C20": ["cemi"], "C21": ["telegram"], "C22": ["address"], "C23": ["float"], "C24": ["scal"], "C25": ["label"]}


def value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    return "{" + ", ".join('"%s"' % x for x in v) + "}"


def cfg(consts, spec, invs=(), props=()):
    l = ["SPECIFICATION " + spec, "CONSTANTS"]
    l += ["  %s = %s" % (k, value(v)) for k, v in consts.items()]
    if invs:
        l.append("INVARIANTS " + " ".join(invs))
    if props:
        l.append("PROPERTIES " + " ".join(props))
    l.append("CHECK_DEADLOCK FALSE")
    return "\n".join(l) + "\n"
