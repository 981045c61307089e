"""Scenario families.  Scenarios only stimulate; what must happen is decided by the specification."""
import random


def w16(n):
    return [n >> 8 & 255, n & 255]


def hx(b):
    return bytes(b).hex() if b else "-"


def header(sid, n):
    return [6, 16] + w16(sid) + w16(n)


def hpai(ip, port, code=1):
    return [8, code] + list(ip) + w16(port)


def conn_res(ch, st=0, ip=(192, 168, 10, 19), port=3671, ia=0xfff0):
    return header(0x206, 20) + [ch, st] + hpai(ip, port) + [4, 4] + w16(ia)


def tun(ch, seq, cemi):
    return header(0x420, 10 + len(cemi)) + [4, ch, seq & 255, 0] + cemi


def cemi(mc, dest, apdu, c1=0xbc, src=0x110b, c2=0xe0, info=()):
    return [mc, len(info)] + list(info) + [c1, c2] + w16(src) + w16(dest) + [max(0, len(apdu) - 1)] + apdu


def small(apci, d):
    return [apci >> 2, (apci & 3) << 6 | d & 63]


def big(apci, v):
    return [apci >> 2, (apci & 3) << 6] + list(v)


def ack(ch, seq, st=0):
    return header(0x421, 10) + [4, ch, seq & 255, st]


def feat(ch, seq, f=8, st=0, v=1):
    return header(0x423, 13) + [4, ch, seq & 255, 0, f, st, v]


def state(ch, st=0):
    return header(0x208, 8) + [ch, st]


def dres(ch, st=0):
    return header(0x20a, 8) + [ch, st]


def dreq(ch, ip=(192, 168, 10, 19), port=3671):
    return header(0x209, 16) + [ch, 0] + hpai(ip, port)


def search_res(r, name=b"KNX IP", fams=((2, 1), (4, 1)), ip=None, port=3671, nlen=None):
    ip = ip or [192, 168, r.randrange(256), r.randrange(256)]
    nm = list(name[:30]) + [0] * (30 - len(name[:30]))
    dev = [54, 1, r.choice([2, 3, 16, 32]), r.randrange(2)] + w16(r.randrange(65536)) + w16(r.randrange(65536))
    dev += [r.randrange(256) for _ in range(6)] + [224, 0, 23, r.randrange(256)] + [r.randrange(256) for _ in range(6)] + nm
    svc = [2 + 2 * len(fams) if nlen is None else nlen, 2] + [x for f in fams for x in f]
    body = hpai(ip, port) + dev + svc
    return header(0x202, 6 + len(body)) + body


def dib_of(r, t):
    """A description block of the given type, correctly sized"""
    if t == 1:
        return [54, 1] + [r.choice([2, 4, 16, 32, 0, 1]), r.randrange(256)] + [r.randrange(256) for _ in range(50)]
    n = {2: 2 * r.randrange(0, 8), 3: 14, 4: 18, 5: 2 + 2 * r.randrange(0, 4), 254: 2 + 2 * r.randrange(0, 6)}.get(t, 2 * r.randrange(0, 8))
    return [n + 2, t] + [r.randrange(256) for _ in range(n)]


def odd_search_res(r):
    """Search responses with their blocks in another order, others among them, repeated or absent"""
    ts = r.choice([[2, 1], [1, 3, 2], [3, 1, 2], [1, 254, 2], [1, 2, 254], [1, 2, 3, 4], [1], [2], [1, 1, 2], [1, 2, 2], [1, 5, 2], [1, 6, 2], [2, 2], [3, 4], []])
    body = hpai([192, 168, 1, r.randrange(256)], r.randrange(65536)) + [x for t in ts for x in dib_of(r, t)]
    if r.random() < .2:
        body[1] = r.choice([0, 2, 3])          # TCP, unknown
    return header(0x202, 6 + len(body)) + body


A, B = 2563, 2564


def rand_value(r):
    n = r.choice([1, 2, 2, 4, 14, 15, r.randrange(1, 32), r.choice([0, 100, 200, 253, 254, r.randrange(254)])])
    return r.choice([[r.randrange(256) for _ in range(n)]] * 5 + [[0] * n, [255] * n])


def rand_info(r):
    info = []
    if r.random() < .15:
        n = r.choice([100, 200, 253, r.randrange(253)])
        return [r.choice([1, 3, 6, 254]), n] + [r.randrange(256) for _ in range(n)]
    for _ in range(r.choice([1, 1, 2, 3])):
        d = [r.randrange(256) for _ in range(r.choice([0, 1, 2, 4, 6, 8, 20]))]
        info += [r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 254]), len(d)] + d
    return info


class Sc:
    """One scenario under construction; ch/seq model the gateway's side"""

    def __init__(self, kind, r):
        self.kind, self.r, self.l, self.op, self.ch, self.seq = kind, r, [], 0, 8, 0
        self.lid = 0

    def add(self, line, plus=False):
        self.l.append(("+ " if plus else "") + line)
        return self

    def dg(self, b, plus=False):
        return self.add("dg " + hx(b), plus)

    def adv(self, n):
        return self.add("adv %d" % n)

    def call(self, op, *a, plus=False, k=None):
        self.op += 1
        self.add("call %d %s %s%s" % (self.op, op, " ".join(str(x) for x in a), " k=%d" % k if k is not None else ""), plus)
        return self.op

    def read(self, a=A, **kw):
        return self.call("read", a, **kw)

    def write(self, a=A, v=(1,), sm=0, **kw):
        return self.call("write", a, sm, hx(v), **kw)

    def up(self, ch=None, **kw):
        if ch is not None:
            self.ch = ch
        self.seq = 0
        return self.dg(conn_res(self.ch, **kw))

    def tun(self, c, plus=False):
        self.dg(tun(self.ch, self.seq, c), plus)
        self.seq = (self.seq + 1) & 255
        return self

    def ind(self, a=A, v=None, apci=1, plus=False, **kw):
        if v is None and "info" not in kw and self.r.random() < .04:   # as long as it can be
            v, kw["info"] = [self.r.randrange(256) for _ in range(254)], [1, 253] + [self.r.randrange(256) for _ in range(253)]
        v = v if v is not None else rand_value(self.r)
        if "info" not in kw and self.r.random() < .15:
            kw["info"] = rand_info(self.r)
        more = [self.r.randrange(256) for _ in range(self.r.choice([1, 2, 8]))] if self.r.random() < .08 else []
        return self.tun(cemi(kw.pop("mc", 0x29), a, big(apci, v), **kw) + more, plus)

    def sind(self, a=A, d=1, apci=2, plus=False, **kw):
        return self.tun(cemi(kw.pop("mc", 0x29), a, small(apci, d), **kw), plus)

    def con(self, a=A, neg=False, plus=False):
        c1 = self.r.choice([0xbc, 0xbc, 0x9c, 0x3c, 0x94, self.r.randrange(256)]) & 0xfe
        info = rand_info(self.r) if self.r.random() < .15 else ()
        v = [1] if self.r.random() < .6 else rand_value(self.r)
        return self.tun(cemi(0x2e, a, self.r.choice([big(2, v), big(2, v), big(0, v), small(self.r.choice([0, 2]), self.r.randrange(64))]), c1=c1 | (1 if neg else 0), info=info), plus)

    def hb(self):
        return self.dg(state(self.ch))

    def done(self):
        return (self.kind, self.l)


def probe(s, full=True):
    """Afterwards everything must work: a session can be had, calls are answered, heartbeats go on"""
    r = s.r
    if s.kind == "client":
        s.adv(41).up(r.choice([8, 21, 200]))
        s.read()
        s.ind()
        s.write(v=[r.randrange(256)])
        s.con()
        if full:
            s.call("status")
            s.hb()
            s.adv(61).hb()
    else:
        s.adv(41).up(r.choice([8, 21, 200]))
        s.call("isconn")
        s.ind()
        s.call("next")
        s.write(v=[r.randrange(256), 1])
        if full:
            s.adv(61).hb()
            s.call("sol", B)
    return s


def warm(s):
    s.up()
    if s.kind == "client":
        s.read()
        s.ind()
        s.write()
        s.con()
    else:
        s.call("next")
        s.ind()
        s.write()
    return s


def bad_datagram(r, ch=8):
    """Something a gateway should not send"""
    good = [conn_res(ch), conn_res(ch, 0x24), tun(ch, r.randrange(256), cemi(0x29, A, big(1, [1, 2]))), ack(ch, 3), feat(ch, 4), state(ch), state(ch, 0x21),
            dres(ch), dreq(ch), search_res(r)]
    k = r.randrange(9)
    b = list(r.choice(good))
    if k == 0:
        return [r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 60]))]
    if k == 1:
        return b[:r.randrange(1, len(b))]
    if k == 2:
        b[r.randrange(len(b))] = r.randrange(256)
        return b
    if k == 3:
        b[r.randrange(min(len(b), 10))] = r.choice([0, 1, 4, 6, 8, 16, 255])
        return b
    if k == 4:
        return b + [r.randrange(256) for _ in range(r.choice([1, 2, 50, 900, 1100]))]
    if k == 5:
        return header(r.choice([0x201, 0x202, 0x203, 0x204, 0x205, 0x206, 0x207, 0x420, 0x421, 0x422, 0x423, 0x424, 0x530, r.randrange(65536)]), 6) + \
            [r.randrange(256) for _ in range(r.randrange(0, 20))]
    if k == 6:
        return tun(ch, r.randrange(256), [r.randrange(256) for _ in range(r.randrange(0, 16))])
    if k == 7:
        n = r.choice([0, 1, 2, 5, 9, 10, 11, 255, 256, 1000, 65535])
        b[4:6] = w16(n)
        return b
    return tun(ch, r.randrange(256), [r.choice([0x29, 0x2e, 0x2b, 0x11]), r.choice([0, 2, 4, 255])] + [r.choice([1, 3, 3, 4, 10, 254, 255, 0])] +
               [r.randrange(0, 12) for _ in range(r.randrange(0, 14))])


# ---------------------------------------------------------------- families
def f_plain(r):
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        s.up(r.choice([1, 8, 77, 255]), ip=[r.randrange(256) for _ in range(4)], port=r.randrange(65536))
        if kind == "client":
            for _ in range(6):
                k = r.randrange(4)
                a = r.randrange(65536)
                if k == 0:
                    s.read(a)
                    s.con(a)
                    s.ind(a)
                elif k == 1:
                    s.write(a, [r.randrange(256) for _ in range(r.choice([1, 2, 4, 14]))])
                    s.con(a)
                elif k == 2:
                    s.write(a, [r.randrange(64)], sm=1)
                    s.con(a)
                    s.ind(a, apci=2)
                else:
                    s.read(a)
                    s.sind(a, r.randrange(64), r.choice([1, 2]))
                s.adv(r.choice([1, 2, 7]))
        else:
            for _ in range(6):
                k = r.randrange(5)
                a = r.randrange(65536)
                if k == 0:
                    s.call("next")
                    s.ind(a, mc=r.choice([0x29, 0x2b]), c1=r.randrange(256), src=r.randrange(65536))
                elif k == 1:
                    s.ind(a, apci=r.choice([0, 1, 2, 5]), c1=r.randrange(256))
                    s.call("next")
                elif k == 2:
                    s.write(a, [r.randrange(256) for _ in range(r.choice([1, 2, 14]))])
                    s.con(a)
                elif k == 3:
                    s.call("sol", a)
                    s.con(a)
                else:
                    s.call("isconn")
                s.adv(r.choice([1, 2, 7]))
        s.adv(120).hb()
        yield s.done()


def f_attempts(r):
    """C01: attempts that fail in all ways, calls meanwhile"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        for _ in range(r.choice([1, 2, 4, 12])):
            k = r.randrange(8)
            if k == 0:
                s.adv(r.choice([29, 30, 31, 40]))
            elif k == 1:
                s.dg(conn_res(r.randrange(256), r.choice([1, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x29, 255])))
            elif k == 2:
                s.dg(header(0x206, 8) + [r.randrange(256), r.choice([0, 0x22, 0x23, 0x24, 0x29])])
            elif k == 3:
                s.dg(bad_datagram(r))
            elif k == 4:
                b = conn_res(8)
                i = r.choice([0, 1, 2, 3, 8, 16, 17])
                b[i] = (b[i] + r.choice([1, 255])) % 256
                s.dg(b)
            elif k == 5:
                s.dg(conn_res(8)[:r.randrange(0, 20)])
            elif k == 6:
                s.dg(r.choice([state(8), dres(8), dreq(8), ack(8, 0), tun(8, 0, cemi(0x29, A, big(1, [1, 2])))]))
            else:
                s.adv(r.randrange(1, 12))
            for _ in range(r.randrange(3)):
                idle_call(s)
            s.adv(r.choice([0, 1, 5, 9, 10, 11]) or 1)
        probe(s)
        yield s.done()
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        s.adv(3600 if r.random() < .5 else 400)
        for _ in range(3):
            s.dg(conn_res(9, 0x24)).adv(10)
        probe(s)
        yield s.done()


def idle_call(s):
    r = s.r
    if s.kind == "client":
        k = r.randrange(4)
        if k == 0:
            s.read()
        elif k == 1:
            s.write(v=[1, 2])
        elif k == 2:
            s.call("status")
        else:
            s.call("disc")
    else:
        k = r.randrange(4)
        if k == 0:
            s.call("isconn")
        elif k == 1:
            s.write(v=[1, 2])
        elif k == 2:
            s.call("sol", A)
        else:
            s.call("disc")


def f_numbers(r):
    """C02: long runs of requests, over the wrap and over several sessions"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        s.up(8)
        n = r.choice([270, 300, 530]) if r.random() < .4 else r.choice([5, 20])
        for i in range(n):
            a = A + i % 5
            if kind == "client":
                if r.random() < .2:
                    s.read(a)
                    s.ind(a, [i & 255])
                else:
                    s.write(a, [i & 255])
                    s.con(a, neg=r.random() < .05)
            else:
                if r.random() < .2:
                    s.call("sol", a)
                else:
                    s.write(a, [i & 255])
            if i % 50 == 49:
                s.adv(61).hb()
        yield s.done()
        s = Sc(kind, r)
        for _ in range(r.choice([2, 3, 5])):
            s.up(r.randrange(256))
            for i in range(r.randrange(0, 6)):
                if r.random() < .25:
                    s.add("serr 1")
                if kind == "client":
                    s.write(A, [i])
                    if r.random() < .7:
                        s.con(A)
                    else:
                        s.adv(10)
                else:
                    s.write(A, [i])
            drop_session(s)
        probe(s)
        yield s.done()


def drop_session(s):
    r = s.r
    k = r.randrange(5)
    if k == 0:
        s.dg(dreq(s.ch))
    elif k == 1:
        s.dg(state(s.ch, r.choice([0x21, 0x26, 0x27, 1, 255])))
    elif k == 2:
        s.add("rerr %d" % r.choice([111, 113, 104, 5]))
    elif k == 3:
        s.dg(header(0x530, 10) + [1, 2, 3, 4])
    else:
        s.dg([6, 16, 4, 32, 0])
    return s


def f_acks(r):
    """C03"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        warm(s)
        for _ in range(12):
            k = r.randrange(8)
            ch, seq = r.choice([s.ch, s.ch, r.randrange(256)]), r.randrange(256)
            plus = r.random() < .3
            if k == 0:
                s.dg(tun(ch, seq, cemi(r.choice([0x29, 0x2e, 0x2b, 0x11, 0xfb]), r.randrange(65536), big(r.randrange(16), [r.randrange(256)] * r.randrange(0, 15)))), plus)
            elif k == 1:
                s.dg(feat(ch, seq, r.choice([2, 6, 7, 8]), r.choice([0, 1, 255]), r.randrange(256)), plus)
            elif k == 2:
                s.dg(tun(ch, seq, [r.randrange(256) for _ in range(r.randrange(0, 12))]), plus)
            elif k == 3:
                b = tun(ch, seq, cemi(0x29, A, big(2, [1, 2])))
                s.dg(b, True)
                s.dg(b, plus)
            elif k == 4:
                s.dg(ack(ch, seq, r.choice([0, 0x21, 255])), plus)
            elif k == 5:
                s.dg(tun(ch, seq, cemi(0x29, A, big(2, [1, 2]))) + [0] * r.randrange(1, 5), plus)
            elif k == 6:
                s.dg(state(ch), plus)
            else:
                s.dg(tun(ch, seq, []), plus)
            if plus is False and r.random() < .3:
                s.adv(r.choice([1, 30, 61]))
        probe(s)
        yield s.done()
    # every sequence number and channel once
    s = Sc("monitor" if r.random() < .5 else "client", r)
    s.up()
    m, off = r.choice([1, 3, 5, 7]), r.randrange(256)
    for i in range(256):
        s.dg(tun(i * m & 255, i + off & 255, [0xfb, 0]), plus=i % 4 != 3)
    yield s.done()


def rand_ind(s, plus=False):
    r = s.r
    k = r.randrange(10)
    a = r.randrange(65536)
    c1, c2, src = r.randrange(256), r.randrange(256), r.randrange(65536)
    if k < 4:
        s.ind(a, mc=r.choice([0x29, 0x2b]), c1=c1, c2=c2, src=src, apci=r.randrange(16), plus=plus)
    elif k < 6:
        s.sind(a, r.randrange(64), r.randrange(16), mc=r.choice([0x29, 0x2b]), c1=c1, c2=c2, src=src, plus=plus)
    elif k == 6:
        s.con(a, plus=plus)
    elif k == 7:
        b = cemi(r.choice([0x29, 0x2b, 0x2e]), a, big(2, [1, 2]))
        s.tun(b[:r.randrange(2, len(b))], plus)
    elif k == 8:
        s.tun(cemi(0x29, a, big(1, [r.randrange(256)]), info=[3, 1, r.randrange(256)] + ([4, 2, 1, 2] if r.random() < .5 else [])), plus)
    else:
        s.tun([r.choice([0x11, 0xfb, 0x2d, 0x00]), 0] + [r.randrange(256)] * 8, plus)


def f_delivery(r):
    """C04"""
    s = Sc("monitor", r)
    s.up()
    waiting = 0
    for _ in range(25):
        k = r.randrange(10)
        if k < 5:
            rand_ind(s, plus=r.random() < .3)
        elif k < 8:
            s.call("next")
            waiting += 1
        elif k == 8:
            s.adv(r.choice([1, 3, 60]))
        else:
            drop_session(s)
            s.up(r.randrange(256))
    for _ in range(6):
        s.call("next")
    yield s.done()
    s = Sc("monitor", r)
    s.up()
    n = r.choice([99, 100, 101, 130, 250])
    for i in range(n):
        s.ind(i, [i & 255, i >> 8], plus=i % 10 != 9)
    s.hb()
    if r.random() < .4:
        drop_session(s)
        s.up(9)
    for i in range(r.choice([3, 100, 103])):
        s.call("next")
    s.ind(A, [77])
    s.call("next")
    yield s.done()
    # several consumers, abandoned consumers, other calls in progress (a disconnection without answer, a blocked request)
    s = Sc("monitor", r)
    s.up()
    ids = []
    busy = r.choice(["", "", "disc", "block"])
    if busy:
        for _ in range(r.randrange(3)):
            ids.append(s.call("next"))
        if busy == "block":
            s.add("block")
            s.call("sol", A)
        else:
            s.call("disc")
        s.adv(r.choice([1, 2, 5]))
        for _ in range(r.randrange(1, 4)):
            s.ind(r.randrange(65536), plus=r.random() < .3)
            if ids and r.random() < .6:
                s.add("cancel %d" % ids.pop(0))
        s.adv(1)
        if busy == "block":
            s.add("unblock")
        elif r.random() < .3:
            s.dg(dres(s.ch))
        s.adv(10)
        ids = []
    for _ in range(14):
        k = r.randrange(4)
        if k == 0 and len(ids) < 3:
            ids.append(s.call("next", plus=r.random() < .3))
        elif k == 1 and ids:
            s.add("cancel %d" % ids.pop(r.randrange(len(ids))), plus=r.random() < .3)
        else:
            s.ind(r.randrange(65536), plus=r.random() < .3)
            ids = ids[1:]
    s.adv(1)
    s.call("next")
    s.call("next")
    s.ind()
    s.ind()
    yield s.done()


def noise(s, a, kinds, plus=False):
    r = s.r
    k = r.choice(kinds)
    o = (a ^ (1 << r.randrange(16)))
    if k == "otherind":
        s.ind(o, apci=r.choice([1, 2]), plus=plus)
    elif k == "read":
        s.sind(a, 0, 0, plus=plus)
    elif k == "apci":
        s.ind(a, apci=r.choice([0, 3, 4, 5, 9, 10, 15]), plus=plus)
    elif k == "con":
        s.con(a, plus=plus)
    elif k == "ncon":
        s.con(a, neg=True, plus=plus)
    elif k == "othercon":
        s.con(o, neg=r.random() < .5, plus=plus)
    elif k == "busmon":
        s.ind(a, mc=0x2b, plus=plus)
    elif k == "short":
        b = cemi(0x29, a, big(1, [1, 2]))
        s.tun(b[:r.randrange(2, len(b) - 1)], plus)
    elif k == "shortcon":
        b = cemi(0x2e, a, big(1, [1, 2]))
        s.tun(b[:r.randrange(2, 8)], plus)
    elif k == "badcemi":
        s.tun([0x29], plus)
    elif k == "req":
        s.ind(a, mc=0x11, plus=plus)
    elif k == "ind":
        s.ind(a, apci=r.choice([1, 2]), plus=plus)
    elif k == "ack":
        s.dg(ack(s.ch, r.randrange(256), r.choice([0, 0x29])), plus)
    elif k == "feat":
        s.dg(feat(s.ch, r.randrange(256)), plus)
    elif k == "state":
        s.dg(state(s.ch), plus)


READ_NOISE = ["otherind", "read", "apci", "con", "ncon", "othercon", "busmon", "short", "shortcon", "badcemi", "req", "ack", "feat", "state"]
WRITE_NOISE = ["ind", "otherind", "read", "apci", "othercon", "busmon", "short", "shortcon", "badcemi", "req", "ack", "feat", "state"]


def f_reads(r):
    """C05, C07"""
    s = Sc("client", r)
    warm(s)
    for _ in range(5):
        a = r.choice([A, B, r.randrange(65536)])
        for _ in range(r.randrange(3)):
            noise(s, a, READ_NOISE + ["ind", "ind"])
        left = 10
        s.read(a)
        for _ in range(r.randrange(5)):
            noise(s, a, READ_NOISE, plus=r.random() < .2)
            if r.random() < .5 and left > 1:
                d = r.randrange(1, left)
                left -= d
                s.adv(d)
        k = r.randrange(5)
        if k == 0:
            s.adv(left)
            s.ind(a)
        elif k == 1:
            if left > 1:
                s.adv(left - 1)
            s.ind(a)
        elif k == 2:
            s.sind(a, r.randrange(64), r.choice([1, 2]), plus=True)
            s.ind(a)
        elif k == 3:
            s.ind(a, apci=r.choice([1, 2]))
        else:
            s.ind(a, c1=r.randrange(256), src=r.randrange(65536), c2=r.randrange(256))
    probe(s, False)
    yield s.done()


def f_writes(r):
    """C06, C07"""
    s = Sc("client", r)
    warm(s)
    for _ in range(5):
        a = r.choice([A, B, r.randrange(65536)])
        for _ in range(r.randrange(3)):
            noise(s, a, WRITE_NOISE + ["con", "con", "ncon"])
        left = 10
        s.write(a, [r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, 4, 14, 253]))], sm=r.choice([0, 0, 1]))
        for _ in range(r.randrange(5)):
            noise(s, a, WRITE_NOISE, plus=r.random() < .2)
            if r.random() < .5 and left > 1:
                d = r.randrange(1, left)
                left -= d
                s.adv(d)
        k = r.randrange(5)
        if k == 0:
            s.adv(left)
            s.con(a)
        elif k == 1:
            s.con(a, neg=True)
            s.con(a)
        elif k == 2:
            s.con(a, neg=True, plus=True)
            s.con(a)
        else:
            if left > 1:
                s.adv(left - 1)
            s.con(a)
    probe(s, False)
    yield s.done()


def f_limits(r):
    """C07: no answer, with traffic going on, and the session disappearing meanwhile"""
    for kind in ("client", "client", "monitor"):
        s = Sc(kind, r)
        warm(s)
        for _ in range(3):
            if kind == "client":
                op = r.choice(["read", "write", "status", "disc"])
                if op == "read":
                    s.read(A)
                elif op == "write":
                    s.write(A, [3])
                else:
                    s.call(op)
            else:
                op = s.kind
                s.call("disc")
            t = 0
            what = r.randrange(5)
            while t < 12:
                d = r.choice([1, 2, 3, 5, 9])
                s.adv(d)
                t += d
                if what == 0:
                    noise(s, B, ["otherind", "othercon", "ack", "feat", "badcemi"])
                elif what == 1 and r.random() < .4:
                    drop_session(s)
                    s.up(r.randrange(256))
                elif what == 2 and r.random() < .4:
                    drop_session(s)
                elif what == 3:
                    noise(s, B, ["ack", "state"] if op != "status" else ["ack"])
            if r.random() < .5:
                # the late answer
                if op == "read":
                    s.ind(A)
                elif op == "write":
                    s.con(A)
                elif op == "status":
                    s.dg(state(s.ch))
            s.adv(41).up(8)
        probe(s)
        yield s.done()
    s = Sc("client", r)
    warm(s)
    op = r.choice(["read", "write", "status"])
    if op == "read":
        s.read()
    elif op == "write":
        s.write()
    else:
        s.call(op)
    s.adv(r.randrange(1, 9)).dg(dres(s.ch))      # end of the connection
    s.adv(20)
    idle_call(s)
    yield s.done()


def f_heartbeat(r):
    """C08"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        s.up(r.randrange(256), ip=[r.randrange(256) for _ in range(4)], port=r.randrange(65536))
        for _ in range(r.choice([3, 8])):
            s.adv(r.choice([59, 60, 61, 120, 17]))
            k = r.randrange(5)
            if k == 0:
                s.hb()
            elif k == 1:
                s.dg(state(s.ch, r.choice([0x21, 0x26, 0x27, 0x29, 1, 255])))
                s.adv(r.choice([1, 29, 45, 70]))
                s.up(r.randrange(256))
            elif k == 2:
                if kind == "client":
                    s.read()
                    s.adv(3)
                    s.ind()
                else:
                    rand_ind(s)
            elif k == 3:
                drop_session(s)
                s.adv(r.choice([1, 31, 41, 65, 130]))
                if r.random() < .5:
                    s.dg(conn_res(3, 0x24)).adv(10)
                s.up(r.randrange(256))
        s.adv(200).hb()
        yield s.done()
    s = Sc(r.choice(["client", "monitor"]), r)
    s.up()
    s.adv(r.choice([3600, 7200, 7201]))
    s.hb()
    s.adv(125)
    yield s.done()


def f_disconnect(r):
    """C09"""
    for kind in ("client", "monitor"):
        for _ in range(2):
            s = Sc(kind, r)
            if r.random() < .8:
                warm(s)
            else:
                s.up(r.randrange(256), ip=[r.randrange(256) for _ in range(4)], port=r.randrange(65536))
            if r.random() < .4:
                s.adv(r.choice([5, 61]))
            if kind == "monitor":
                for _ in range(r.randrange(4)):
                    rand_ind(s)
            if kind == "monitor" and r.random() < .3:
                s.call("next")
            if r.random() < .3:
                s.dg(state(s.ch))
            s.call("disc")
            for _ in range(r.randrange(3)):
                noise(s, A, ["otherind", "ack", "state", "feat", "othercon"], plus=r.random() < .3)
            if r.random() < .3:
                s.adv(r.choice([1, 9]))
            s.dg(dres(r.choice([s.ch, s.ch, 0, 255]), r.choice([0, 0, 0x21, 0x26, 255])))
            if r.random() < .4:
                s.adv(r.choice([1, 61]))
            for _ in range(4):
                k = r.randrange(6)
                if k == 0 and kind == "monitor":
                    s.call("next")
                elif k == 1:
                    rand_ind(s)
                elif k == 2:
                    s.dg(conn_res(8))
                elif k == 3:
                    s.adv(r.choice([11, 61, 200]))
                elif k == 4:
                    s.dg(r.choice([dreq(8), state(8, 0x21), dres(8)]))
                else:
                    idle_call(s)
            if kind == "monitor":
                s.call("isconn")
                for _ in range(5):
                    s.call("next")
            s.adv(130)
            idle_call(s)
            yield s.done()
        s = Sc(kind, r)     # no answer, then again
        warm(s)
        s.call("disc")
        s.adv(r.choice([10, 11]))
        if kind == "monitor":
            s.call("isconn")
        if r.random() < .5:
            s.write(v=[5])
            s.con()
            s.adv(10)
        s.call("disc")
        s.dg(dres(8))
        s.call("disc")
        s.adv(100)
        yield s.done()


def f_gwdisc(r):
    """C10"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        warm(s)
        for _ in range(3):
            pend = None
            if kind == "client":
                pend = r.choice([None, "read", "write", "status", "disc"])
            else:
                pend = r.choice([None, "next", "disc"])
            if pend == "write":
                s.write(A, [9])
            elif pend:
                s.call(pend, *([A] if pend == "read" else []))
            if r.random() < .3:
                noise(s, B, ["otherind", "ack"], plus=True)
            s.dg(dreq(r.choice([s.ch, s.ch, s.ch, r.randrange(256)]), [r.randrange(256) for _ in range(4)], r.randrange(65536)), plus=r.random() < .2)
            if r.random() < .3:
                s.adv(r.choice([1, 12, 31]))
            if r.random() < .3:
                idle_call(s)
            s.adv(r.choice([1, 31]))
            s.up(r.randrange(256))
            if pend == "read":
                s.ind(A)
            elif pend == "write":
                s.con(A)
            s.adv(r.choice([1, 10, 61]))
        probe(s)
        yield s.done()


def f_fuzz(r):
    """C11"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        if r.random() < .8:
            warm(s)
        for _ in range(6):
            if r.random() < .3:
                if kind == "client":
                    if r.random() < .5:
                        s.read()
                    else:
                        s.call("status")
                else:
                    s.call("next")
            for _ in range(r.choice([1, 1, 1, 3])):
                b = bad_datagram(r, s.ch)
                if b[2:4] == [2, 0x0a] and r.random() < .9:
                    b = b[:5]
                s.dg(b, plus=r.random() < .15)
            s.adv(r.choice([1, 10, 11, 41]))
            if r.random() < .8:
                s.up(r.choice([8, 9]))
        probe(s)
        yield s.done()
    # one malformed frame per scenario, on a warm session
    for _ in range(6):
        s = Sc(r.choice(["client", "monitor"]), r)
        warm(s)
        b = bad_datagram(r, s.ch)
        s.dg(b)
        probe(s, False)
        yield s.done()
    for b in (r.sample([[], [0], [6, 16, 4], [255] * 1024, [0] * 1500, [6, 16, 4, 32] + [0] * 6], 2)):
        s = Sc(r.choice(["client", "monitor"]), r)
        warm(s)
        s.dg(b).dg(b)
        probe(s, False)
        yield s.done()


def f_trunc(r):
    """C11: every truncation and every single byte change of the frames a session gets"""
    frames = [tun(8, 5, cemi(0x29, A, big(1, [1, 2, 3]))), tun(8, 5, cemi(0x29, A, small(2, 5), info=[3, 2, 1, 1])), ack(8, 1), feat(8, 2), state(8), state(8, 33),
              dres(8), dreq(8), conn_res(8), tun(8, 1, cemi(0x2e, A, small(2, 5)))]
    kind = r.choice(["client", "monitor"])
    fr = r.choice(frames)
    s = Sc(kind, r)
    warm(s)
    for n in range(len(fr)):
        if fr[2:4] == [2, 0x0a] and n >= 8:
            break
        b = list(fr[:n]) if r.random() < .5 else fr[:n] + [r.choice([0, 1, 255, fr[n] ^ 1 << r.randrange(8)])] + fr[n + 1:]
        if b[2:4] == [2, 0x0a] and len(b) >= 8:
            continue
        s.dg(b)
        if kind == "client":
            s.call("status")
            s.adv(10)
        else:
            s.call("isconn")
        s.up(8)
        s.adv(11)
        s.up(8)
    probe(s)
    yield s.done()


def f_listeners(r):
    """C12"""
    s = Sc("monitor", r)
    lis = []
    for _ in range(r.choice([6, 12])):
        k = r.randrange(8)
        if k <= 1 and len(lis) < 5:
            s.lid += 1
            s.call("lis", s.lid, r.choice([1, 1, 2, 5]))
            lis.append(s.lid)
        elif k == 2 and lis and r.random() < .6:
            l = lis.pop(r.randrange(len(lis)))
            s.add("ldrop %d" % l)
        elif k == 3 and lis:
            s.add("lget %d" % r.choice(lis))
        elif k == 4:
            s.add("serr 1")
        else:
            s.up(r.randrange(256))
            if r.random() < .8:
                drop_session(s)
                s.adv(r.choice([1, 11, 41]))
    s.adv(41).up(5)
    for l in lis:
        s.add("lget %d" % l)
    drop_session(s)
    s.up(6)
    for l in lis:
        s.add("lget %d" % l)
    probe(s)
    yield s.done()
    s = Sc("monitor", r)
    n = r.choice([2, 4, 9, 20, 40])
    for i in range(n):
        s.call("lis", i + 1, 1)
    s.up()
    for i in range(r.choice([2, 5])):
        drop_session(s)
        s.up(i)
        s.write(v=[i])
        if r.random() < .4:
            s.add("lget %d" % r.randrange(1, n + 1))
        if r.random() < .2:
            s.add("ldrop %d" % n)
    s.call("isconn")
    s.adv(61)
    for i in range(n - 1):
        s.add("lget %d" % (i + 1))
    yield s.done()
    # the socket takes nothing while a session is being established
    s = Sc("monitor", r)
    lis = []
    for _ in range(r.choice([2, 3, 4])):
        early = r.random() < .5
        if early:
            s.add("block")
        if r.random() < .3:
            s.call("isconn")
        s.up(r.randrange(256)) if early else s.add("block")
        for _ in range(r.choice([1, 2, 4])):
            k = r.randrange(9)
            if k <= 3:
                s.lid += 1
                s.call("lis", s.lid, r.choice([1, 1, 2, 5]))
                lis.append(s.lid)
            elif k == 4 and lis:
                s.add("ldrop %d" % lis.pop(r.randrange(len(lis))))
            elif k == 5 and lis:
                s.add("lget %d" % r.choice(lis))
            elif k == 6:
                s.call("isconn")
            elif k == 7:
                s.call(*r.choice([["write", A, 0, "05"], ["sol", A], ["next"], ["disc"]]))
            else:
                s.dg(r.choice([feat(s.ch, 0), dreq(s.ch), state(s.ch, 0x21), tun(s.ch, 0, cemi(0x29, A, big(1, [1])))]))
            if r.random() < .2:
                s.adv(r.choice([1, 5, 20]))
        s.adv(r.choice([1, 1, 31, 70]))
        s.add("unblock")
        s.adv(1)
        for l in lis:
            if r.random() < .6:
                s.add("lget %d" % l)
        if r.random() < .6:
            drop_session(s)
            s.adv(r.choice([0, 1, 11, 41]))
    s.adv(41).up(5)
    for l in lis:
        s.add("lget %d" % l)
    probe(s)
    yield s.done()


def f_search(r):
    """C13"""
    for _ in range(3):
        s = Sc("search", r)
        if r.random() < .3:
            s.dg(search_res(r))
        n = r.choice([1, 2, 3, 5, 10])
        if r.random() < .15:
            s.add("serr 1")
        s.call("search", n)
        t = 0
        while t < n + 2:
            for _ in range(r.randrange(4)):
                k = r.randrange(11)
                if k == 9:
                    s.dg(odd_search_res(r))
                elif k == 10:
                    b = search_res(r)
                    for _ in range(r.choice([2, 2, 3])):
                        s.dg(b, plus=r.random() < .3)          # the same device again
                elif k <= 3:
                    name = r.choice([b"KNX IP Router", b"", bytes(r.randrange(256) for _ in range(30)), "Gerät".encode("latin1"), b"x" * 30])
                    fams = [(r.randrange(256), r.randrange(256)) for _ in range(r.choice([0, 1, 2, 5, 100]))]
                    s.dg(search_res(r, name, fams, port=r.randrange(65536)), plus=r.random() < .3)
                elif k == 4:
                    s.dg(bad_datagram(r))
                elif k == 5:
                    b = search_res(r)
                    s.dg(b[:r.randrange(0, len(b))])
                elif k == 6:
                    b = search_res(r)
                    b[r.choice([0, 1, 2, 3, 6, 14, 15, 16, 68, 69, 70, 4, 5])] = r.randrange(256)
                    s.dg(b)
                elif k == 7:
                    s.dg(search_res(r) + [r.randrange(256) for _ in range(r.choice([1, 2, 30]))])
                elif r.random() < .15:
                    s.add("rerr 111")
            d = r.choice([1, 1, 2])
            s.adv(d)
            t += d
        if r.random() < .4:
            s.call("search", 2)
            s.dg(search_res(r))
            s.adv(3)
        yield s.done()
    s = Sc("search", r)
    s.add("ofail %d" % r.choice([1, 2, 4]))
    s.call("search", r.choice([0, 1, 3]))
    s.adv(4)
    s.call("search", r.choice([0, 1]))
    s.dg(search_res(r)) if r.random() < .5 else s.add("xdg " + hx(search_res(r)))
    s.adv(2)
    yield s.done()
    s = Sc("search", r)
    s.call("search", 8)
    for _ in range(14):
        s.dg(odd_search_res(r), plus=r.random() < .2)
        if r.random() < .3:
            s.adv(1)
    s.dg(search_res(r))
    s.adv(9)
    yield s.done()
    if r.random() < .1:
        s = Sc("search", r)
        s.call("search", 20)
        for i in range(many(r)):
            s.dg(search_res(r, b"dev %d" % i), plus=r.random() < .1)
            if i % 20 == 19:
                s.adv(1)
        s.adv(20)
        yield s.done()
    s = Sc("search", r)
    s.call("search", 4)
    for i in range(40):
        s.dg(search_res(r, b"dev %d" % i))
        if i % 10 == 9:
            s.adv(1)
    s.adv(2)
    yield s.done()


def f_status(r):
    """C14"""
    s = Sc("client", r)
    warm(s)
    for _ in range(4):
        for _ in range(r.randrange(3)):
            noise(s, A, ["state", "ack", "ind", "con", "feat"])
        if r.random() < .3:
            s.adv(r.choice([50, 61]))
        s.call("status")
        for _ in range(r.randrange(3)):
            noise(s, A, ["ack", "ind", "con", "feat", "badcemi", "otherind"], plus=r.random() < .2)
            if r.random() < .3:
                s.adv(r.choice([1, 3]))
        k = r.randrange(5)
        if k <= 1:
            s.dg(state(r.choice([s.ch, r.randrange(256)]), 0))
        elif k == 2:
            s.dg(state(s.ch, r.choice([0x21, 0x26, 0x27, 1, 255])))
            s.adv(r.choice([1, 31]))
            s.up(r.randrange(256))
        elif k == 3:
            s.adv(11)
            s.dg(state(s.ch))
        else:
            s.dg(state(s.ch), True)
            s.dg(state(s.ch, 0x21))
            s.adv(1)
            s.up(r.randrange(256))
    s.call("status")
    s.hb()
    yield s.done()


def f_concurrent(r):
    """C15: calls at the same time, interrupted at their await points, abandoned"""
    for _ in range(3):
        s = Sc("client", r)
        warm(s)
        for _ in range(3):
            n = r.choice([2, 3, 4])
            ids = []
            for i in range(n):
                op = r.choice(["read", "write", "write", "status"])
                k = r.choice([None, None, 0, 1, 2, 3, 4])
                a = A + i
                plus = r.random() < .7
                if op == "read":
                    ids.append((op, a, s.read(a, plus=plus, k=k)))
                elif op == "write":
                    ids.append((op, a, s.write(a, [i], plus=plus, k=k)))
                else:
                    ids.append((op, a, s.call("status", plus=plus, k=k)))
            s.adv(1)
            for rounds in range(2 * n):
                op, a, i = r.choice(ids)
                k = r.randrange(7)
                if k == 0:
                    s.add("cancel %d" % i, plus=r.random() < .3)
                elif k == 1:
                    s.adv(r.choice([1, 5, 10]))
                elif k == 2 and r.random() < .3:
                    drop_session(s)
                    s.up(r.randrange(256))
                elif op == "read":
                    s.ind(a, plus=r.random() < .2)
                elif op == "write":
                    s.con(a, plus=r.random() < .2)
                else:
                    s.dg(state(s.ch), plus=r.random() < .2)
            s.adv(10 * n + 5)
        probe(s)
        yield s.done()
    # abandoned call, its late answer, and the next call of the same kind
    s = Sc("client", r)
    warm(s)
    for _ in range(4):
        op = r.choice(["read", "write", "status", "disc"])
        k = r.choice([None, None, 0, 1, 2, 3, 4, 5])
        i = s.read(A, k=k) if op == "read" else s.write(A, [7], k=k) if op == "write" else s.call(op, k=k)
        if r.random() < .4:
            s.adv(r.choice([1, 9]))
        s.add("cancel %d" % i, plus=r.random() < .3)
        if op == "disc":
            s.adv(1)
        elif r.random() < .7:
            s.ind(A, [1, 1]) if op == "read" else s.con(A) if op == "write" else s.dg(state(s.ch))
        if op == "read":
            s.read(A)
            s.adv(2)
            s.ind(A, [2, 2])
        elif op == "write":
            s.write(A, [8])
            s.adv(2)
            s.con(A, neg=r.random() < .5)
        else:
            s.call("status")
            s.adv(2)
            s.hb()
    probe(s)
    yield s.done()
    s = Sc("monitor", r)
    warm(s)
    for _ in range(3):
        n = r.choice([2, 3, 4])
        for i in range(n):
            op = r.choice(["write", "sol", "next", "isconn", "lis", "disc" if r.random() < .2 else "write"])
            k = r.choice([None, None, 0, 1, 2, 3])
            plus = r.random() < .7
            if op == "write":
                s.write(A + i, [i], plus=plus, k=k)
            elif op == "sol":
                s.call("sol", A + i, plus=plus, k=k)
            elif op == "lis":
                s.lid += 1
                s.call("lis", s.lid, 1, plus=plus, k=k)
            else:
                s.call(op, plus=plus, k=k)
            if r.random() < .2:
                s.add("cancel %d" % r.randrange(1, s.op + 1), plus=True)
        if r.random() < .4:
            s.dg(dreq(s.ch), plus=True)
            s.dg(conn_res(9), plus=True)
        s.ind()
        s.adv(11)
        s.ind()
    s.adv(41).up(7)
    for _ in range(3):
        s.ind()
    for l in range(1, s.lid + 1):
        s.add("lget %d" % l)
    yield s.done()


def f_preempt(r):
    """C02, C15: the session is replaced while a call is interrupted at one of its await points"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        warm(s)
        for _ in range(4):
            k = r.randrange(0, 8)
            op = r.choice(["write", "read", "status", "disc"] if kind == "client" else ["write", "sol", "disc", "isconn"])
            first = r.random() < .5
            swap = r.choice([dreq(s.ch), state(s.ch, 0x21), header(0x530, 6), dreq(s.ch)])
            ch = r.randrange(256)
            if first:
                s.dg(swap, True)
                s.dg(conn_res(ch), True)
            if op in ("write",):
                s.write(A, [1], k=k, plus=True)
            elif op == "read" or op == "sol":
                s.call(op, A, k=k, plus=True)
            else:
                s.call(op, k=k, plus=True)
            if not first:
                s.dg(swap, True)
                s.dg(conn_res(ch), True)
            s.ch = ch
            s.dg(ack(ch, 0))
            s.adv(r.choice([1, 11]))
            if kind == "client":
                s.con(A)
                s.write(A, [2])
                s.con(A)
            else:
                s.write(A, [2])
            s.adv(21)
            if r.random() < .3:
                s.up(8)
        probe(s)
        yield s.done()


def f_burst(r):
    """C02, C15, C17: so many datagrams at once that the receive task has to pause somewhere among them, calls meanwhile"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        if r.random() < .5:
            warm(s)
        else:
            s.up(r.randrange(256))
        inds = 0
        for _ in range(r.choice([1, 2])):
            ops = ["write", "read", "status", "disc"] if kind == "client" else ["write", "sol", "disc", "isconn"]
            call = lambda: s.write(A, [r.randrange(256)], plus=True, k=r.choice([None, r.randrange(8)])) if (op := r.choice(ops)) == "write" else \
                s.call(op, *([A] if op in ("read", "sol") else []), plus=True, k=r.choice([None, r.randrange(8)]))
            calls = r.choice([0, 1, 1])
            used = calls
            if r.random() < .5:
                for _ in range(calls):
                    call()
                calls = 0
            n = r.choice([126, 127, 128, 129, r.randrange(20, 140), 64, 63, 42, 43])
            fill = r.choice(["ack", "empty", "ind", "feat", "mix"])
            if kind == "client" and fill == "ind":
                n = r.choice([42, 43, 63, 64, 65])  # a call looking through them has too many ways to do so
            for i in range(n):
                w = fill if fill != "mix" else r.choice(["ack", "empty", "ind", "feat"])
                if w == "ack":
                    s.dg(ack(s.ch, i % 256), True)
                elif w == "empty":
                    s.dg([], True)
                elif w == "ind":
                    s.ind(r.choice([A, A + 1]), v=[i % 256, 1], plus=True)
                    inds += 1
                else:
                    s.dg(feat(s.ch, i % 256), True)
                if calls and i == n // 2:
                    for _ in range(calls):
                        call()
            x = r.randrange(6)
            ch = s.ch
            if x == 0:
                s.dg(dreq(s.ch), True)
            elif x == 1:
                s.dg(state(s.ch, 0x21), True)
            elif x == 2:
                s.dg(header(0x530, 6), True)
            elif x == 3:
                s.dg(dres(s.ch), True)
            if x < 3:
                ch = r.randrange(256)
                s.dg(conn_res(ch), True)
                s.ch = ch
            if not used:
                call()
            elif r.random() < .3:
                s.con(A, plus=True)
            s.dg(ack(s.ch, 0))
            s.adv(11)
            if kind == "monitor":
                # what was kept, no more: many waiting calls would only cost time
                for _ in range(min(inds, 100, r.choice([0, 3, 110]))):
                    s.call("next", 0, 0, "-")
                inds = 0
        probe(s)
        yield s.done()


def f_hbrace(r):
    """C03, C04, C08: a heartbeat falls due while the receive task is busy with more than it can do in one go"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        s.up(r.randrange(256))
        for _ in range(r.choice([0, 0, 1, 3])):
            s.adv(60)
            s.hb()
        s.adv(59)
        call = r.choice([None, None, "read", "write", "status"] if kind == "client" else [None, None, "write", "sol"])
        if call and r.random() < .5:
            s.write(A, [1], plus=True) if call == "write" else s.call(call, *([A] if call in ("read", "sol") else []), plus=True)
            call = None
        fill = r.choice(["ind", "ind", "feat", "ack", "mix"])
        inds = 0
        for i in range(r.choice([62, 63, 64, 65, 66, 70, 20] + ([90, 130] if kind == "monitor" or fill in ("feat", "ack") else []))):
            w = fill if fill != "mix" else r.choice(["ind", "feat", "ack", "empty"])
            if i == 0 and r.random() < .5:
                w = "ack"
            if w == "ind":
                s.ind(A + 1 if kind == "client" else r.choice([A, A + 1]), v=[i % 256, 1], plus=True)
                inds += 1
            elif w == "feat":
                s.dg(feat(s.ch, i % 256), True)
            elif w == "ack":
                s.dg(ack(s.ch, i % 256), True)
            else:
                s.dg([], True)
        if call:
            s.write(A, [1], plus=True) if call == "write" else s.call(call, *([A] if call in ("read", "sol") else []), plus=True)
        x = r.random()
        if x < .15:
            s.dg(dreq(s.ch), True)
        elif x < .3:
            s.dg(state(s.ch, 0x21), True)
        elif x < .4:
            s.dg(header(0x530, 6), True)
        s.adv(1)
        s.adv(11)
        if kind == "monitor":
            for _ in range(min(inds, 100)):
                s.call("next", 0, 0, "-")
        if x < .4:
            s.up(r.randrange(256))
        s.hb()
        probe(s)
        yield s.done()


def f_blocked(r):
    """C02, C03, C08, C16: for some time the socket takes nothing to send; nothing is lost by that"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        if r.random() < .3:
            s.add("block")
            if r.random() < .5:
                s.adv(r.choice([1, 35, 70]))
            if r.random() < .3:
                s.dg(r.choice([conn_res(7), ack(3, 3)]))
            s.add("unblock")
            s.adv(r.choice([1, 45]))
        if r.random() < .5:
            warm(s)
        else:
            s.up(r.randrange(256))
        for _ in range(r.choice([1, 2, 4])):
            s.adv(r.choice([0, 5, 49, 55, 59])) if r.random() < .7 else None
            ops = ["write", "read", "status", "disc"] if kind == "client" else ["write", "sol", "disc", "isconn", "next"]

            def call():
                op = r.choice(ops)
                if op == "disc" and r.random() < .7:
                    op = "status" if kind == "client" else "write"
                if op == "write":
                    s.write(A, [r.randrange(256)])
                else:
                    s.call(op, *([A] if op in ("read", "sol") else []))
                return s.op

            mine = None
            if r.random() < .4:
                mine = call()
            s.add("block")
            for _ in range(r.choice([1, 2, 3, 5])):
                x = r.randrange(12)
                if x <= 3:
                    rand_ind(s)
                elif x == 4:
                    s.dg(feat(s.ch, r.randrange(256)))
                elif x == 5:
                    s.dg(r.choice([ack(s.ch, 0), [], state(s.ch)]))
                elif x == 6:
                    s.dg(r.choice([dreq(s.ch), state(s.ch, 0x21), header(0x530, 6)]))
                elif x == 7:
                    s.adv(r.choice([1, 5, 11, 61]))
                elif x == 8 and mine:
                    s.add("cancel %d" % mine)
                    mine = None
                elif x == 9:
                    s.con(A, neg=r.random() < .3)
                elif mine is None or r.random() < .3:
                    mine = call()
            if r.random() < .5:
                s.adv(r.choice([1, 11, 58, 70]))
            s.add("unblock")
            if r.random() < .5:
                s.con(A)
                s.ind(A)
            s.adv(r.choice([1, 11]))
            s.up(r.randrange(256))
        s.adv(11)
        probe(s)
        yield s.done()


def f_faults(r):
    """C16"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        if r.random() < .2:
            s.add("serr " + "".join(r.choice("01") for _ in range(r.choice([1, 2, 3]))))
            s.adv(10)
            s.adv(10)
            s.up()
        else:
            warm(s)
        for _ in range(6):
            k = r.randrange(8)
            if k == 0:
                s.add("serr 1")
                idle_call(s)
                s.adv(r.choice([1, 10]))
            elif k == 1:
                s.add("serr 1")
                s.ind() if r.random() < .6 else s.dg(feat(s.ch, 1))
                s.up(r.randrange(256))
            elif k == 2:
                s.adv(59)
                s.add("serr 1")
                s.adv(2)
                s.up(r.randrange(256))
            elif k == 3:
                s.add("rerr %d" % r.choice([111, 113, 101, 104, 5]))
                if r.random() < .5:
                    s.add("rerr 111")
                    s.adv(10)
                s.up(r.randrange(256))
            elif k == 4:
                s.add("serr " + "".join(r.choice("001") for _ in range(4)))
                for _ in range(3):
                    idle_call(s)
                    s.con()
                s.adv(20)
                s.up(r.randrange(256))
            elif k == 5:
                s.add("serr 1")
                s.dg(dreq(s.ch))
                s.adv(r.choice([1, 10]))
                s.up(r.randrange(256))
            elif k == 6:
                drop_session(s)
                s.add("serr " + r.choice(["1", "01", "11", "001"]))
                s.up(r.randrange(256))
                s.adv(10).up(r.randrange(256)).adv(10)
                s.up(r.randrange(256))
            else:
                if kind == "client":
                    s.read()
                    s.add("rerr 111")
                    s.up(r.randrange(256))
                    s.ind()
        s.add("serr 0")
        probe(s)
        yield s.done()
    # one failing send after each other
    s = Sc(r.choice(["client", "monitor"]), r)
    warm(s)
    for i in range(4):
        s.add("serr 1")
        idle_call(s)
        s.add("serr 0")
        s.write(v=[i])
        s.con()
    probe(s)
    yield s.done()
    # no socket, no client
    yield ("%s/%d" % (r.choice(["client", "monitor"]), r.choice([1, 2, 3, 9])), ["adv 45"])


def f_slow(r):
    """C17"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        if r.random() < .5:
            warm(s)
        else:
            s.up()
        n = r.choice([99, 100, 101, 120, 210])
        for i in range(n):
            s.ind(r.choice([A, B, i]), [i & 255, i >> 8], plus=i % 10 != 9)
            if r.random() < .03:
                s.adv(r.choice([1, 20]))
        for _ in range(4):
            k = r.randrange(6)
            if k == 0:
                s.adv(r.choice([61, 130]))
                s.hb()
            elif k == 1:
                s.dg(feat(s.ch, r.randrange(256)))
            elif k == 2:
                s.ind()
            elif k == 3:
                s.dg(dreq(s.ch)) if r.random() < .5 else s.dg(state(s.ch, 0x21))
                s.up(r.randrange(256))
            elif k == 4 and kind == "client":
                s.call("status")
                s.hb()
            elif kind == "client":
                s.read(A)
                s.ind(A, [9, 9])
            else:
                for _ in range(r.choice([1, 5, 104])):
                    s.call("next")
                s.ind(A, [5])
                s.ind(A, [6])
        if r.random() < .3:
            s.call("disc")
            s.dg(dres(s.ch))
            if kind == "monitor":
                for _ in range(105):
                    s.call("next")
            s.adv(61)
            yield s.done()
            continue
        probe(s)
        yield s.done()


def f_sizes(r):
    """C21: values of all sizes on both kinds"""
    for kind in ("client", "monitor"):
        s = Sc(kind, r)
        s.up()
        for n in r.sample([0, 1, 2, 3, 4, 14, 15, 16, 17, 54, 55, 100, 200, 252, 253, 254, 255, 256, 257, 300, 509, 510, 511, 512, 600, 1000], 9):
            a = r.randrange(65536)
            sm = 1 if r.random() < .25 else 0
            s.write(a, [r.randrange(256) for _ in range(n)], sm=sm)
            if kind == "client":
                s.con(a)
            s.adv(1)
            if r.random() < .3:
                s.call("read" if kind == "client" else "sol", a)
                s.ind(a)
        s.adv(20)
        probe(s, False)
        yield s.done()


# ---- long histories: the same situation some hundred times, so that nothing may wear out or count up
def many(r):
    return r.choice([262, 270, 300])


def soak(r, fn, kinds=("client", "monitor")):
    for kind in kinds:
        s = Sc(kind, r)
        fn(s, r)
        probe(s)
        yield s.done()


def f_soak_attempts(r):
    def go(s, r):
        what = r.choice(["refuse", "none", "junk", "rerr", "serr", "mix"])
        for i in range(many(r)):
            k = what if what != "mix" else r.choice(["refuse", "none", "junk", "rerr", "serr"])
            if k == "refuse":
                s.dg(conn_res(8, 0x24)).adv(10)
            elif k == "none":
                s.adv(40)
            elif k == "junk":
                s.dg([1, 2, 3]).adv(10)
            elif k == "rerr":
                s.add("rerr 111").adv(10)
            else:
                s.dg(conn_res(8, 0x24)).add("serr 1").adv(10).adv(10)
    return soak(r, go)


def f_soak_sessions(r):
    def go(s, r):
        k = r.choice([None, 0, 1, 2, 3])
        for i in range(many(r)):
            s.up(i % 256)
            if i % 7 == 0:
                s.call("read" if s.kind == "client" else "sol", A)
                s.ind()
            if k is None:
                drop_session(s)
            elif k == 0:
                s.dg(dreq(s.ch))
            elif k == 1:
                s.dg(state(s.ch, 0x21))
            elif k == 2:
                s.add("rerr 111")
            else:
                s.dg([6, 16, 5, 48, 0, 6])
    return soak(r, go)


def f_soak_heartbeat(r):
    def go(s, r):
        s.up(9)
        answered = r.random() < .7
        for i in range(many(r)):
            s.adv(60)
            if answered:
                s.hb()
            if r.random() < .05:
                s.ind()
    return soak(r, go)


def f_soak_calls(r):
    def go(s, r):
        s.up(9)
        what = r.choice(["ok", "late", "fail", "cancel", "mix"])
        for i in range(many(r)):
            w = what if what != "mix" else r.choice(["ok", "late", "fail", "cancel"])
            if s.kind == "client":
                op = r.choice(["read", "write", "status"])
                a = [A, 0, "-"] if op == "read" else [A, 0, "05"] if op == "write" else [0, 0, "-"]
                if w == "fail":
                    s.add("serr 1")
                s.call(op, *a)
                if w == "ok":
                    s.ind() if op == "read" else s.con() if op == "write" else s.hb()
                elif w == "late":
                    s.adv(10)
                elif w == "cancel":
                    s.add("cancel %d" % s.op)
            else:
                op = r.choice(["sol", "write", "isconn", "next"])
                a = [A, 0, "-"] if op in ("sol", "next") else [A, 0, "05"] if op == "write" else [0, 0, "-"]
                if w == "fail" and op in ("sol", "write"):
                    s.add("serr 1")
                if op == "next" and w in ("ok", "fail"):
                    s.ind()
                s.call(op, *a)
                if op == "next" and w == "late":
                    s.ind()
                elif w in ("cancel", "late") or op == "next":
                    s.add("cancel %d" % s.op)
    return soak(r, go)


def f_soak_traffic(r):
    def go(s, r):
        s.up(9)
        what = r.choice(["ind", "feat", "ack", "empty", "badcemi", "state", "mix"])
        for i in range(2 * many(r)):
            w = what if what != "mix" else r.choice(["ind", "feat", "ack", "empty", "badcemi", "state"])
            if w == "ind":
                s.ind(v=[i % 256, i // 256])
            elif w == "feat":
                s.dg(feat(s.ch, i % 256))
            elif w == "ack":
                s.dg(ack(s.ch, i % 256))
            elif w == "empty":
                s.dg([])
            elif w == "badcemi":
                s.tun([0x29])
            else:
                s.hb()
            if s.kind == "monitor" and w == "ind" and (what == "ind" or r.random() < .5):
                s.call("next", 0, 0, "-")
    return soak(r, go)


def f_soak_listeners(r):
    def go(s, r):
        n = many(r)
        mode = r.choice(["many", "come", "one"])
        for i in range(n):
            if mode != "one" or i == 0:
                s.lid += 1
                s.call("lis", s.lid, 1 if mode != "one" else 1024)
            if mode != "many":
                s.up(i % 256)
                if mode == "come":
                    s.add("lget %d" % s.lid)
                    s.add("ldrop %d" % s.lid)
                drop_session(s)
        if mode == "many":
            s.up()
            if r.random() < .5:
                for l in range(1, s.lid + 1):
                    s.add("lget %d" % l)
                drop_session(s)
                s.up(r.randrange(256))
        for l in range(1, s.lid + 1):
            s.add("lget %d" % l)
        s.dg(dreq(s.ch))
    return soak(r, go, ("monitor",))


def f_soak_search(r):
    s = Sc("search", r)
    s.call("search", 30)
    n = many(r)
    for i in range(n):
        s.dg(search_res(r) if r.random() < .8 else [6, 16, 2, 2, 0, 6], plus=r.random() < .5)
        if r.random() < .05:
            s.adv(1)
    s.adv(31)
    for i in range(20):
        s.call("search", 1)
        s.dg(search_res(r))
        s.adv(1)
    yield s.done()


def f_extreme(r):
    """C03, C04, C05, C06: the longest, shortest and oddest messages answer a waiting call like any other"""
    def info(n):
        if n < 2:
            return []
        k = min(n - 2, r.choice([n - 2, n - 2, r.randrange(n - 1)]))
        return [r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 254]), k] + [r.randrange(256) for _ in range(k)] + info(n - 2 - k)

    def val():
        n = r.choice([0, 1, 14, 15, 16, 127, 128, 200, 250, 253, 254])
        return [r.choice([0, 255, r.randrange(256)]) for _ in range(n)]

    def rest():
        return [r.randrange(256) for _ in range(r.choice([0, 0, 0, 1, 50, 400]))]

    for kind in ("monitor", "client"):
        s = Sc(kind, r)
        s.up(r.choice([0, 255, r.randrange(256)]))
        for _ in range(8):
            if r.random() < .2:
                s.seq = r.choice([254, 255])
            kw = {"info": info(r.choice([0, 2, 3, 20, 128, 253, 254, 255])), "c1": r.randrange(256), "c2": r.randrange(256), "src": r.choice([0, 65535, r.randrange(65536)])}
            a = r.choice([0, 65535, A, r.randrange(65536)])
            if kind == "monitor":
                first = r.random() < .7
                if first:
                    s.call("next")
                s.tun(cemi(r.choice([0x29, 0x29, 0x2b]), a, big(r.randrange(4), val()), **kw) + rest(), plus=r.random() < .1)
                if not first:
                    s.call("next")
            elif r.random() < .5:
                s.read(a)
                s.tun(cemi(0x29, a, big(r.choice([1, 2]), val()), **kw) + rest())
                s.adv(r.choice([0, 11]))
            else:
                s.write(a, val() + [1] if r.random() < .3 else [1])
                kw["c1"] = kw["c1"] & 0xfe if r.random() < .7 else kw["c1"]
                s.tun(cemi(0x2e, a, big(2, val()), **kw) + rest())
                s.adv(r.choice([0, 11]))
        yield s.done()


# Sweeps: every value of a field once, in few traces
def sweep(r, values, fn, kinds=("client", "monitor"), chunk=64, end=True):
    values = list(values)
    r.shuffle(values)
    for i in range(0, len(values), chunk):
        s = Sc(r.choice(kinds), r)
        for v in values[i:i + chunk]:
            fn(s, v)
        if end:
            probe(s, False)
        yield s.done()


def f_sweep_refusal(r):
    """C01: every status a gateway can answer a connection request with"""
    return sweep(r, range(1, 256), lambda s, v: s.dg(conn_res(r.choice([0, 0, v, 255]), v)).adv(10), chunk=128)


def f_sweep_channel(r):
    """C02, C03, C09, C10, C14: every channel"""
    def one(s, v):
        s.up(v)
        if s.kind == "client":
            k = r.randrange(4)
            if k == 0:
                s.write(v=[v])
                s.con()
            elif k == 1:
                s.read()
                s.ind()
            elif k == 2:
                s.call("status")
                s.hb()
            else:
                s.adv(60).hb()
        else:
            k = r.randrange(3)
            if k == 0:
                s.call("write", A, 0, hx([v, 1]))
                s.call("sol", B)
            elif k == 1:
                s.ind()
                s.call("next")
            else:
                s.call("isconn")
                s.adv(60).hb()
        if r.random() < .5:
            s.dg(feat(v, r.randrange(256)))
        s.dg(dreq(v))
    yield from sweep(r, range(256), one, chunk=64)


def f_sweep_goodbye(r):
    """C09: every status of a disconnect response, for every channel"""
    vs = list(range(256))
    r.shuffle(vs)
    for i in range(0, 256, 4):
        st = r.choice([0, 0x21, 0x26, 0x27, 0x29]) if r.random() < .2 else vs[i]
        s = Sc(r.choice(["client", "monitor"]), r)
        s.up(vs[i + 1])
        if r.random() < .5:
            s.call("write", A, 0, hx([5]))
            s.con()
        s.call("disc")
        s.dg(dres(r.choice([s.ch, s.ch, vs[i + 2]]), st))
        s.call(*r.choice([["disc"], ["write", A, 0, "05"]]))
        s.adv(10)
        s.up(vs[i + 3]).ind()
        s.adv(61)
        yield s.done()


def f_sweep_state(r):
    """C08, C14: every status of a connection state response, to a query or a heartbeat"""
    def one(s, v):
        s.up(r.randrange(256))
        if s.kind == "client" and r.random() < .7:
            s.call("status")
        else:
            s.adv(60)
        s.dg(state(r.choice([s.ch, s.ch, r.randrange(256)]), v))
        if v == 0:
            s.dg(dreq(s.ch))
    return sweep(r, range(256), one)


def f_sweep_frames(r):
    """C03, C04: every sequence number, status field, message code, control field, return code"""
    def one(s, v):
        w, x = r.randrange(256), r.randrange(256)
        k = s.op % 5 if s.kind == "monitor" else r.randrange(5)
        s.seq = v
        s.ch = r.choice([8, 8, w])
        if s.kind == "monitor":
            s.call("next")
        if k == 0:
            s.tun(cemi(v, A, big(1, [w, x])))
        elif k == 1:
            s.tun(cemi(0x29, A, [v, x, w], c1=w, c2=x))
        elif k == 2:
            s.tun(cemi(r.choice([0x29, 0x2e, 0x2b]), A, big(2, [w]), c1=v, c2=w, src=v * 256 + x, info=[v, 1, w]))
        elif k == 3:
            s.dg(feat(s.ch, v, r.choice([2, 6, 7, 8]), x, w))
        else:
            b = tun(s.ch, v, cemi(0x29, A, big(1, [w]), c1=x, c2=v))
            b[9] = x
            s.dg(b)
        s.ch = 8
        if s.kind == "monitor":
            s.ind(v=[v, x])
            if r.random() < .5:
                s.call("next")

    def go(s, v):
        if not s.l:
            s.up(8)
        one(s, v)
    yield from sweep(r, range(256), go)


def f_sweep_values(r):
    """C05: every telegram service, address neighbour, message code and control field around a read"""
    items = [("apci", v) for v in range(16)] * 2 + [("low", v) for v in range(64)] + [("tpci", v) for v in range(64)] + [("bit", v) for v in range(16)] + [("mc", v) for v in range(256) if v != 0x29]
    items += [("c1", v) for v in range(256)] + [("c2", v) for v in range(256)]

    def go(s, kv):
        k, v = kv
        if not s.l:
            s.up(8)
        a = r.choice([A, r.randrange(65536)])
        w = [r.randrange(256), r.randrange(256)]
        s.read(a)
        if k == "apci":
            s.tun(cemi(0x29, a, r.choice([big(v, w), small(v, w[0])])))
        elif k == "low":
            s.tun(cemi(0x29, a, [r.choice([0, 0, 1, 2, 3]), r.choice([0x40, 0x80, 0, 0xc0]) | v] + r.choice([[], w])))
        elif k == "tpci":
            s.tun(cemi(0x29, a, [v << 2 | r.choice([0, 0, 1, 2, 3]), r.choice([0x40, 0x80]), w[0]]))
        elif k == "bit":
            s.tun(cemi(0x29, a ^ (1 << v), big(1, w)))
        elif k == "mc":
            s.tun(cemi(v, a, big(1, w)))
        elif k == "c1":
            s.tun(cemi(0x29, a, big(1, w), c1=v))
        else:
            s.tun(cemi(0x29, a, big(2, w), c2=v, src=r.randrange(65536)))
        s.tun(cemi(0x29, a, big(1, [v])))
    yield from sweep(r, items, go, ("client",), 96)


def f_sweep_confirms(r):
    """C06: every control field, message code, address neighbour and service around a write"""
    items = [("c1", v) for v in range(256)] + [("c2", v) for v in range(256)] + [("mc", v) for v in range(256) if v != 0x2e] + [("bit", v) for v in range(16)] + [("apci", v) for v in range(16)] * 2 + [("tpci", v) for v in range(64)]

    def go(s, kv):
        k, v = kv
        if not s.l:
            s.up(8)
        a = r.choice([A, r.randrange(65536)])
        w = [r.randrange(256), r.randrange(256)]
        if r.random() < .3:
            s.call("write", a, 1, hx([w[0] & 63]))
        else:
            s.write(a, w)
        neg = r.choice([0, 1])
        if k == "c1":
            s.tun(cemi(0x2e, a, big(2, w), c1=v))
        elif k == "c2":
            s.tun(cemi(0x2e, a, big(2, w), c1=0xbc | neg, c2=v, src=r.randrange(65536)))
        elif k == "mc":
            s.tun(cemi(v, a, big(2, w), c1=0xbc | neg))
        elif k == "bit":
            s.tun(cemi(0x2e, a ^ (1 << v), big(2, w), c1=0xbc | neg))
        elif k == "apci":
            s.tun(cemi(0x2e, a, big(v, w), c1=0xbc | neg))
        else:
            s.tun(cemi(0x2e, a, [v << 2 | 0, 0x80, w[0]], c1=0xbc | neg))
        s.tun(cemi(0x2e, a, big(2, w), c1=0xbc | r.choice([0, 0, 1])))
    yield from sweep(r, items, go, ("client",), 96)


def f_sweep_telegrams(r):
    """C21, C02: every length, small value, bit of an address"""
    items = [("len", v) for v in range(0, 257)] + [("small", v) for v in range(256)] + [("addr", 1 << v) for v in range(16)] + [("addr", 65535 ^ (1 << v)) for v in range(16)] + [("byte", v) for v in range(256)]

    def go(s, kv):
        k, v = kv
        if not s.l:
            s.up(8)
        a = r.randrange(65536)
        if k == "len":
            s.call("write", a, 0, hx([r.choice([v, r.randrange(256)]) & 255 for _ in range(v)]))
        elif k == "small":
            s.call("write", a, 1, hx([v] + [r.randrange(256)] * r.choice([0, 0, 1])))
        elif k == "byte":
            s.call("write", a, 0, hx([v]))
        elif s.kind == "client":
            s.read(v)
            s.ind(v)
            return
        else:
            s.call("sol", v)
        if s.kind == "client":
            s.con(a)
    yield from sweep(r, items, go, chunk=80)


def f_sweep_unknown(r):
    """C11: services nobody knows, one after the other; whatever they cost, the next session works"""
    sids = set(range(0x200, 0x218)) | set(range(0x310, 0x314)) | set(range(0x41e, 0x430)) | {0x530, 0x531, 0x532, 0x533, 0x740, 0x741, 0x950, 0x951, 0, 255, 256, 65535, 0x2004, 0x2104, 0x2304, 0x0a02, 0x0802, 0x0902}
    sids |= {x ^ (1 << b) for x in (0x420, 0x421, 0x423, 0x208, 0x209, 0x20a) for b in range(16)}

    def go(s, sid):
        s.up(r.randrange(256))
        n = r.choice([0, 2, 4, 14])
        s.dg(header(sid, 6 + n) + [4, s.ch, 0, 0, 0x29, 0, 0xbc, 0xe0, 0, 1, 0, 1, 0, 0][:n])
        s.dg(dreq(s.ch))
        s.adv(r.choice([30, 41]))          # whether or not that was taken as an answer to a connection request
    yield from sweep(r, sids, go, chunk=48)


def f_sweep_errors(r):
    """C16: every error a socket may report"""
    def go(s, e):
        if r.random() < .85:
            s.up(r.randrange(256))
            if r.random() < .3:
                s.call("read" if s.kind == "client" else "next", *([A] if s.kind == "client" else []))
        s.add("rerr %d" % e).adv(10)
    yield from sweep(r, [e for e in range(1, 134) if e not in (4, 11)], go, chunk=48)


FAMILIES = {
    "sweep_refusal": f_sweep_refusal, "sweep_channel": f_sweep_channel, "sweep_goodbye": f_sweep_goodbye, "sweep_state": f_sweep_state, "sweep_frames": f_sweep_frames,
    "sweep_values": f_sweep_values, "sweep_confirms": f_sweep_confirms, "sweep_telegrams": f_sweep_telegrams, "sweep_unknown": f_sweep_unknown, "sweep_errors": f_sweep_errors,
    "extreme": f_extreme,
    "plain": f_plain, "attempts": f_attempts, "numbers": f_numbers, "acks": f_acks, "delivery": f_delivery, "reads": f_reads, "writes": f_writes,
    "limits": f_limits, "heartbeat": f_heartbeat, "disconnect": f_disconnect, "gwdisc": f_gwdisc, "fuzz": f_fuzz, "trunc": f_trunc, "listeners": f_listeners,
    "search": f_search, "status": f_status, "concurrent": f_concurrent, "preempt": f_preempt, "burst": f_burst, "blocked": f_blocked, "hbrace": f_hbrace, "faults": f_faults, "slow": f_slow, "sizes": f_sizes,
    "soak_attempts": f_soak_attempts, "soak_sessions": f_soak_sessions, "soak_heartbeat": f_soak_heartbeat, "soak_calls": f_soak_calls, "soak_traffic": f_soak_traffic,
    "soak_listeners": f_soak_listeners, "soak_search": f_soak_search,
}


def generate(seed, weights):
    """weights: {family: rounds}; ids carry family and round"""
    out = []
    for fam, rounds in weights.items():
        for i in range(rounds):
            r = random.Random("%s/%s/%d" % (seed, fam, i))
            for j, (kind, lines) in enumerate(FAMILIES[fam](r)):
                out.append(("%s.%d.%d" % (fam, i, j), kind, lines))
    return out
