"""Argument vectors for the pure functions: frame codecs, cEMI, telegrams, addresses, datapoint types."""
import random
import struct


def b16(n):
    return [n >> 8 & 255, n & 255]


def hdr(sid, n):
    return [6, 16] + b16(sid) + b16(n)


class Vec:
    def __init__(self, seed, thorough):
        self.r = random.Random("vec%d" % seed)
        self.big = thorough
        self.out = []
        self.seen = set()

    def put(self, op, *args):
        l = op + "".join(" " + (",".join(map(str, a)) if a else "-") for a in args)
        if l not in self.seen:
            self.seen.add(l)
            self.out.append(l)

    def byte(self):
        return self.r.choice([0, 1, 2, 4, 8, 127, 128, 255, self.r.randrange(256), self.r.randrange(256), self.r.randrange(256)])

    def bytes(self, n):
        return [self.byte() for _ in range(n)]

    def w16(self):
        return self.r.choice([0, 1, 255, 256, 32767, 32768, 65534, 65535] + [self.r.randrange(65536)] * 8)

    def ip(self):
        return [self.r.randrange(256) for _ in range(4)]

    def hpai(self):
        return [8, self.r.choice([1, 2, 1, self.byte()])] + self.ip() + b16(self.w16())

    # ---- frames -----------------------------------------------------------
    def dib(self, t=None):
        r = self.r
        t = r.choice([1, 2, 3, 4, 5, 254]) if t is None else t
        if t == 1:
            name = [r.choice([65, 97, 48, 233, 255]) for _ in range(r.randrange(31))]
            d = [r.choice([2, 3, 16, 32]), r.randrange(256)] + b16(self.w16()) + b16(self.w16()) + self.bytes(6) + self.ip() + self.bytes(6) + name + [0] * (30 - len(name))
        elif t == 2:
            d = self.bytes(2 * r.choice([0, 1, 2, 5, 20, 126]))
        elif t == 3:
            d = self.bytes(14)
        elif t == 4:
            d = self.bytes(18)
        elif t == 5:
            d = self.bytes(2 + 2 * r.choice([0, 1, 4, 30, 124]))
        else:
            d = self.bytes(2 + r.choice([0, 1, 2, 3, 20, 249, 250]))
        return [2 + len(d), t] + d

    def frame(self, name):
        r = self.r
        if name == "hdr":
            return hdr(self.w16(), self.w16())
        if name == "hpai":
            return self.hpai()
        if name == "crd":
            return [4, 4] + b16(self.w16())
        if name == "dib":
            return self.dib()
        if name == "connresp":
            return hdr(0x206, 20) + [self.byte(), r.choice([0, 0, 0, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x29, 0x27])] + self.hpai() + [4, 4] + b16(self.w16())
        if name == "csreq":
            return hdr(0x207, 16) + [self.byte(), r.choice([0, 0, 7])] + self.hpai()
        if name == "disreq":
            return hdr(0x209, 16) + [self.byte(), r.choice([0, 0, 7])] + self.hpai()
        if name == "csresp":
            return hdr(0x208, 8) + self.bytes(2)
        if name == "disresp":
            return hdr(0x20a, 8) + self.bytes(2)
        if name == "sreq":
            return hdr(0x201, 14) + self.hpai()
        if name == "sresp":
            b = self.hpai() + self.dib(1) + self.dib(2)
            return hdr(0x202, 6 + len(b)) + b
        if name == "tunreq":
            c = self.bytes(r.choice([0, 1, 2, 11, 15, 40, 254]))
            return hdr(0x420, 10 + len(c)) + [4, self.byte(), self.byte(), r.choice([0, 0, 9])] + c
        if name == "ack":
            return hdr(0x421, 10) + [4] + self.bytes(3)
        if name == "featresp":
            return hdr(0x423, 13) + [4] + self.bytes(2) + [r.choice([0, 0, 5]), r.choice([2, 6, 7, 8])] + self.bytes(2)
        raise KeyError(name)

    FRAMES = ["hdr", "hpai", "crd", "dib", "connresp", "csreq", "disreq", "csresp", "disresp", "sreq", "sresp", "tunreq", "ack", "featresp"]
    SESSION = ["tunreq", "ack", "featresp", "csresp", "disresp", "disreq"]

    def decode(self, names, b):
        for n in names:
            self.put("d." + n, b)
        self.put("d.parse", b)

    def frames(self):
        r = self.r
        n = 60 if self.big else 6
        for name in self.FRAMES:
            for k in range(n):
                f = self.frame(name)
                self.decode([name], f)
                # as it is, cut at every length, and with something behind it
                step = max(1, len(f) // 30) if k else 1
                for j in range(0, len(f), step):
                    self.decode([name], f[:j])
                self.decode([name], f + self.bytes(r.randrange(1, 6)))
                self.decode([name], f + self.bytes(r.randrange(30, 200)))
                # one byte changed, everywhere in the first 24 bytes
                for j in range(min(len(f), 24)):
                    vals = range(256) if self.big and k < 2 else {0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 20, 26, 255, f[j] ^ 1, f[j] ^ 128, (f[j] + 1) % 256, r.randrange(256)}
                    for v in vals:
                        g = list(f)
                        g[j] = v
                        self.decode([name], g)
                for _ in range(40 if self.big else 10):
                    g = list(f)
                    for _ in range(r.randrange(2, 5)):
                        g[r.randrange(len(g))] = self.byte()
                    self.decode([name], g[:r.choice([len(g), r.randrange(len(g) + 1)])])
                # total length field against the bytes there are
                if name not in ("hpai", "crd", "dib"):
                    for t in list(range(0, 32)) + [len(f) - 1, len(f), len(f) + 1, 255, 256, 65535]:
                        g = list(f)
                        g[4:6] = b16(t & 65535)
                        self.decode([name], g)
                # fed to every other decoder
                if k < 3:
                    self.decode(self.FRAMES, f)
        # service codes
        for s in (range(65536) if self.big else list(range(0x1f8, 0x218)) + list(range(0x418, 0x430)) + [r.randrange(65536) for _ in range(300)]):
            self.put("d.parse", hdr(s, 10) + [4, 1, 2, 0])
            if s < 1200:
                self.put("d.parse", hdr(s, 8) + [3, 0])
                self.put("d.parse", hdr(s, 16) + [3, 0, 8, 1, 10, 0, 0, 1, 14, 87])
        # blocks: every length with every amount of data around it
        for t in (1, 2, 3, 4, 5, 254, 0, 6, 7, 253, 255):
            for l in range(256):
                for have in {l - 3, l - 2, l - 1, l, r.randrange(260)} | ({0, 1, 2, 52, 53} if self.big else set()):
                    if have >= 0:
                        self.put("d.dib", [l, t] + ([r.choice([2, 3, 16, 32])] + self.bytes(have - 1) if have and t == 1 else self.bytes(have)))
        for m in range(256):
            f = self.dib(1)
            f[2] = m
            self.put("d.dib", f)
            f[2], f[3] = 2, m
            self.put("d.dib", f)
            self.put("d.featresp", hdr(0x423, 13) + [4, 1, 2, 0, m, 0, 1])
            self.put("d.connresp", hdr(0x206, 20) + [m, 0] + self.hpai() + [4, 4, 17, 1])
            self.put("d.connresp", hdr(0x206, 20) + [7, m] + self.hpai() + [4, 4, 17, 1])
            self.put("d.csresp", hdr(0x208, 8) + [m, 255 - m])
            self.put("d.disresp", hdr(0x20a, 8) + [m, 255 - m])
            self.put("d.ack", hdr(0x421, 10) + [4, m, 255 - m, m ^ 5])
            self.put("d.tunreq", hdr(0x420, 12) + [4, m, 255 - m, 0, 41, 0])
        for n in range(0, 300, 1 if self.big else 7):
            self.put("d.tunreq", hdr(0x420, 10 + n) + [4, 1, 2, 0] + [r.randrange(256) for _ in range(n)])
        # search responses with their blocks in other orders, repeated, absent, among others
        for ts in ([2, 1], [1], [2], [], [1, 1], [2, 2], [1, 1, 2], [1, 2, 2], [1, 2, 1], [1, 3, 2], [3, 1, 2], [1, 2, 3], [1, 4, 2], [1, 5, 2], [1, 254, 2], [254, 1, 2], [1, 2, 254], [1, 2, 3, 4, 5, 254]):
            for _ in range(60 if self.big else 6):
                b = self.hpai() + [x for t in ts for x in self.dib(t)]
                self.put("d.sresp", hdr(0x202, 6 + len(b)) + b)
        # names: every byte value, at every position, text after the end of the name
        for v in range(256):
            for name in ([v] * 30, [65] * (v % 30) + [v] + [66] * (29 - v % 30), [65, 0, v] + [0] * 27, [v] + [0] * 29):
                f = self.dib(1)
                f[24:54] = name
                self.put("d.dib", f)
        # noise
        for _ in range(20000 if self.big else 1500):
            b = [r.randrange(256) for _ in range(r.randrange(0, 70))]
            if r.random() < 0.7:
                b[:2] = [6, 16]
            self.decode([r.choice(self.FRAMES)], b)

    def encoders(self):
        r = self.r
        n = 3000 if self.big else 300
        for v in (0, 1):
            self.put("e.connreq", [v])
            self.put("e.sreq", [v], [1] + self.ip() + [self.w16()])
        for v in (0, 1, 2):
            self.put("e.cri", [v])
            self.put("e.hpai", [v], [1] + self.ip() + [self.w16()])
        for m in range(256):
            h = [self.byte()] + self.ip() + [self.w16()]
            self.put("e.csreq", [m], h)
            self.put("e.disreq", [m], h)
            self.put("e.csresp", [m, r.randrange(256)])
            self.put("e.csresp", [r.randrange(256), m])
            self.put("e.disresp", [m, r.randrange(256)])
            self.put("e.disresp", [r.randrange(256), m])
            self.put("e.ack", [m, r.randrange(256), r.randrange(256)])
            self.put("e.ack", [r.randrange(256), m, 0])
            self.put("e.ack", [1, 2, m])
            self.put("e.featset", [m, r.randrange(256), r.choice([2, 6, 7, 8]), self.byte()])
            self.put("e.featset", [3, m, r.choice([2, 6, 7, 8]), m])
            self.put("e.featresp", [m, self.byte(), r.choice([2, 6, 7, 8]), self.byte(), 255 - m])
            self.put("e.featresp", [self.byte(), m, r.choice([2, 6, 7, 8]), m, self.byte()])
            self.put("e.hdr", [m * 257, 65535 - m * 257])
        for _ in range(n):
            self.put("e.hdr", [self.w16(), self.w16()])
            self.put("e.hpai", [2], [1] + self.ip() + [self.w16()])
            self.put("e.sreq", [1], [1] + self.ip() + [self.w16()])
            self.put("e.csreq", [self.byte()], [self.byte()] + self.ip() + [self.w16()])
            self.put("e.disreq", [self.byte()], [self.byte()] + self.ip() + [self.w16()])
            self.put("e.dibinfo", [r.choice([2, 3, 16, 32, 2, 3, 16, 32, 1]), r.randrange(256), self.w16(), self.w16()],
                     [r.choice([65, 122, 32, 233, 255, 65, 65, 300 if r.random() < 0.05 else 66]) for _ in range(r.choice([0, 1, 5, 29, 30, 31, 40]))])
        for l in list(range(0, 40)) + [200, 244, 245, 246, 247, 255, 256, 257, 300, 500, 1014] + ([2000, 10000, 65525] if self.big else []):
            self.put("e.tunreq", [self.byte(), self.byte()], [r.randrange(256) for _ in range(l)])
        # blocks and answers put together by the caller, whatever length was noted down in them
        note = lambda: r.choice([0, 2, 54, 7, 255, r.randrange(256)])
        for k in range(0, 127, 1 if self.big else 3):
            self.put("e.dibfam", [note()], self.bytes(2 * k))
            self.put("e.dibaddr", [note()], [self.w16() for _ in range(1 + min(k, 125))])
        for k in range(0, 251):
            self.put("e.dibman", [note(), self.w16()], self.bytes(k))
        for _ in range(n // 3):
            self.put("e.dibip", [note()], self.bytes(14))
            self.put("e.dibcur", [note()], self.bytes(18))
            self.put("e.sresp", [note(), r.choice([2, 3, 16, 32]), self.byte(), self.w16(), self.w16()], [r.choice([1, 2])] + self.ip() + [self.w16()],
                     [r.choice([65, 122, 233]) for _ in range(r.randrange(31))], self.bytes(2 * r.choice([0, 1, 2, 5, 20, 126])))
        # decoded and encoded again, also where the block is longer than what is understood of it
        for _ in range(n // 3):
            f, k = self.dib(r.choice([2, 5])), r.randrange(2, 256)
            f = [k] + f[1:2] + self.bytes(k)
            self.put("d.dib", f)
            g = self.hpai() + self.dib(1) + [k, 2] + self.bytes(k)
            self.put("d.sresp", hdr(0x202, 6 + len(g)) + g)
            g = self.dib(1)
            g[0] = r.choice([54, 55, 2, 0, r.randrange(256)])
            self.put("d.dib", g)
            g = self.hpai() + g + self.dib(2)
            self.put("d.sresp", hdr(0x202, 6 + len(g)) + g)
        for _ in range(n // 3):
            for name in self.FRAMES:
                self.put("d." + name, self.frame(name))

    # ---- cEMI --------------------------------------------------------------
    def ldata(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 15, 60])
        return [r.randrange(256), r.randrange(256)] + b16(self.w16()) + b16(self.w16()) + [n] + self.bytes(2 + max(0, n - 1))

    def infos(self):
        r = self.r
        b = []
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            v = self.bytes(r.choice([0, 1, 2, 4, 6, 20]))
            b += [r.choice(list(range(1, 11)) + [254]), len(v)] + v
        return b

    def cemi(self):
        r = self.r
        i = self.infos()
        return [r.choice([41, 46, 43, 17, r.randrange(256)]), len(i) & 255] + i + self.ldata()

    def all_cemi(self, b):
        for op in ("d.cemi", "d.con", "d.ind"):
            self.put(op, b)

    def cemis(self):
        r = self.r
        for _ in range(400 if self.big else 60):
            b = self.cemi()
            self.all_cemi(b)
            for j in range(len(b)):
                self.all_cemi(b[:j])
            self.all_cemi(b + self.bytes(r.randrange(1, 4)))
            for j in range(min(len(b), 14)):
                for v in {0, 1, 2, 15, 127, 128, 255, b[j] ^ 1, b[j] ^ 16, b[j] ^ 128, (b[j] + 1) % 256, (b[j] - 1) % 256}:
                    g = list(b)
                    g[j] = v
                    self.all_cemi(g)
        for v in range(256):
            base = [0xbc, 0xe0, 0x11, 0x0b, 0x0a, 0x03, 1, 0, 0x80]
            for j in range(9):
                g = list(base)
                g[j] = v
                self.all_cemi([41, 0] + g)
                self.all_cemi([46, 0] + g + [1, 2, 3])
            self.all_cemi([v, 0] + base)
            self.all_cemi([41, 3, v, 1, 9] + base)
            self.all_cemi([41, v] + [3, 1, 9] * 5 + base)
            self.all_cemi([41, 5, 3, v, 9] + self.bytes(8) + base)
            # data length against the data there is
            for have in {v - 2, v - 1, v, v + 1, 3}:
                if have >= 0:
                    self.all_cemi([41, 0] + base[:6] + [v, 0, 0x81] + [r.randrange(256) for _ in range(have)])
            self.all_cemi([41, 0] + base[:7] + [r.randrange(256), v])
            self.all_cemi([41, 0] + base[:7] + [v, r.randrange(256), 7])
        for _ in range(20000 if self.big else 1500):
            b = [r.randrange(256) for _ in range(r.randrange(0, 40))]
            if len(b) > 1 and r.random() < 0.7:
                b[1] = 0
            self.all_cemi(b)

    # ---- telegrams -----------------------------------------------------------
    def telegrams(self):
        r = self.r
        for f in range(0, 12):
            for _ in range(200 if self.big else 40):
                n = {2: r.choice([1, 2, 3, 13, 14, 15, 16, 100, 252, 253]), 11: r.choice([1, 2, 8]), 1: r.choice([0, 1, 2])}.get(f, 4 if f == 8 else 2 if f in (7, 9) else 1)
                d = [r.randrange(256) for _ in range(n)]
                self.put("e.ldata", [r.choice([-1, 0, 1, 2, 3]), self.w16()], [f], d)
                self.put("e.apdu", [f], d)
                self.put("e.tpdu", [f, r.randrange(7)], d)
        for v in range(256):
            for f in (1, 3, 4, 5, 6, 10):
                self.put("e.ldata", [-1, self.w16()], [f], [v])
                self.put("e.apdu", [f], [v])
            self.put("e.ldata", [-1, 257 * v], [0], [])
            self.put("e.ldata", [v, 2563], [0], [])
        for n in range(1, 254):
            self.put("e.ldata", [-1, self.w16()], [2], [r.randrange(256) for _ in range(n)])
        for a in (range(0, 65536) if self.big else range(0, 65536, 61)):
            self.put("e.ldata", [r.choice([-1, 0, 1, 2, 3]), a], [r.choice([0, 1])], [1])

    # ---- addresses -------------------------------------------------------------
    def text(self, op, s):
        self.put(op, [ord(c) for c in s] if all(ord(c) < 128 for c in s) else list(s.encode()))

    def addresses(self):
        r = self.r
        for v in range(65536):
            self.put("a.ind", [v])
            self.put("a.g3", [v])
        for v in (range(65536) if self.big else range(0, 65536, 17)):
            self.put("a.mk", [0, v >> 12, v >> 8 & 15, v & 255])
            self.put("a.mk", [1, v])
            self.put("a.mk", [2, v >> 11, v & 255])
            self.put("a.mk", [3, v >> 11, v >> 8 & 7, v & 255])
        texts = set()
        nums = list(range(0, 20)) + [30, 31, 32, 33, 63, 64, 100, 127, 128, 254, 255, 256, 257, 300, 999, 65535, 65536, 99999, 4294967296, 10 ** 20]
        for v in range(0, 301):
            for seps in ("..", "//"):
                a, b, c = r.choice([0, 1, 7, 15, 31]), r.choice([0, 1, 7]), r.randrange(256)
                for t in ((v, b, c), (a, v, c), (a, b, v)):
                    texts.add("%d%s%d%s%d" % (t[0], seps[0], t[1], seps[1], t[2]))
            texts.add("%d/%d" % (v, r.randrange(256)))
            texts.add("%d/%d" % (r.randrange(32), v))
            texts.add("%d" % v)
        for _ in range(20000 if self.big else 3000):
            k = r.randrange(1, 5)
            sep = r.choice("./")
            texts.add(sep.join(str(r.choice(nums)) for _ in range(k)))
            texts.add("%d.%d.%d" % (r.randrange(17), r.randrange(17), r.randrange(260)))
            texts.add("%d/%d/%d" % (r.randrange(33), r.randrange(9), r.randrange(260)))
            texts.add(str(r.randrange(70000)))
        junk = ["", " ", "/", "//", "///", ".", "..", "...", "1.", ".1", "1/", "/1", "1//2", "1..2", "1/2/", "/1/2", "1.2.3.", ".1.2.3", "1.2/3", "1/2.3", "a", "1.a.2", "a/b/c",
                "-1", "-1/2/3", "1/-2/3", "1/2/-3", "-1.2.3", "1.2.-3", " 1/2/3", "1/2/3 ", "1 /2/3", "1/2/3/4", "1.2.3.4", "1.2", "0x1", "1e2", "1,2,3", "1\\2\\3", "\u00bd", "\u0661", "1/\u00e9/2",
                "007", "007/01/002", "01.02.003", "0000000000000000001/0/0", "1_000", "00", "0/0", "0/0/0", "0.0.0", "15.15.255", "31/7/255", "31/255", "32/0/0", "31/8/0", "31/7/256", "16.0.0", "15.16.0", "15.15.256"]
        texts |= set(junk)
        for _ in range(3000 if self.big else 400):
            t = list(r.choice(junk + ["1.2.3", "1/2/3", "12/3", "4711"]))
            for _ in range(r.randrange(1, 3)):
                t.insert(r.randrange(len(t) + 1), r.choice("0123456789./ -a\u00e9"))
            texts.add("".join(t))
        odd = [chr(c) for c in range(128) if chr(c) not in "0123456789./+"] + list("\u00a0\u00b2\u0085\u2003\u2028\u200b\ufeff\uff11\u0661\u2215\u3002")
        for c in odd:
            for t in ("1.2.3", "1/2/3", "12/3", "4711"):
                texts.add(t + c)
                texts.add(c + t)
                i = r.randrange(1, len(t))
                texts.add(t[:i] + c + t[i:])
                texts.add(t.replace(".", c).replace("/", c) if t != "4711" else c)
                texts.add(t.replace("/", "/" + c, 1).replace(".", "." + c, 1))
        texts |= {t + e for t in ("1.2.3", "1/2/3", "12/3", "4711") for e in ("\r\n", "\n\n", "  ", "\t ")}
        for t in sorted(texts):
            for op in ("a.text", "a.itext", "a.gtext"):
                self.text(op, t)

    # ---- datapoint types ---------------------------------------------------------
    def floats(self):
        r = self.r
        for w in range(65536):
            self.put("p.f.dec", b16(w))
        for n in (0, 1, 3, 4, 8):
            self.put("p.f.dec", self.bytes(n))
        ks = set()
        for e in range(17):
            s = 16 << e
            for m in (0, 1, 2, 100, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 2049):
                for d in (0, 1, -1, s // 2, s // 2 - 1, s // 2 + 1, -(s // 2), s // 4, 3 * s // 4, s - 1):
                    for sg in (1, -1):
                        ks.add(sg * (m * s + d))
        for _ in range(200000 if self.big else 20000):
            m = 2 ** r.uniform(0, 30.2)
            ks.add(int(r.choice([1, -1]) * m))
        for k in range(-3000, 3000, 1 if self.big else 7):
            ks.add(k)
        for k in range(-40000, 40000, 16 if self.big else 80):
            ks.add(k)
        for k in sorted(ks):
            if abs(k) <= 2147000000:
                self.put("p.f.enc", [k, r.randrange(2)])
        special = [0, 0x80000000, 1, 0x80000001, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f7fffff, 0xff7fffff, 0x4923d70a, 0x4923d70b, 0xc923d70a, 0xc923d70b, 0x4cbebc20, 0x4f000000, 0xcf000000]
        for b in special + [r.getrandbits(32) for _ in range(20000 if self.big else 2000)] + [struct.unpack(">I", struct.pack(">f", r.choice([1, -1]) * 10 ** r.uniform(5, 38)))[0] for _ in range(500)]:
            self.put("p.f.bits", [b >> 16, b & 65535])

    def values(self):
        r = self.r
        for v in range(256):
            for o in (0, 1):
                self.put("p.bit.mk", [v, o])
            self.put("p.b1u3.mk", [v])
            for d in range(2):
                self.put("p.b1u3.dim", [r.randrange(2), v, d])
                self.put("p.b1u3.dim", [d, v, r.randrange(2)])
            self.put("p.byte.mk", [v])
            self.put("p.scal.raw", [v])
            for op in ("bit", "b1u3", "byte", "scal"):
                self.put("p.%s.from" % op, [v])
                self.put("p.%s.from" % op, [v] + self.bytes(r.randrange(1, 4)))
            self.put("p.word.from", [v, r.randrange(256)])
            self.put("p.word.from", [r.randrange(256), v])
            self.put("p.int.from", [v, r.randrange(256)])
            self.put("p.int.from", [r.randrange(256), v])
            for j in range(4):
                b = [r.randrange(256) for _ in range(4)]
                b[j] = v
                self.put("p.ulong.from", b)
        for op in ("bit", "b1u3", "byte", "scal", "word", "int", "ulong"):
            for n in range(0, 7):
                self.put("p.%s.from" % op, self.bytes(n))
        edge = [0, 1, 2, 99, 100, 127, 128, 255, 256, 326, 327, 328, 329, 32766, 32767]
        for v in set(edge) | {-x for x in edge} | {-32768} | set(range(-32768, 32768, 1 if self.big else 53)):
            for o in (0, 1, 2):
                self.put("p.int.mk", [v, o])
        for v in set(edge) | {32768, 65534, 65535} | set(range(0, 65536, 1 if self.big else 53)):
            self.put("p.word.mk", [v])
            self.put("p.ulong.mk", [v, r.randrange(65536)])
            self.put("p.ulong.mk", [r.randrange(65536), v])
        for p in list(range(0, 10001, 1 if self.big else 5)) + [-1, -30, -100, -20000, 10001, 10020, 10100, 12000, 20000, 1000000]:
            self.put("p.scal.mk", [p])

    def labels(self):
        r = self.r
        need = {"bit": 1, "b1u3": 1, "byte": 1, "scal": 1, "word": 2, "int": 2, "float": 2, "ulong": 4}
        ways = {"bit": 1, "scal": 1, "b1u3": 2, "int": 2, "float": 1}
        for t, n in need.items():
            for w in [0] + list(range(1, ways.get(t, 0) + 1)) + [9] + [8] * (t == "float"):
                many = [[v] * n for v in range(256)] if n == 1 else [b16(v) * (n // 2) for v in range(0, 65536, 17 if self.big else 257)]
                many += [[r.randrange(256) for _ in range(n)] for _ in range(2000 if self.big else 200)]
                for b in many:
                    self.put("l." + t, [w], b)
                if w >= 8:
                    for k in range(0, 16):
                        self.put("l." + t, [w], self.bytes(k))
                        self.put("l." + t, [w], [0] * k)
                        self.put("l." + t, [w], [255] * k)


PARTS = {
    "C18": ["frames"],
    "C19": ["encoders"],
    "C20": ["cemis"],
    "C21": ["telegrams"],
    "C22": ["addresses"],
    "C23": ["floats"],
    "C24": ["values"],
    "C25": ["labels"],
}


def vectors(prop, seed, thorough=False):
    v = Vec(seed, thorough)
    for p in PARTS[prop]:
        getattr(v, p)()
    return v.out
