------------------------------- MODULE KnxCodec ------------------------------
(***************************************************************************)
(* Conformance of the pure functions of the real code: a vector records    *)
(* the arguments given to a function of the library and its result, and    *)
(* this module decides whether KnxWire and KnxData allow that result.      *)
(*   v.k = 1 result, 0 error, 2 panic;  v.f fields;  v.e encoded bytes     *)
(***************************************************************************)
EXTENDS KnxData, TLC, TLCExt, Json, IOUtils

File == IOEnv.KNX_VECTORS
Vectors == ndJsonDeserialize(File)

Ok(f, e) == [k |-> 1, f |-> f, e |-> e]
Refused == [k |-> 0, f |-> <<>>, e |-> <<>>]
Hpai(h) == [code |-> h[1], ip |-> SubSeq(h, 2, 5), port |-> h[6]]

FlatInfos(l) == Concat([j \in 1..Len(l) |-> <<Len(l[j].v), l[j].t>> \o l[j].v])

Decoded(op, b) ==
    CASE op = "d.hdr" -> LET r == DecHeader(b) IN IF r.ok THEN Ok(<<r.sid, r.total, 6>>, Header(r.sid, r.total)) ELSE Refused
      [] op = "d.hpai" -> LET r == DecHpai(b) IN IF r.ok THEN Ok(FlatHpai(r) \o <<8>>, EncHpai(r)) ELSE Refused
      [] op = "d.crd" -> LET r == DecCrd(b) IN IF r.ok THEN Ok(<<4>>, EncCrd(r.addr)) ELSE Refused
      [] op = "d.connresp" ->
            LET r == DecConnRes(b)
            IN  IF r.ok THEN Ok(<<r.ch, r.st>> \o FlatHpai(r.ep) \o EncDiscReq(r.ch, r.ep) \o EncStateReq(r.ch, r.ep), EncConnRes(r))
                ELSE Refused
      [] op = "d.csreq" -> LET r == DecStateReq(b) IN IF r.ok THEN Ok(<<r.ch>> \o FlatHpai(r.ep), EncStateReq(r.ch, r.ep)) ELSE Refused
      [] op = "d.csresp" -> LET r == DecStateRes(b) IN IF r.ok THEN Ok(<<r.ch, r.st>>, EncStateRes(r.ch, r.st)) ELSE Refused
      [] op = "d.disreq" -> LET r == DecDiscReq(b) IN IF r.ok THEN Ok(EncDiscRes(r.ch, 0), EncDiscReq(r.ch, r.ep)) ELSE Refused
      [] op = "d.disresp" -> LET r == DecDiscRes(b) IN IF r.ok THEN Ok(<<r.ch, r.st>>, EncDiscRes(r.ch, r.st)) ELSE Refused
      [] op = "d.sreq" -> LET r == DecSearchReq(b) IN IF r.ok THEN Ok(<<>>, EncSearchReq(r.ep)) ELSE Refused
      [] op = "d.sresp" -> LET r == DecSearchRes(b) IN IF r.ok THEN Ok(FlatSearchRes(r), EncSearchRes(r)) ELSE Refused
      [] op = "d.dib" -> LET r == DecDib(b) IN IF r.ok THEN Ok(FlatDib(r) \o <<r.used>>, EncDib(r)) ELSE Refused
      [] op = "d.tunreq" -> LET r == DecTunReq(b) IN IF r.ok THEN Ok(<<r.ch, r.seq>> \o r.cemi, EncTunReq(r.ch, r.seq, r.cemi)) ELSE Refused
      [] op = "d.ack" -> LET r == DecTunAck(b) IN IF r.ok THEN Ok(<<r.ch, r.seq, r.st>>, EncTunAck(r.ch, r.seq, r.st)) ELSE Refused
      [] op = "d.featresp" -> LET r == DecFeatRes(b) IN IF r.ok THEN Ok(<<r.ch, r.seq, r.f, r.st, r.v>>, EncFeatRes(r)) ELSE Refused
      [] op = "d.cemi" ->
            LET r == DecCemi(b) IN IF r.ok THEN Ok(<<r.mc, Len(r.infos)>> \o FlatInfos(r.infos) \o r.si, <<>>) ELSE Refused
      [] op = "d.con" ->
            LET r == DecCemi(b)
                d == IF r.ok THEN DecCon(r.si) ELSE Bad
            IN  IF d.ok THEN Ok(FlatLData(d.d) \o <<IF d.confirm THEN 1 ELSE 0, r.mc>>, <<>>) ELSE Refused
      [] op = "d.ind" ->
            LET r == DecCemi(b)
                d == IF r.ok THEN DecInd(r.si) ELSE Bad
            IN  IF d.ok THEN Ok(FlatLData(d.d) \o <<d.apci, r.mc>> \o d.value, <<>>) ELSE Refused
      [] op = "d.parse" ->
            LET c == Classify(b)
            IN  CASE c.k = "bad" -> Refused
                  [] c.k = "tun" -> Ok(<<1, c.r.ch, c.r.seq>> \o c.r.cemi, <<>>)
                  [] c.k = "ack" -> Ok(<<2, c.r.ch, c.r.seq, c.r.st>>, <<>>)
                  [] c.k = "feat" -> Ok(<<3, c.r.ch, c.r.seq>>, <<>>)
                  [] c.k = "state" -> Ok(<<4, c.r.ch, c.r.st>>, <<>>)
                  [] c.k = "dres" -> Ok(<<5, c.r.ch, c.r.st>>, <<>>)
                  [] c.k = "dreq" -> Ok(<<6>>, EncDiscReq(c.r.ch, c.r.ep))

\* Application PDU built in one of several ways
Apdu(form, d) ==
    CASE form = 0 -> ApduSmall(ApciRead, 0)
      [] form \in {1, 3} -> ApduSmall(ApciWrite, IF d = <<>> THEN 0 ELSE IF form = 3 THEN (IF d[1] # 0 THEN 1 ELSE 0) ELSE d[1])
      [] form = 4 -> ApduSmall(ApciWrite, d[1] % 16)
      [] form \in {2, 7, 8, 9} -> ApduBig(ApciWrite, d)
      [] form \in {5, 6} -> ApduBig(ApciWrite, <<d[1]>>)
      [] form = 10 -> ApduSmall(ApciWrite, d[1])
      [] form = 11 -> ApduBig(ApciRead, d)

Name(t) == t \o Zeros(30 - Len(t))
Encoded(op, a) ==
    LET x == a[1]
    IN  Ok(<<>>,
        CASE op = "e.connreq" -> EncConnReq(IF x[1] = 0 THEN LayerLink ELSE LayerBusmon)
          [] op = "e.cri" -> EncCri(CASE x[1] = 0 -> LayerLink [] x[1] = 1 -> LayerRaw [] OTHER -> LayerBusmon)
          [] op = "e.hpai" -> CASE x[1] = 0 -> EncHpai(HpaiUdp) [] x[1] = 1 -> EncHpai(HpaiTcp)
                                [] OTHER -> EncHpai([Hpai(a[2]) EXCEPT !.code = 1])
          [] op = "e.csreq" -> EncStateReq(x[1], Hpai(a[2]))
          [] op = "e.disreq" -> EncDiscReq(x[1], Hpai(a[2]))
          [] op = "e.csresp" -> EncStateRes(x[1], x[2])
          [] op = "e.disresp" -> EncDiscRes(x[1], x[2])
          [] op = "e.ack" -> EncTunAck(x[1], x[2], x[3])
          [] op = "e.tunreq" -> EncTunReq(x[1], x[2], a[2])
          [] op = "e.featset" -> EncFeatSet(x[1], x[2], x[3], x[4])
          [] op = "e.featresp" -> EncFeatRes([ch |-> x[1], seq |-> x[2], f |-> x[3], st |-> x[4], v |-> x[5]])
          [] op = "e.hdr" -> Header(x[1], x[2])
          [] op = "e.sreq" -> IF x[1] = 0 THEN EncSearchReq([code |-> 1, ip |-> MulticastIp, port |-> DiscoveryPort])
                              ELSE EncSearchReq([Hpai(a[2]) EXCEPT !.code = 1])
          [] op = "e.dibinfo" ->
                EncDib([t |-> 1, medium |-> x[1], status |-> x[2] % 2, ia |-> x[3], proj |-> x[4],
                        serial |-> <<1, 2, 3, 4, 5, 6>>, mcast |-> MulticastIp, mac |-> <<9, 8, 7, 6, 5, 4>>, name |-> Name(a[2])])
          [] op = "e.dibfam" -> EncDib([t |-> 2, fam |-> a[2]])
          [] op = "e.dibip" -> EncDib([t |-> 3, data |-> a[2]])
          [] op = "e.dibcur" -> EncDib([t |-> 4, data |-> a[2]])
          [] op = "e.dibaddr" -> EncDib([t |-> 5, addrs |-> a[2]])
          [] op = "e.dibman" -> EncDib([t |-> 254, id |-> x[2], data |-> a[2]])
          [] op = "e.sresp" ->
                EncSearchRes([ep |-> Hpai(a[2]), svc |-> [t |-> 2, fam |-> a[4]],
                              dev |-> [t |-> 1, medium |-> x[2], status |-> x[3] % 2, ia |-> x[4], proj |-> x[5],
                                       serial |-> <<1, 2, 3, 4, 5, 6>>, mcast |-> MulticastIp, mac |-> <<9, 8, 7, 6, 5, 4>>, name |-> Name(a[3])]])
          [] op = "e.ldata" -> EncLDataReq(IF x[1] < 0 THEN PrioLow ELSE x[1], x[2], Apdu(a[2][1], a[3]))
          [] op \in {"e.apdu", "e.tpdu"} -> Apdu(x[1], a[2]))
EncRefused(op, a) ==
    op = "e.dibinfo" /\ (a[1][1] \notin Media \/ Len(a[2]) > 30 \/ \E i \in 1..Len(a[2]) : a[2][i] > 255)

FixedValue(op, a) ==
    LET x == a[1]
        n == Len(x)
        B(c) == IF c THEN 1 ELSE 0
    IN  CASE op = "p.bit.from" -> IF n < 1 THEN Refused ELSE Ok(<<B(x[1] # 0), 1>>, <<B(x[1] # 0)>>)
          [] op = "p.bit.mk" -> Ok(<<B(x[1] # 0), 1>>, <<B(x[1] # 0)>>)
          [] op = "p.b1u3.from" -> IF n < 1 THEN Refused ELSE Ok(<<x[1] % 16, 1>>, <<x[1] % 16>>)
          [] op = "p.b1u3.mk" -> Ok(<<x[1] % 16, 1>>, <<x[1] % 16>>)
          [] op = "p.b1u3.dim" -> LET v == 8 * B(x[1] # 0) + (x[2] % 8) IN Ok(<<v, 1>>, <<v>>)
          [] op = "p.byte.from" -> IF n < 1 THEN Refused ELSE Ok(<<x[1], 0>>, <<x[1]>>)
          [] op = "p.byte.mk" -> Ok(<<x[1], 0>>, <<x[1]>>)
          [] op = "p.word.from" -> IF n < 2 THEN Refused ELSE Ok(<<U16(x, 1), 0>>, SubSeq(x, 1, 2))
          [] op = "p.word.mk" -> Ok(<<x[1], 0>>, W16(x[1]))
          [] op = "p.ulong.from" -> IF n < 4 THEN Refused ELSE Ok(<<U16(x, 1), U16(x, 3), 0>>, SubSeq(x, 1, 4))
          [] op = "p.ulong.mk" -> Ok(<<x[1], x[2], 0>>, W16(x[1]) \o W16(x[2]))
          [] op = "p.int.from" -> IF n < 2 THEN Refused ELSE Ok(<<Signed(U16(x, 1), 16), 0>>, SubSeq(x, 1, 2))
          [] op = "p.int.mk" -> LET v == IF x[2] = 2 THEN Sat16(100 * x[1]) ELSE x[1] IN Ok(<<v, 0>>, B16(v))

\* Results that may be off by rounding
ApproxOk(v) ==
    LET x == v.a[1]
        n == Len(x)
        f == v.f
        e == v.e
        op == v.op
    IN  CASE op = "p.scal.from" -> IF n < 1 THEN v.k = 0
                                   ELSE v.k = 1 /\ f[1] = x[1] /\ Abs(f[2] - ScalVal(x[1])) <= 1 /\ f[3] = 0 /\ e = <<x[1]>>
          [] op = "p.scal.raw" -> v.k = 1 /\ f[1] = x[1] /\ Abs(f[2] - ScalVal(x[1])) <= 1 /\ f[3] = 0 /\ e = <<x[1]>>
          [] op = "p.scal.mk" -> v.k = 1 /\ Len(e) = 1 /\ NearScal(x[1], e[1]) /\ f[1] = e[1] /\ f[3] = 0
          [] op = "p.f.dec" ->
                IF n # 2 THEN v.k = 0
                ELSE LET r == FloatVal(U16(x, 1))
                         c == Rounding(r)
                     IN  v.k = 1 /\ Abs(f[1] - r) <= c /\ Abs(f[2] - r) <= c /\ Abs(f[3] - r) <= c /\ f[4] = 1 /\ f[5] = 0
          [] op = "p.f.enc" ->
                v.k = 1 /\ Len(e) = 2 /\ Near(x[1], U16(e, 1)) /\ f[2] = 0
          [] op = "p.f.bits" ->
                v.k = 1 /\ Len(e) = 2 /\ (f[1] = 1 => U16(e, 1) = 32767) /\ (f[1] = 2 => U16(e, 1) = 63488)

\* a[1] = <<way>>, a[2] = bytes or value
LabelOf(op, a) ==
    LET t == SubSeq(op, 3, Len(op))
        w == a[1][1]
    IN  IF w \in {Bytes, BytesNamed} /\ ~Readable(t, Len(a[2])) THEN Refused
        ELSE Ok(UnitOf(t, w), Code(Main(t), SubOf(t, w)))

Address(op, a) ==
    LET x == a[1]
    IN  CASE op = "a.text" -> LET r == ParseAddress(x) IN IF r.ok THEN Ok(<<r.kind, r.v>>, <<>>) ELSE Refused
          [] op = "a.itext" -> LET r == ParseIndividual(x) IN IF r.ok THEN Ok(<<r.v>>, <<>>) ELSE Refused
          [] op = "a.gtext" -> LET r == ParseGroup3(x) IN IF r.ok THEN Ok(<<r.v>>, <<>>) ELSE Refused
          [] op = "a.ind" -> Ok(<<x[1]>>, TextIndividual(x[1]))
          [] op = "a.g3" -> Ok(<<x[1]>>, TextGroup3(x[1]))
          [] op = "a.mk" ->
                Ok(<<CASE x[1] = 0 -> Individual(x[2], x[3], x[4]) [] x[1] = 1 -> x[2]
                       [] x[1] = 2 -> Group2(x[2], x[3]) [] OTHER -> Group3(x[2], x[3], x[4])>>, <<>>)

Approx == {"p.scal.from", "p.scal.raw", "p.scal.mk", "p.f.dec", "p.f.enc", "p.f.bits"}
Class(op) == SubSeq(op, 1, 2)
Expected(v) ==
    CASE Class(v.op) = "d." -> Decoded(v.op, v.a[1])
      [] Class(v.op) = "e." -> IF EncRefused(v.op, v.a) THEN Refused ELSE Encoded(v.op, v.a)
      [] Class(v.op) = "p." -> FixedValue(v.op, v.a)
      [] Class(v.op) = "l." -> LabelOf(v.op, v.a)
      [] Class(v.op) = "a." -> Address(v.op, v.a)

\* A block of 255 bytes can be received, but not be sent with an even length
TooBig(op, f) == op = "d.dib" /\ f # <<>> /\ f[1] = 255 /\ f[2] = 254
\* Which parts of the result the specification does not allow
Wrong(v) ==
    IF v.k = 2 THEN {"panic"}
    ELSE IF v.op \in Approx THEN IF ApproxOk(v) THEN {} ELSE {"value"}
    ELSE LET x == Expected(v)
         IN  IF x.k # v.k THEN {"accept"}
             ELSE (IF x.f # v.f THEN {"fields"} ELSE {}) \cup (IF x.e # v.e /\ ~TooBig(v.op, x.f) THEN {"bytes"} ELSE {})

----------------------------------------------------------------------------
VARIABLES i, nOk, nErr
Init == i = 1 /\ nOk = 0 /\ nErr = 0
Next ==
    /\ i <= Len(Vectors)
    /\ LET v == Vectors[i]
           w == Wrong(v)
       IN  /\ IF w = {} THEN TRUE
              ELSE PrintT("@WRONG " \o ToJson([i |-> i, op |-> v.op, w |-> w,
                                   x |-> IF v.op \in Approx THEN "approx" ELSE ToJson(Expected(v))]))
           /\ nOk' = nOk + (IF v.k = 1 THEN 1 ELSE 0)
           /\ nErr' = nErr + (IF v.k = 0 THEN 1 ELSE 0)
    /\ i' = i + 1
Done == i = Len(Vectors) + 1 => PrintT("@CODEC " \o ToJson([n |-> i - 1, ok |-> nOk, err |-> nErr]))
Spec == Init /\ [][Next]_<<i, nOk, nErr>>
=============================================================================
