------------------------------- MODULE KnxWire -------------------------------
(***************************************************************************)
(* KNXnet/IP frames, cEMI messages and L_Data services as byte sequences.  *)
(* A decoder maps a byte sequence to a record with field ok; every kind of *)
(* error is the same Bad record, because an error is an error to callers.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Bad == [ok |-> FALSE]
U16(b, i) == b[i] * 256 + b[i + 1]
W16(n) == <<n \div 256, n % 256>>
Cut(b, i, n) == SubSeq(b, i, i + n - 1)          \* n bytes from offset i (1-based)
From(b, i) == SubSeq(b, i, Len(b))
Take(b, n) == IF Len(b) <= n THEN b ELSE SubSeq(b, 1, n)
Bit(x, n) == (x \div (2 ^ n)) % 2
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
Zeros(n) == [i \in 1..n |-> 0]

----------------------------------------------------------------------------
\* KNXnet/IP header (03.08.02, 2.3)
HdrLen == 6
Version == 16
Header(sid, n) == <<HdrLen, Version>> \o W16(sid) \o W16(n)
DecHeader(b) ==
    IF Len(b) >= 6 /\ b[1] = HdrLen /\ b[2] = Version
    THEN [ok |-> TRUE, sid |-> U16(b, 3), total |-> U16(b, 5)]
    ELSE Bad
HdrIs(b, sid) == LET h == DecHeader(b) IN h.ok /\ h.sid = sid

\* Service identifiers
SidSearchReq == 513    \* 0x0201
SidSearchRes == 514
SidConnReq == 517      \* 0x0205
SidConnRes == 518
SidStateReq == 519     \* 0x0207
SidStateRes == 520
SidDiscReq == 521      \* 0x0209
SidDiscRes == 522
SidTunReq == 1056      \* 0x0420
SidTunAck == 1057
SidFeatRes == 1059     \* 0x0423
SidFeatSet == 1060

----------------------------------------------------------------------------
\* Host protocol address information (8 bytes)
EncHpai(h) == <<8, h.code>> \o h.ip \o W16(h.port)
DecHpai(b) ==
    IF Len(b) >= 8 /\ b[1] = 8
    THEN [ok |-> TRUE, code |-> b[2], ip |-> Cut(b, 3, 4), port |-> U16(b, 7)]
    ELSE Bad
HpaiUdp == [code |-> 1, ip |-> <<0, 0, 0, 0>>, port |-> 0]
HpaiTcp == [code |-> 2, ip |-> <<0, 0, 0, 0>>, port |-> 0]
FlatHpai(h) == <<h.code>> \o h.ip \o <<h.port>>

\* Connection request information / response data block
EncCri(layer) == <<4, 4, layer, 0>>
LayerLink == 2
LayerRaw == 4
LayerBusmon == 128
DecCrd(b) == IF Len(b) >= 4 /\ b[1] = 4 /\ b[2] = 4
             THEN [ok |-> TRUE, addr |-> U16(b, 3)] ELSE Bad
EncCrd(a) == <<4, 4>> \o W16(a)

----------------------------------------------------------------------------
\* Core services
EncConnReq(layer) ==
    Header(SidConnReq, 26) \o EncHpai(HpaiUdp) \o EncHpai(HpaiUdp) \o EncCri(layer)

\* Error codes after which a connection response carries no further data
NoDataStatus == {34, 35, 36, 41}    \* 0x22 0x23 0x24 0x29
DecConnRes(b) ==
    IF ~HdrIs(b, SidConnRes) \/ Len(b) < 20 THEN Bad
    ELSE LET hp == DecHpai(From(b, 9))
             crd == DecCrd(From(b, 17))
         IN  IF U16(b, 5) >= 8 /\ b[8] \notin NoDataStatus /\ hp.ok /\ crd.ok
             THEN [ok |-> TRUE, ch |-> b[7], st |-> b[8], ep |-> hp, ia |-> crd.addr]
             ELSE Bad
EncConnRes(c) == Header(SidConnRes, 20) \o <<c.ch, c.st>> \o EncHpai(c.ep) \o EncCrd(c.ia)

EncStateReq(ch, ep) == Header(SidStateReq, 16) \o <<ch, 0>> \o EncHpai(ep)
EncDiscReq(ch, ep) == Header(SidDiscReq, 16) \o <<ch, 0>> \o EncHpai(ep)
DecReq(b, sid) ==        \* connection state and disconnect requests have the same shape
    IF ~HdrIs(b, sid) \/ Len(b) < 16 THEN Bad
    ELSE LET hp == DecHpai(From(b, 9))
         IN  IF hp.ok THEN [ok |-> TRUE, ch |-> b[7], ep |-> hp] ELSE Bad
DecStateReq(b) == DecReq(b, SidStateReq)
DecDiscReq(b) == DecReq(b, SidDiscReq)

DecStatus(b, sid) ==     \* connection state and disconnect responses
    IF HdrIs(b, sid) /\ U16(b, 5) = 8 /\ Len(b) >= 8
    THEN [ok |-> TRUE, ch |-> b[7], st |-> b[8]] ELSE Bad
DecStateRes(b) == DecStatus(b, SidStateRes)
DecDiscRes(b) == DecStatus(b, SidDiscRes)
EncStateRes(ch, st) == Header(SidStateRes, 8) \o <<ch, st>>
EncDiscRes(ch, st) == Header(SidDiscRes, 8) \o <<ch, st>>

----------------------------------------------------------------------------
\* Tunnelling services
EncTunReq(ch, seq, cemi) == Header(SidTunReq, 10 + Len(cemi)) \o <<4, ch, seq, 0>> \o cemi
DecTunReq(b) ==
    IF ~HdrIs(b, SidTunReq) \/ Len(b) < 10 THEN Bad
    ELSE LET n == U16(b, 5)
         IN  IF n >= 10 /\ b[7] = 4 /\ Len(b) >= n
             THEN [ok |-> TRUE, ch |-> b[8], seq |-> b[9], cemi |-> Cut(b, 11, n - 10)]
             ELSE Bad
EncTunAck(ch, seq, st) == Header(SidTunAck, 10) \o <<4, ch, seq, st>>
DecTunAck(b) ==
    IF HdrIs(b, SidTunAck) /\ Len(b) >= 10 /\ U16(b, 5) = 10 /\ b[7] = 4
    THEN [ok |-> TRUE, ch |-> b[8], seq |-> b[9], st |-> b[10]] ELSE Bad
Features == {2, 6, 7, 8}
FeatInfoService == 8
EncFeatSet(ch, seq, f, v) == Header(SidFeatSet, 13) \o <<4, ch, seq, 0, f, 0, v>>
EncFeatRes(r) == Header(SidFeatRes, 13) \o <<4, r.ch, r.seq, 0, r.f, r.st, r.v>>
DecFeatRes(b) ==
    IF HdrIs(b, SidFeatRes) /\ Len(b) >= 13 /\ U16(b, 5) = 13 /\ b[7] = 4 /\ b[11] \in Features
    THEN [ok |-> TRUE, ch |-> b[8], seq |-> b[9], f |-> b[11], st |-> b[12], v |-> b[13]]
    ELSE Bad

\* What a datagram means to an established session
Classify(b) ==
    IF Len(b) < 4 THEN [k |-> "bad"]
    ELSE LET c == U16(b, 3)
             As(k, r) == IF r.ok THEN [k |-> k, r |-> r] ELSE [k |-> "bad"]
         IN  CASE c = SidTunReq -> As("tun", DecTunReq(b))
               [] c = SidTunAck -> As("ack", DecTunAck(b))
               [] c = SidFeatRes -> As("feat", DecFeatRes(b))
               [] c = SidStateRes -> As("state", DecStateRes(b))
               [] c = SidDiscRes -> As("dres", DecDiscRes(b))
               [] c = SidDiscReq -> As("dreq", DecDiscReq(b))
               [] OTHER -> [k |-> "bad"]

----------------------------------------------------------------------------
\* cEMI (03.06.03)
McInd == 41       \* 0x29 L_Data.ind
McCon == 46       \* 0x2e L_Data.con
McReq == 17       \* 0x11 L_Data.req
McBusmon == 43    \* 0x2b L_Busmon.ind
InfoTypes == (1..10) \cup {254}

RECURSIVE AddInfos(_, _, _)
\* Additional informations from offset i until at least n bytes are used
AddInfos(b, i, n) ==
    IF n <= 0 THEN [ok |-> TRUE, l |-> <<>>, next |-> i]
    ELSE IF i + 1 > Len(b) THEN Bad
    ELSE IF b[i] \notin InfoTypes \/ i + 1 + b[i + 1] > Len(b) THEN Bad
    ELSE LET r == AddInfos(b, i + 2 + b[i + 1], n - 2 - b[i + 1])
         IN  IF r.ok THEN [ok |-> TRUE, l |-> <<[t |-> b[i], v |-> Cut(b, i + 2, b[i + 1])]>> \o r.l, next |-> r.next]
             ELSE Bad
DecCemi(b) ==
    IF Len(b) < 2 THEN Bad
    ELSE LET a == AddInfos(b, 3, b[2])
         IN  IF a.ok THEN [ok |-> TRUE, mc |-> b[1], infos |-> a.l, si |-> From(b, a.next)] ELSE Bad

LData(si) == [src |-> U16(si, 3), dest |-> U16(si, 5), std |-> Bit(si[1], 7), rep |-> Bit(si[1], 5),
              bc |-> Bit(si[1], 4), ack |-> Bit(si[1], 1)]
\* Confirmation: only control and address fields are looked at
DecCon(si) ==
    IF Len(si) < 6 THEN Bad
    ELSE [ok |-> TRUE, d |-> LData(si), confirm |-> Bit(si[1], 0) = 0]
\* Indication: application service and value as well
DecInd(si) ==
    IF Len(si) < 9 THEN Bad
    ELSE LET n == IF si[7] > 0 THEN si[7] - 1 ELSE 0
             w == U16(si, 8)
         IN  IF Len(si) < 9 + n THEN Bad
             ELSE [ok |-> TRUE, d |-> LData(si), apci |-> (w \div 64) % 16,
                   value |-> IF n > 0 THEN Cut(si, 10, n) ELSE <<w % 64>>]
FlatLData(d) == <<d.src, d.dest, d.std, d.rep, d.bc, d.ack>>

ApciRead == 0
ApciResponse == 1
ApciWrite == 2
\* Application PDU: two octets, six data bits in the second or data behind it
ApduSmall(apci, d) == <<apci \div 4, (apci % 4) * 64 + (d % 64)>>
ApduBig(apci, v) == <<apci \div 4, (apci % 4) * 64>> \o v
MaxValueLen == 253
\* L_Data.req: standard frame, no repetition, broadcast, group address, hop count 6
EncLDataReq(prio, dest, apdu) ==
    <<McReq, 0, 128 + 32 + 16 + (prio % 4) * 4, 224, 0, 0>> \o W16(dest) \o <<Len(apdu) - 1>> \o apdu
PrioLow == 3
ReadTelegram(dest) == EncLDataReq(PrioLow, dest, ApduSmall(ApciRead, 0))
WriteTelegram(dest, small, v) ==
    EncLDataReq(PrioLow, dest,
        IF small THEN ApduSmall(ApciWrite, IF v = <<>> THEN 0 ELSE v[1]) ELSE ApduBig(ApciWrite, v))

----------------------------------------------------------------------------
\* Description information blocks (03.08.02, 7.5.4)
Media == {2, 3, 16, 32}
\* b starts at the structure length; used = bytes consumed
DecDib(b) ==
    IF Len(b) < 2 THEN Bad
    ELSE LET n == b[1]
             t == b[2]
             d == From(b, 3)
         IN
         CASE t = 1 ->
                IF Len(d) >= 52 /\ d[1] \in Media
                THEN [ok |-> TRUE, n |-> n, t |-> t, used |-> 54, medium |-> d[1], status |-> d[2] % 2,
                      ia |-> U16(d, 3), proj |-> U16(d, 5), serial |-> Cut(d, 7, 6), mcast |-> Cut(d, 13, 4),
                      mac |-> Cut(d, 17, 6), name |-> Cut(d, 23, 30)]
                ELSE Bad
           [] t = 2 ->
                LET k == (n - 2) \div 2
                IN  IF n >= 2 /\ Len(d) >= 2 * k
                    THEN [ok |-> TRUE, n |-> n, t |-> t, used |-> 2 + 2 * k, fam |-> Cut(d, 1, 2 * k)]
                    ELSE Bad
           [] t = 3 -> IF Len(d) >= 14 THEN [ok |-> TRUE, n |-> n, t |-> t, used |-> 16, data |-> Cut(d, 1, 14)] ELSE Bad
           [] t = 4 -> IF Len(d) >= 18 THEN [ok |-> TRUE, n |-> n, t |-> t, used |-> 20, data |-> Cut(d, 1, 18)] ELSE Bad
           [] t = 5 ->
                LET k == (n - 4) \div 2
                IN  IF n >= 4 /\ Len(d) >= 2 + 2 * k
                    THEN [ok |-> TRUE, n |-> n, t |-> t, used |-> 4 + 2 * k,
                          addrs |-> [j \in 1..(k + 1) |-> U16(d, 2 * j - 1)]]
                    ELSE Bad
           [] t = 254 ->
                IF n >= 4 /\ Len(d) >= n - 2
                THEN [ok |-> TRUE, n |-> n, t |-> t, used |-> n, id |-> U16(d, 1), data |-> Cut(d, 3, n - 4)]
                ELSE Bad
           [] OTHER -> Bad
DibData(r) ==
    CASE r.t = 1 -> <<r.medium, r.status>> \o W16(r.ia) \o W16(r.proj) \o r.serial \o r.mcast \o r.mac \o r.name
      [] r.t = 2 -> r.fam
      [] r.t \in {3, 4} -> r.data
      [] r.t = 5 -> Concat([j \in 1..Len(r.addrs) |-> W16(r.addrs[j])])
      [] r.t = 254 -> W16(r.id) \o r.data
\* Encoded block: own length, always even
EncDib(r) ==
    LET d == DibData(r)
        pad == Len(d) % 2
    IN  <<2 + Len(d) + pad, r.t>> \o d \o Zeros(pad)
FlatDib(r) ==
    <<r.n, r.t>> \o
    CASE r.t = 1 -> <<r.medium, r.status, r.ia, r.proj>> \o r.serial \o r.mcast \o r.mac \o r.name \o r.name
      [] r.t = 2 -> r.fam
      [] r.t \in {3, 4} -> r.data
      [] r.t = 5 -> r.addrs
      [] r.t = 254 -> <<r.id>> \o r.data

----------------------------------------------------------------------------
\* Discovery
EncSearchReq(ep) == Header(SidSearchReq, 14) \o EncHpai(ep)
DecSearchReq(b) ==
    IF ~HdrIs(b, SidSearchReq) \/ ~DecHpai(From(b, 7)).ok THEN Bad
    ELSE [ok |-> TRUE, ep |-> DecHpai(From(b, 7))]
MulticastIp == <<224, 0, 23, 12>>
DiscoveryPort == 3671
DecSearchRes(b) ==
    IF ~HdrIs(b, SidSearchRes) \/ ~DecHpai(From(b, 7)).ok THEN Bad
    ELSE LET dev == DecDib(From(b, 15))
         IN  IF ~dev.ok \/ (dev.ok /\ dev.t # 1) THEN Bad
             ELSE LET svc == DecDib(From(b, 15 + dev.used))
                  IN  IF ~svc.ok \/ (svc.ok /\ svc.t # 2) THEN Bad
                      ELSE [ok |-> TRUE, ep |-> DecHpai(From(b, 7)), dev |-> dev, svc |-> svc]
EncSearchRes(r) ==
    LET body == EncHpai(r.ep) \o EncDib(r.dev) \o EncDib(r.svc)
    IN  Header(SidSearchRes, 6 + Len(body)) \o body
FlatSearchRes(r) ==
    FlatHpai(r.ep)
    \o <<r.dev.n, r.dev.medium, r.dev.status, r.dev.ia, r.dev.proj>> \o r.dev.serial \o r.dev.mcast \o r.dev.mac \o r.dev.name
    \o <<r.svc.n, Len(r.svc.fam) \div 2>> \o r.svc.fam
=============================================================================
