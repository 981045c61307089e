------------------------------- MODULE MCCodec -------------------------------
(***************************************************************************)
(* Laws of the codecs of KnxWire and KnxData, checked for all values of    *)
(* the domain of Law.  x walks through the domain, one state per value.    *)
(***************************************************************************)
EXTENDS KnxData

CONSTANTS Law, Fine     \* Fine: step of the walk through the largest domains

VARIABLE x

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Ep == [code |-> 1, ip |-> <<10, 0, 255, 7>>, port |-> 3671]
Same(r, f) == r.ok /\ \A a \in DOMAIN f : r[a] = f[a]
Statuses == {0, 33, 34, 36, 41, 255}
SmallBytes == {0, 1, 4, 6, 8, 16, 255}

\* Every frame decodes to what it was built of, also when followed by something,
\* and is no other frame; no proper prefix of it is accepted as that frame
FrameSpace == {[f |-> f, a |-> a, b |-> b, c |-> c] :
    f \in {"connres", "statereq", "discreq", "stateres", "discres", "ack", "feat", "tun", "searchreq"},
    a \in {0, 1, 127, 128, 255}, b \in SmallBytes, c \in SmallBytes}
BuildFrame(v) ==
    CASE v.f = "connres" -> EncConnRes([ch |-> v.a, st |-> v.b, ep |-> [Ep EXCEPT !.port = v.c * 257], ia |-> v.c * 256 + v.b])
      [] v.f = "statereq" -> EncStateReq(v.a, [Ep EXCEPT !.code = v.b, !.port = v.c * 256])
      [] v.f = "discreq" -> EncDiscReq(v.a, [Ep EXCEPT !.code = v.b, !.port = v.c])
      [] v.f = "stateres" -> EncStateRes(v.a, v.b)
      [] v.f = "discres" -> EncDiscRes(v.a, v.b)
      [] v.f = "ack" -> EncTunAck(v.a, v.b, v.c)
      [] v.f = "feat" -> EncFeatRes([ch |-> v.a, seq |-> v.b, f |-> 8, st |-> v.c, v |-> v.b])
      [] v.f = "tun" -> EncTunReq(v.a, v.b, [i \in 1..v.c |-> i % 256])
      [] v.f = "searchreq" -> EncSearchReq([Ep EXCEPT !.port = v.a * 256 + v.b])
ReadFrame(v, b) ==
    CASE v.f = "connres" -> DecConnRes(b)
      [] v.f = "statereq" -> DecStateReq(b)
      [] v.f = "discreq" -> DecDiscReq(b)
      [] v.f = "stateres" -> DecStateRes(b)
      [] v.f = "discres" -> DecDiscRes(b)
      [] v.f = "ack" -> DecTunAck(b)
      [] v.f = "feat" -> DecFeatRes(b)
      [] v.f = "tun" -> DecTunReq(b)
      [] v.f = "searchreq" -> DecSearchReq(b)
Read(v, b) == ReadFrame(v, b)
Rebuild(v, r) ==
    CASE v.f = "connres" -> EncConnRes(r)
      [] v.f = "statereq" -> EncStateReq(r.ch, r.ep)
      [] v.f = "discreq" -> EncDiscReq(r.ch, r.ep)
      [] v.f = "stateres" -> EncStateRes(r.ch, r.st)
      [] v.f = "discres" -> EncDiscRes(r.ch, r.st)
      [] v.f = "ack" -> EncTunAck(r.ch, r.seq, r.st)
      [] v.f = "feat" -> EncFeatRes(r)
      [] v.f = "tun" -> EncTunReq(r.ch, r.seq, r.cemi)
      [] v.f = "searchreq" -> EncSearchReq(r.ep)
Refuses(v) == v.f = "connres" /\ v.b \in NoDataStatus
FrameLaw(v) ==
    LET b == BuildFrame(v)
        r == Read(v, b)
    IN  /\ DecHeader(b).ok /\ DecHeader(b).total = Len(b)
        /\ Refuses(v) \/ (r.ok /\ Rebuild(v, r) = b /\ Read(v, b \o <<6, 16, 0>>) = r)
        /\ \A n \in 0..(Len(b) - 1) : ~Read(v, SubSeq(b, 1, n)).ok
        /\ \A w \in {"connres", "statereq", "discreq", "stateres", "discres", "ack", "feat", "tun", "searchreq"} \ {v.f} :
               ~Read([v EXCEPT !.f = w], b).ok
        /\ v.f \in {"connres", "statereq", "searchreq"} <=> Classify(b).k = "bad"

\* Every decoder gives an answer for every byte sequence, and accepts nothing
\* that does not carry its own header
NoiseSpace == Seqs({4, 6, 8, 16, 2}, 6) \cup {<<6, 16, 2, s, 0, n>> \o t : s \in 0..12, n \in {8, 16, 20}, t \in Seqs({4, 8, 0}, 2)}
              \cup {<<6, 16, 4, s, 0, n>> \o t : s \in 30..38, n \in {9, 10, 11, 13}, t \in Seqs({4, 8, 0}, 5)}
NoiseLaw(b) ==
    /\ Classify(b).k \in {"bad", "tun", "ack", "feat", "state", "dres", "dreq"}
    /\ Classify(b).k # "bad" => (Len(b) >= 8 /\ b[1] = 6 /\ b[2] = 16)
    /\ DecConnRes(b).ok \in BOOLEAN /\ DecSearchRes(b).ok \in BOOLEAN /\ DecSearchReq(b).ok \in BOOLEAN /\ DecDib(b).ok \in BOOLEAN
    /\ DecCemi(b).ok => Len(b) >= 2 + b[2]

\* Description blocks: a block uses at most the bytes there are, what is behind it does not matter
DibSpace == {<<n, t>> \o [i \in 1..k |-> IF i = 1 THEN 2 ELSE i] : n \in 0..60, t \in {0, 1, 2, 3, 4, 5, 6, 254}, k \in 0..60}
DibLaw(b) ==
    LET r == DecDib(b)
    IN  r.ok => /\ r.used <= Len(b)
                /\ LET q == DecDib(Cut(b, 1, r.used)) IN q.ok /\ FlatDib(q) = FlatDib(r)
                /\ LET e == EncDib(r)
                       q == DecDib(e)
                   IN  /\ Len(e) = e[1] /\ Len(e) % 2 = 0
                       /\ q.ok
                       /\ IF r.t = 254 /\ Len(r.data) % 2 = 1 THEN q.data = r.data \o <<0>> ELSE DibData(q) = DibData(r)

\* cEMI: what is encoded is decoded, for indications and requests of all lengths
CemiSpace == {[infos |-> i, n |-> n, c1 |-> c, apci |-> p] :
    i \in Seqs({[t |-> 1, v |-> <<>>], [t |-> 3, v |-> <<9>>], [t |-> 254, v |-> <<1, 2, 3>>]}, 3),
    n \in {0, 1, 2, 3, 14, 15, 100, 253}, c \in {0, 188, 189, 255}, p \in 0..15}
CemiLaw(v) ==
    LET inf == Concat([j \in 1..Len(v.infos) |-> <<v.infos[j].t, Len(v.infos[j].v)>> \o v.infos[j].v])
        val == [i \in 1..v.n |-> (i * 7) % 256]
        apdu == IF v.n = 0 THEN ApduSmall(v.apci, 21) ELSE ApduBig(v.apci, val)
        si == <<v.c1, 224, 17, 11, 10, 3, Len(apdu) - 1>> \o apdu
        b == <<McInd, Len(inf)>> \o inf \o si
        r == DecCemi(b)
        d == DecInd(r.si)
    IN  /\ r.ok /\ r.mc = McInd /\ r.si = si /\ Len(r.infos) = Len(v.infos)
        /\ \A j \in 1..Len(v.infos) : r.infos[j].t = v.infos[j].t /\ r.infos[j].v = v.infos[j].v
        /\ d.ok /\ d.apci = v.apci /\ d.value = (IF v.n = 0 THEN <<21>> ELSE val) /\ d.d.src = 4363 /\ d.d.dest = 2563
        /\ DecCon(r.si).ok /\ DecCon(r.si).confirm = (v.c1 % 2 = 0)
        /\ \A n \in 0..(8 + v.n) : ~DecInd(SubSeq(r.si, 1, n)).ok
        /\ ~DecCemi(<<McInd, Len(inf)>> \o SubSeq(inf, 1, Len(inf) - 1)).ok \/ inf = <<>>

\* Telegrams decode to address and value
TelegramSpace == {[a |-> a, n |-> n, sm |-> sm] : a \in {0, 1, 255, 256, 2563, 32768, 65535}, n \in 0..253, sm \in BOOLEAN}
TelegramLaw(v) ==
    LET val == [i \in 1..v.n |-> (i * 11) % 256]
        r == DecCemi(WriteTelegram(v.a, v.sm, val))
        q == DecCemi(ReadTelegram(v.a))
    IN  /\ r.ok /\ r.mc = McReq /\ r.infos = <<>> /\ Len(r.si) = 7 + r.si[7] + 1
        /\ DecInd(r.si).ok /\ DecInd(r.si).apci = ApciWrite /\ DecInd(r.si).d.dest = v.a
        /\ DecInd(r.si).value = (IF v.sm THEN <<IF v.n = 0 THEN 0 ELSE val[1] % 64>> ELSE IF v.n = 0 THEN <<0>> ELSE val)
        /\ q.ok /\ DecInd(q.si).apci = ApciRead /\ DecInd(q.si).d.dest = v.a
        /\ \A s \in {r.si, q.si} : s[1] \div 4 = 47 /\ s[2] = 224 /\ s[3] = 0 /\ s[4] = 0

AddressLaw(v) ==
    /\ ParseAddress(TextIndividual(v)).v = v /\ ParseAddress(TextIndividual(v)).kind = KInd
    /\ ParseAddress(TextGroup3(v)).v = v /\ ParseAddress(TextGroup3(v)).kind = KG3
    /\ ParseAddress(Digits(v)).v = v /\ ParseAddress(Digits(v)).kind = KG1
    /\ ~ParseAddress(Digits(65536 + v)).ok
    /\ ~ParseGroup3(TextIndividual(v)).ok /\ ~ParseIndividual(TextGroup3(v)).ok

\* Two byte floats: every value has itself as nearest; neighbouring values of one exponent are
\* one step apart; between them the nearest is one of the two
FloatLaw(w) ==
    /\ Near(FloatVal(w), w)
    /\ FloatVal(w) <= FloatMax /\ FloatVal(w) >= FloatMin
    /\ (w % 2048 # 2047 => FloatVal(w + 1) - FloatVal(w) = 16 * Pow2(FloatExp(w)))
    /\ (w % 2048 # 2047 =>
          LET e == FloatExp(w)
              s == 16 * Pow2(e)
              v == FloatVal(w)
          IN  \A d \in {0, s \div 4, s \div 2, 3 * (s \div 4)} :
                 Exponent(v + d, 0) = e => (IF d <= s \div 2 THEN Near(v + d, w) ELSE Near(v + d, w + 1)))

\* Percentages: every percentage has a byte, which stands for it
ScalLaw(p) == \E b \in 0..255 : NearScal(p, b) /\ (p \in 1..9999 => Cardinality({c \in 0..255 : NearScal(p, c)}) <= 2)

\* Labels: a type has one main number and types do not share it; what names a quantity has a
\* sub number and quantities of a type differ; only what names a quantity has a unit
LabelSpace == {[t |-> t, u |-> u] : t \in DptTypes, u \in DptTypes}
LabelLaw(v) ==
    LET L(t, w) == Code(Main(t), SubOf(t, w))
        Before(c) == SubSeq(c, 1, (CHOOSE i \in 1..Len(c) : c[i] = Dot) - 1)
    IN  \A w \in Ways(v.t), y \in Ways(v.u) :
            /\ (v.t = v.u) <=> (Before(L(v.t, w)) = Before(L(v.u, y)))
            /\ Num(Before(L(v.t, w)), 255) = Main(v.t)
            /\ (v.t = v.u /\ {w, y} = {Named, Other}) => L(v.t, w) # L(v.u, y)
            /\ w \in {Named, Other, BytesNamed} => SubOf(v.t, w) # Sub0
            /\ w = General => SubOf(v.t, w) = Sub0
            /\ UnitOf(v.t, w) # <<>> => SubOf(v.t, w) # Sub0

Space ==
    CASE Law = "frame" -> FrameSpace
      [] Law = "noise" -> NoiseSpace
      [] Law = "dib" -> DibSpace
      [] Law = "cemi" -> CemiSpace
      [] Law = "telegram" -> TelegramSpace
      [] Law = "address" -> {v \in 0..65535 : v % Fine = 0}
      [] Law = "float" -> {w \in 0..65535 : w % Fine = 0}
      [] Law = "label" -> LabelSpace
      [] Law = "scal" -> {p \in -200..10300 : p % Fine = 0}
Holds ==
    CASE Law = "frame" -> FrameLaw(x)
      [] Law = "noise" -> NoiseLaw(x)
      [] Law = "dib" -> DibLaw(x)
      [] Law = "cemi" -> CemiLaw(x)
      [] Law = "telegram" -> TelegramLaw(x)
      [] Law = "address" -> AddressLaw(x)
      [] Law = "float" -> FloatLaw(x)
      [] Law = "scal" -> ScalLaw(x)
      [] Law = "label" -> LabelLaw(x)

Init == x \in Space
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
