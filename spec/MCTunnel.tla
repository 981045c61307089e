------------------------------ MODULE MCTunnel -------------------------------
(***************************************************************************)
(* Exhaustive model of KnxTunnel with a hostile gateway, failing sends and *)
(* receives, a blocked socket, concurrent and abandoned calls, all bounded in number, and    *)
(* unbounded time (the timers are scaled down).  Every tunnelled message   *)
(* and control response carries its arrival number, so that the ghost g    *)
(* can tell what may answer what, independently of the machine's own       *)
(* bookkeeping.  g.bad collects the properties an action has violated.     *)
(***************************************************************************)
EXTENDS KnxTunnel

CONSTANTS Kind, DgNames, CallNames, MaxDg, MaxCalls, MaxFaults, MaxCancel, MaxBlocks

VARIABLES s, g
vars == <<s, g>>

AddrA == 2563
AddrB == 2564
Ep(x) == [code |-> 1, ip |-> <<192, 168, 10, x>>, port |-> 3671]
Cemi(mc, c1, dest, apdu) == <<mc, 0, c1, 224, 17, 11>> \o W16(dest) \o <<Len(apdu) - 1>> \o apdu
Tun(i, m) == EncTunReq(100, i, m)
Device(i) == [t |-> 1, medium |-> 2, status |-> 0, ia |-> 4352 + i, proj |-> 0, serial |-> Zeros(6),
              mcast |-> MulticastIp, mac |-> Zeros(6), name |-> Zeros(30)]
Dg(nm, i) ==
    CASE nm = "conn" -> EncConnRes([ch |-> i, st |-> 0, ep |-> Ep(i), ia |-> 65520])
      [] nm = "refuse" -> EncConnRes([ch |-> i, st |-> 33, ep |-> Ep(i), ia |-> 65520])
      [] nm = "respA" -> Tun(i, Cemi(McInd, 188, AddrA, ApduBig(ApciResponse, <<i, 1>>)))
      [] nm = "readA" -> Tun(i, Cemi(McInd, 188, AddrA, ApduSmall(ApciRead, i)))
      [] nm = "respB" -> Tun(i, Cemi(McInd, 188, AddrB, ApduBig(ApciResponse, <<i, 2>>)))
      [] nm = "conA" -> Tun(i, Cemi(McCon, 188, AddrA, ApduBig(ApciWrite, <<i, 1>>)))
      [] nm = "nconA" -> Tun(i, Cemi(McCon, 189, AddrA, ApduBig(ApciWrite, <<i, 1>>)))
      [] nm = "conB" -> Tun(i, Cemi(McCon, 188, AddrB, ApduBig(ApciWrite, <<i, 2>>)))
      [] nm = "shortind" -> Tun(i, <<McInd, 0, i>>)
      [] nm = "badcemi" -> Tun(i, <<McInd>>)
      [] nm = "feat" -> EncFeatRes([ch |-> 100, seq |-> i, f |-> 8, st |-> 0, v |-> 1])
      [] nm = "ack" -> EncTunAck(100, i, 0)
      [] nm = "state" -> EncStateRes(i, 0)
      [] nm = "serr" -> EncStateRes(i, 33)
      [] nm = "dres" -> EncDiscRes(i, 0)
      [] nm = "dreq" -> EncDiscReq(i, Ep(i))
      [] nm = "sres" -> EncSearchRes([ep |-> Ep(i), dev |-> Device(i), svc |-> [t |-> 2, fam |-> <<2, i>>]])
      [] nm = "junk" -> <<6, 16, 4, 32, 0, i>>
      [] nm = "empty" -> <<>>

CallOf(nm) ==
    CASE nm = "read" -> <<"read", AddrA, 0, <<>>>>
      [] nm = "write" -> <<"write", AddrA, 0, <<7>>>>
      [] nm = "toolong" -> <<"write", AddrA, 0, [j \in 1..254 |-> 0]>>
      [] nm = "status" -> <<"status", 0, 0, <<>>>>
      [] nm = "disc" -> <<"disc", 0, 0, <<>>>>
      [] nm = "next" -> <<"next", 0, 0, <<>>>>
      [] nm = "sol" -> <<"sol", AddrA, 0, <<>>>>
      [] nm = "isconn" -> <<"isconn", 0, 0, <<>>>>
      [] nm = "search" -> <<"search", 2, 0, <<>>>>
      [] nm = "lis" -> <<"lis", 1, 1, <<>>>>

Init ==
    /\ s = InitState(Kind)
    /\ g = [dg |-> 0, calls |-> 0, faults |-> 0, cancels |-> 0,
            sch |-> -1,              \* channel of the session, as the gateway gave it
            nseq |-> 0,              \* next sequence number in it
            since |-> EmptyFun,      \* datagrams that had arrived when a call was made
            age |-> EmptyFun,        \* seconds since its request was sent
            hbage |-> -1,            \* seconds since the last heartbeat, -1 = none yet
            found |-> EmptyFun,      \* arrival numbers of the search responses a search received
            kept |-> <<>>,           \* indications put into the queue, in order
            gone |-> 0,              \* how many of them were given to the application
            blocks |-> 0, late |-> FALSE,   \* the last heartbeat had to wait for the socket
            batch |-> FALSE,         \* the last action was the environment's
            bad |-> {}]

----------------------------------------------------------------------------
\* Observing one internal action from z to u
Sid(b) == U16(b, 3)
Consumed(z, u) == IF Len(u.inbox) < Len(z.inbox) THEN <<Head(z.inbox)>> ELSE <<>>
Frame(z, u) ==      \* what the session received in this action
    IF z.pc = "sess" /\ Consumed(z, u) # <<>> /\ Consumed(z, u)[1].e = 0 /\ Consumed(z, u)[1].b # <<>>
    THEN Classify(Consumed(z, u)[1].b) ELSE [k |-> "none"]
OutIs(u, sid) == u.out # <<>> /\ Sid(u.out[1].b) = sid
MsgId(m) == IF Len(m.si) >= 10 THEN m.si[10] ELSE IF Len(m.si) >= 9 THEN m.si[9] % 64 ELSE m.si[1]
SendTried(z, u) == u.out # <<>> \/ u.sf # z.sf

\* act is the set of calls that acted: one call, or none if the task did
Violated(z, u, act) ==
    LET f == IF act = {} THEN Frame(z, u) ELSE [k |-> "none"]
        b == u.out[1].b
        faulty == u.sf # z.sf /\ u.out = <<>>
    IN
    \* a session begins with the channel of an accepted response; requests need a session
    (IF ~z.conn.up /\ u.conn.up /\ u.conn.ch # g.sch THEN {"C01"} ELSE {})
    \cup (IF OutIs(u, SidTunReq) /\ g.sch = -1 THEN {"C01"} ELSE {})
    \cup (IF OutIs(u, SidConnReq) /\ (z.conn.up \/ z.pc = "ended") THEN {"C01"} ELSE {})
    \cup (IF ~z.conn.up /\ \E i \in 1..Len(u.ret) : u.ret[i].ok = 1 /\ z.ops[u.ret[i].o].op \in {"write", "sol"} /\ Kind = "monitor"
          THEN {"C01"} ELSE {})
    \* numbering
    \cup (IF OutIs(u, SidTunReq) /\ (b[8] # g.sch \/ b[9] # g.nseq) THEN {"C02"} ELSE {})
    \cup (IF OutIs(u, SidFeatSet) /\ (b[8] # g.sch \/ b[9] # 0) THEN {"C02"} ELSE {})
    \* acknowledgements
    \cup (IF f.k \in {"tun", "feat"} /\ ~faulty /\ ~(OutIs(u, SidTunAck) /\ b = EncTunAck(f.r.ch, f.r.seq, 0)) THEN {"C03"} ELSE {})
    \cup (IF OutIs(u, SidTunAck) /\ f.k \notin {"tun", "feat"} THEN {"C03"} ELSE {})
    \* heartbeats
    \cup (IF OutIs(u, SidStateReq) /\ act = {} /\ ~(g.hbage = -1 \/ g.hbage >= HbPeriod \/ z.hbp \/ g.late) THEN {"C08"} ELSE {})
    \cup (IF OutIs(u, SidStateReq) /\ act = {} /\ b[7] # g.sch THEN {"C08"} ELSE {})
    \cup (IF f.k = "state" /\ f.r.st # 0 /\ u.pc # "drop" THEN {"C08"} ELSE {})
    \* end
    \cup (IF z.pc = "ended" /\ u.out # <<>> /\ ~(\E o \in act : z.ops[o].pc \in {"csend", "csending"}) THEN {"C09"} ELSE {})
    \cup (IF z.pc = "ended" /\ u.pc # "ended" THEN {"C09"} ELSE {})
    \cup (IF u.pc = "ended" /\ u.conn.up THEN {"C09"} ELSE {})
    \* gateway's disconnection
    \cup (IF f.k = "dreq" /\ (u.pc # "drop" \/ ~(faulty \/ (OutIs(u, SidDiscRes) /\ b = EncDiscRes(f.r.ch, 0)))) THEN {"C10"} ELSE {})
    \cup (IF OutIs(u, SidDiscRes) /\ f.k # "dreq" THEN {"C10"} ELSE {})
    \* any datagram
    \cup (IF f.k = "bad" /\ (u.pc # "drop" \/ u.out # <<>>) THEN {"C11"} ELSE {})
    \* answers
    \cup UNION {LET r == u.ret[i]
                    p == z.ops[r.o]
                    m == Head(z.q)
                IN  (IF p.op = "read" /\ r.ok = 1 /\ ~(r.v[1] > g.since[r.o] /\ r.v[2] = 1) THEN {"C05"} ELSE {})
                    \cup (IF p.op = "write" /\ p.pc = "wait" /\ p.dl > 0 /\ ~Ended(z)
                             /\ ~(m.mc = McCon /\ U16(m.si, 5) = p.a /\ MsgId(m) > g.since[r.o] /\ (Bit(m.si[1], 0) = 0) = (r.ok = 1))
                          THEN {"C06"} ELSE {})
                    \cup (IF p.op = "status" /\ r.ok = 1 /\ ~(r.v[1] > g.since[r.o]) THEN {"C14"} ELSE {})
                    \cup (IF p.op = "next" /\ r.ok = 1 /\ ~(g.gone < Len(g.kept) /\ r.v[Len(r.v) - (IF Len(r.v) = 8 THEN 0 ELSE 1)] = g.kept[g.gone + 1])
                          THEN {"C04"} ELSE {})
                    \cup (IF p.op = "next" /\ r.ok = 0 /\ ~((Ended(z) /\ z.q = <<>>) \/ (z.q # <<>> /\ ~DecInd(m.si).ok)) THEN {"C04"} ELSE {})
                    \cup (IF p.op = "search" /\ r.ok = 1
                             /\ ~(g.age[r.o] = p.a /\ r.v[1] = Len(g.found[r.o])
                                  /\ \A j \in 1..r.v[1] : r.v[1 + 61 * (j - 1) + 5] = g.found[r.o][j]) THEN {"C13"} ELSE {})
                    \cup (IF p.op = "search" /\ r.ok = 0
                             /\ ~(faulty \/ (p.pc = "collect" /\ Consumed(z, u) # <<>> /\ Consumed(z, u)[1].e = 1)) THEN {"C13"} ELSE {})
                    \cup (IF faulty /\ r.ok = 1 THEN {"C16"} ELSE {})
                : i \in 1..Len(u.ret)}
    \* a matching confirmation or value is never passed over
    \cup (IF \E o \in act : z.ops[o].pc = "wait" /\ z.ops[o].op = "write" /\ z.q # <<>> /\ u.ret = <<>>
                            /\ Head(z.q).mc = McCon /\ Len(Head(z.q).si) >= 6 /\ U16(Head(z.q).si, 5) = AddrA THEN {"C06"} ELSE {})
    \* a search asks once, from its own socket
    \cup (IF OutIs(u, SidSearchReq) /\ ~(u.out[1].d = Multicast /\ z.ops[CHOOSE o \in act : TRUE].pc = "start"
                                         /\ b = EncSearchReq([code |-> 1, ip |-> <<0, 0, 0, 0>>, port |-> 40000 + u.sock])) THEN {"C13"} ELSE {})
    \* one call at a time
    \cup (IF u.lock # 0 /\ u.lock \notin DOMAIN u.ops THEN {"C15"} ELSE {})
    \cup (IF Cardinality({o \in DOMAIN u.ops : u.ops[o].pc \notin {"start", "take"}}) > 1 THEN {"C15"} ELSE {})
    \* faults
    \cup (IF faulty /\ act = {} /\ u.pc \notin {"drop", "connretry", "connsend"} THEN {"C16"} ELSE {})
    \cup (IF faulty /\ act # {} /\ u.ret = <<>> THEN {"C16"} ELSE {})
    \* queue
    \cup (IF f.k = "tun" /\ ~faulty /\ DecCemi(f.r.cemi).ok /\ Len(z.q) < QueueCap /\ Len(u.q) # Len(z.q) + 1 THEN {"C17"} ELSE {})
    \cup (IF z.q # <<>> /\ Len(u.q) < Len(z.q) /\ act = {} THEN {"C17"} ELSE {})
    \cup (IF f.k \in {"tun", "feat", "ack", "none"} /\ ~faulty /\ act = {} /\ z.pc = "sess" /\ u.pc # "sess"
             /\ ~(Consumed(z, u) # <<>> /\ Consumed(z, u)[1].e = 1) THEN {"C17"} ELSE {})
    \* listeners
    \cup (IF act = {} /\ z.pc = "est" /\ \E l \in DOMAIN z.lis : z.lis[l].alive /\ z.lis[l].n < z.lis[l].cap /\ u.lis[l].n # z.lis[l].n + 1
          THEN {"C12"} ELSE {})
    \cup (IF (act # {} \/ z.pc # "est") /\ \E l \in DOMAIN z.lis : u.lis[l].n > z.lis[l].n THEN {"C12"} ELSE {})

Observe(z, u, act) ==
    LET c == Consumed(z, u)
        acc == z.pc = "connwait" /\ u.pc \in {"est", "feat"}
    IN  [g EXCEPT
          !.sch = IF acc THEN c[1].b[7] ELSE IF z.conn.up /\ ~u.conn.up THEN -1 ELSE @,
          !.nseq = IF acc THEN (IF Kind = "monitor" THEN 1 ELSE 0) ELSE IF OutIs(u, SidTunReq) THEN (@ + 1) % SeqMod ELSE @,
          !.since = [o \in DOMAIN u.ops |-> @[o]],
          !.age = [o \in DOMAIN u.ops |-> IF o \in DOMAIN @ THEN @[o] ELSE 0],
          !.hbage = IF OutIs(u, SidStateReq) /\ act = {} THEN 0 ELSE IF z.hb = 0 /\ u.hb = HbPeriod THEN 0 ELSE @,
          !.late = IF z.hbp THEN TRUE ELSE IF OutIs(u, SidStateReq) /\ act = {} THEN FALSE ELSE @,
          !.found = [o \in DOMAIN u.ops |->
                       (IF o \in DOMAIN @ THEN @[o] ELSE <<>>)
                       \o (IF act = {o} /\ z.ops[o].pc = "collect" /\ c # <<>> /\ c[1].e = 0 /\ DecSearchRes(c[1].b).ok
                            THEN <<c[1].b[12]>> ELSE <<>>)],
          !.kept = IF Len(u.q) > Len(z.q)
                   THEN LET m == u.q[Len(u.q)] IN IF m.mc = McInd /\ DecInd(m.si).ok THEN Append(@, MsgId(m)) ELSE @
                   ELSE @,
          !.gone = @ + Cardinality({i \in 1..Len(u.ret) : u.ret[i].ok = 1 /\ z.ops[u.ret[i].o].op = "next"}),
          !.batch = FALSE,
          !.bad = @ \cup Violated(z, u, act)]

Step ==
    \/ \E u \in Task(s) : s' = Clear(u) /\ g' = Observe(s, u, {})
    \/ \E o \in DOMAIN s.ops : \E u \in Op(s, o) : s' = Clear(u) /\ g' = Observe(s, u, {o})

----------------------------------------------------------------------------
Tick ==
    /\ Quiet(s)
    /\ s' = Elapse(s, 1)
    /\ g' = [g EXCEPT !.batch = FALSE,
          !.age = [o \in DOMAIN @ |-> IF s.ops[o].pc \in {"wait", "cwait", "collect"} THEN @[o] + 1 ELSE @[o]],
          !.hbage = IF @ \in 0..HbPeriod THEN @ + 1 ELSE @,
          !.bad = @ \cup (IF \E o \in DOMAIN s.ops : s.ops[o].pc \in {"wait", "cwait"} /\ g.age[o] >= CallTime THEN {"C07"} ELSE {})
                    \cup (IF \E o \in DOMAIN s.ops : s.ops[o].pc = "collect" /\ g.age[o] >= s.ops[o].a THEN {"C13"} ELSE {})
                    \cup (IF s.pc = "sess" /\ ~s.hbp /\ (g.hbage = -1 \/ g.hbage >= HbPeriod) THEN {"C08"} ELSE {})]

\* The environment acts in quiet states, several times in a row if it likes.
\* Since the inbox is read and a call is begun whenever the other actions
\* leave room for it, this covers acting between two internal actions too;
\* abandoning a call has no such delay and is possible at any moment.
Free == g.batch \/ Quiet(s)
Datagram ==
    /\ g.dg < MaxDg /\ Free
    /\ \E nm \in DgNames :
        s' = Deliver(s, Data(Dg(nm, g.dg + 1)))
    /\ g' = [g EXCEPT !.dg = @ + 1, !.batch = TRUE]
RecvFault ==
    /\ g.faults < MaxFaults /\ Free
    /\ s' = Deliver(s, Failure)
    /\ g' = [g EXCEPT !.faults = @ + 1, !.batch = TRUE]
SendFault ==
    /\ g.faults < MaxFaults /\ Free /\ s.sf = <<>> /\ ~s.blk
    /\ s' = SetFaults(s, <<1>>)
    /\ g' = [g EXCEPT !.faults = @ + 1, !.batch = TRUE]
BlockSocket ==
    /\ g.blocks < MaxBlocks /\ Free /\ ~s.blk /\ s.sf = <<>>
    /\ s' = Block(s, TRUE)
    /\ g' = [g EXCEPT !.blocks = @ + 1, !.batch = TRUE]
UnblockSocket ==
    /\ s.blk /\ Free
    /\ s' = Block(s, FALSE)
    /\ g' = [g EXCEPT !.batch = TRUE]
MakeCall ==
    /\ g.calls < MaxCalls /\ Free
    /\ \E nm \in CallNames :
        LET c == CallOf(nm)
            o == g.calls + 1
        IN  /\ nm = "search" => DOMAIN s.ops = {}
            /\ nm = "lis" => (DOMAIN s.lis = {} /\ \A x \in DOMAIN s.ops : s.ops[x].op # "lis")
            /\ s' = Call(s, o, c[1], c[2], c[3], c[4])
            /\ g' = [g EXCEPT !.calls = o, !.batch = TRUE, !.since = (o :> g.dg - Len(s.inbox)) @@ @, !.age = (o :> 0) @@ @, !.found = (o :> <<>>) @@ @]
Abandon ==
    /\ g.cancels < MaxCancel
    /\ \E o \in DOMAIN s.ops :
        /\ s' = Cancel(s, o)
        /\ g' = [g EXCEPT !.cancels = @ + 1, !.since = Without(@, o), !.age = Without(@, o), !.found = Without(@, o)]

Next == Step \/ Tick \/ Datagram \/ RecvFault \/ SendFault \/ BlockSocket \/ UnblockSocket \/ MakeCall \/ Abandon
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Step) /\ WF_vars(Tick) /\ SF_vars(UnblockSocket)

----------------------------------------------------------------------------
Holds(p) == p \notin g.bad
C01 == Holds("C01")
C02 == Holds("C02")
C03 == Holds("C03")
C04 == Holds("C04")
C05 == Holds("C05")
C06 == Holds("C06")
C07 == Holds("C07")
C08 == Holds("C08")
C09 == Holds("C09")
C10 == Holds("C10")
C11 == Holds("C11")
C12 == Holds("C12")
C13 == Holds("C13")
C14 == Holds("C14")
C15 == Holds("C15")
C16 == Holds("C16")
C17 == Holds("C17")
TypeOK ==
    /\ s.pc \in {"none", "connsend", "connwait", "connretry", "feat", "est", "sess", "drop", "end", "ended"}
    /\ Len(s.q) <= QueueCap /\ Len(s.ctl) <= CtlCap
    /\ s.conn.up => s.pc \in {"sess", "drop", "end"}
    /\ s.lock \in {0} \cup DOMAIN s.ops
    /\ s.tmr <= ReplyTime /\ s.hb <= HbPeriod

\* Liveness: calls end, a lost session is requested again, attempts go on
CallsEnd == \A o \in 1..MaxCalls : (o \in DOMAIN s.ops) ~> (o \notin DOMAIN s.ops \/ s.ops[o].op = "next")
Recovers == (s.pc \in {"drop", "connretry", "connsend"}) ~> (s.pc = "connwait")
KeepsTrying == []<>(s.pc \in {"connwait", "sess", "ended"})
=============================================================================
