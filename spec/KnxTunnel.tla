------------------------------ MODULE KnxTunnel ------------------------------
(***************************************************************************)
(* State machine of one KNXnet/IP client (UdpClient), bus monitor          *)
(* (UdpMonitor) or search, as seen from the network and from its callers.  *)
(*                                                                         *)
(* The state is one record s.  Every action is an operator that maps a     *)
(* state to the set of its successors (empty: not enabled), so the same    *)
(* actions serve the exhaustive models (MCTunnel), the scenario generator  *)
(* (GenTunnel) and the validation of traces of the real code (KnxTrace).   *)
(* s.out and s.ret hold what the last action sent and which calls it       *)
(* completed.  Datagrams are byte sequences, coded in KnxWire.             *)
(*                                                                         *)
(* Internal actions are urgent: time passes only in quiet states.          *)
(***************************************************************************)
EXTENDS KnxWire, TLC

CONSTANTS HbPeriod,      \* heartbeat period in seconds (60)
          ReplyTime,     \* wait for a connection response (30)
          RetryTime,     \* pause before the next attempt (10)
          CallTime,      \* limit of a call that waits for an answer (10)
          QueueCap,      \* received cEMI messages kept for the application (100)
          CtlCap,        \* received control responses kept (100)
          SeqMod,        \* sequence numbers (256)
          TrackFlags     \* record in s.fl which unusual situations occurred

NoConn == [up |-> FALSE, ch |-> 0, ep |-> HpaiUdp, seq |-> 0]
Conn(r, n) == [up |-> TRUE, ch |-> r.ch, ep |-> [code |-> r.ep.code, ip |-> r.ep.ip, port |-> r.ep.port], seq |-> n]
EmptyFun == [x \in {} |-> 0]

InitState(kind) ==
    [kind |-> kind,
     pc |-> IF kind = "search" THEN "none" ELSE "connsend",
     tmr |-> 0,             \* seconds left in connwait and connretry
     pend |-> NoConn,       \* accepted connection that is not yet in use
     conn |-> NoConn,       \* the session calls use
     inbox |-> <<>>,        \* datagrams and errors waiting in the socket
     q |-> <<>>,            \* received cEMI messages
     ctl |-> <<>>,          \* received control responses
     hb |-> 0,              \* seconds until a heartbeat is due
     ops |-> EmptyFun,      \* calls in progress
     lock |-> 0,            \* call that has the transport for itself, 0 = none
     lis |-> EmptyFun,      \* connect listeners
     sf |-> <<>>,           \* outcome of the next sends, 1 = error
     sock |-> 0,            \* sockets opened by searches
     blk |-> FALSE,         \* the socket takes nothing to send at the moment
     hbp |-> FALSE,         \* a heartbeat waits for the socket
     of |-> 0,              \* step at which opening the next socket fails, 0 = none
     out |-> <<>>, ret |-> <<>>,
     fl |-> {}]

----------------------------------------------------------------------------
\* Helpers
Flag(s, f) == IF TrackFlags THEN [s EXCEPT !.fl = @ \cup {f}] ELSE s
Clear(s) == [s EXCEPT !.out = <<>>, !.ret = <<>>]
SendOk(s) == IF s.sf = <<>> THEN TRUE ELSE Head(s.sf) = 0
PopFault(s) == IF s.sf = <<>> THEN s ELSE [s EXCEPT !.sf = Tail(@)]
Gateway == <<127, 0, 0, 1, 14, 87>>
Multicast == <<224, 0, 23, 12, 14, 87>>
SentTo(s, b, d) == [PopFault(s) EXCEPT !.out = Append(@, [b |-> b, d |-> d])]
Sent(s, b) == SentTo(s, b, Gateway)
SendFailed(s) == Flag(PopFault(s), "fault")
Ended(s) == s.pc = "ended"         \* nothing will ever be received again

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Finish(s, o, ok, v) ==
    [s EXCEPT !.ret = Append(@, [o |-> o, ok |-> ok, v |-> v]),
              !.ops = Without(@, o),
              !.lock = IF @ = o THEN 0 ELSE @]
Err(s, o) == Finish(s, o, 0, <<>>)
Goto(s, o, pc) == [s EXCEPT !.ops[o].pc = pc]

Data(b) == [e |-> 0, b |-> b]
Failure == [e |-> 1, b |-> <<>>]
MaxConnDatagram == 100
MaxDatagram == 1024

----------------------------------------------------------------------------
\* Establishing a session
StartAttempt(s) == [s EXCEPT !.pc = "connsend"]
GiveUpAttempt(s) == [s EXCEPT !.pc = "connretry", !.tmr = RetryTime]

ConnSend(s) ==
    IF s.pc # "connsend" \/ s.blk THEN {}
    ELSE IF SendOk(s) THEN {[Sent(s, EncConnReq(LayerLink)) EXCEPT !.pc = "connwait", !.tmr = ReplyTime]}
    ELSE {GiveUpAttempt(SendFailed(s))}

ConnReply(s) ==
    IF s.pc # "connwait" \/ s.inbox = <<>> THEN {}
    ELSE LET it == Head(s.inbox)
             s1 == [s EXCEPT !.inbox = Tail(@)]
             r == DecConnRes(Take(it.b, MaxConnDatagram))
         IN  IF it.e = 1 THEN {GiveUpAttempt(Flag(s1, "fault"))}
             ELSE IF ~r.ok THEN {GiveUpAttempt(Flag(s1, "badconn"))}
             ELSE IF r.st # 0 THEN {GiveUpAttempt(Flag(s1, "refused"))}
             ELSE {[s1 EXCEPT !.pend = Conn(r, IF s.kind = "monitor" THEN 1 ELSE 0),
                              !.tmr = 0,
                              !.pc = IF s.kind = "monitor" THEN "feat" ELSE "est"]}

ConnTimeout(s) == IF s.pc = "connwait" /\ s.tmr = 0 THEN {GiveUpAttempt(Flag(s, "noreply"))} ELSE {}
ConnRetry(s) == IF s.pc = "connretry" /\ s.tmr = 0 THEN {StartAttempt(s)} ELSE {}

\* The monitor asks for bus monitor information before it uses the session
EnableFeature(s) ==
    IF s.pc # "feat" \/ s.blk THEN {}
    ELSE IF SendOk(s) THEN {[Sent(s, EncFeatSet(s.pend.ch, 0, FeatInfoService, 1)) EXCEPT !.pc = "est"]}
    ELSE {StartAttempt([SendFailed(s) EXCEPT !.pend = NoConn])}

Notify(lis) ==
    LET live == {l \in DOMAIN lis : lis[l].alive}
    IN  [l \in live |-> [lis[l] EXCEPT !.n = IF @ < lis[l].cap THEN @ + 1 ELSE @]]

Establish(s) ==
    IF s.pc # "est" THEN {}
    ELSE {[s EXCEPT !.pc = "sess", !.conn = s.pend, !.pend = NoConn, !.lis = Notify(@)]}

----------------------------------------------------------------------------
\* Within a session
Drop(s) == Flag([s EXCEPT !.pc = "drop"], "recon")
\* A request that waits for the socket keeps its session
Sending(s) == \E o \in DOMAIN s.ops : s.ops[o].pc = "sending"
Dropped(s) == IF s.pc = "drop" /\ ~Sending(s) THEN {StartAttempt([s EXCEPT !.conn = NoConn])} ELSE {}
Leave(s) == IF s.pc = "end" /\ ~Sending(s) THEN {[s EXCEPT !.conn = NoConn, !.pc = "ended"]} ELSE {}

Enqueue(s, c) ==
    IF Len(s.q) < QueueCap
    THEN LET u == [s EXCEPT !.q = Append(@, [mc |-> c.mc, si |-> c.si])] IN IF Len(u.q) > 8 THEN Flag(u, "backlog") ELSE u
    ELSE Flag(s, "full")
PassOn(s, k, r) ==
    IF Len(s.ctl) < CtlCap THEN [s EXCEPT !.ctl = Append(@, [k |-> k, ch |-> r.ch, st |-> r.st])] ELSE s

Acked(s, r) == Sent(s, EncTunAck(r.ch, r.seq, 0))
Handle(s, b) ==
    LET c == Classify(b)
    IN  CASE b = <<>> -> s
          [] b # <<>> /\ c.k = "bad" -> Drop(Flag(s, "bad"))
          [] c.k = "tun" ->
               IF ~SendOk(s) THEN Drop(SendFailed(s))
               ELSE LET m == DecCemi(c.r.cemi)
                    IN  IF m.ok THEN Enqueue(Acked(s, c.r), m) ELSE Flag(Acked(s, c.r), "badcemi")
          [] c.k = "feat" -> IF SendOk(s) THEN Acked(s, c.r) ELSE Drop(SendFailed(s))
          [] c.k = "ack" -> s
          [] c.k = "state" ->
               LET s1 == PassOn(s, "state", c.r)
               IN  IF c.r.st = 0 THEN s1 ELSE Drop(Flag(s1, "cserr"))
          [] c.k = "dres" -> Flag([PassOn(s, "dres", c.r) EXCEPT !.pc = "end"], "disc")
          [] c.k = "dreq" ->
               Drop(Flag(IF SendOk(s) THEN Sent(s, EncDiscRes(c.r.ch, 0)) ELSE SendFailed(s), "dreq"))

\* A message whose acknowledgement cannot be sent is lost with the session or still passed on
KeptUnacked(s, b) ==
    LET c == Classify(b)
    IN  IF b # <<>> /\ ~SendOk(s) /\ c.k = "tun"
        THEN LET m == DecCemi(c.r.cemi) IN IF m.ok THEN {Drop(Enqueue(SendFailed(s), m))} ELSE {}
        ELSE {}

\* Frames are taken one after the other, each waits for the socket if it has to be answered
NeedsSocket(it) == it.e = 0 /\ Classify(Take(it.b, MaxDatagram)).k \in {"tun", "feat", "dreq"}
Receive(s) ==
    IF s.pc # "sess" \/ s.inbox = <<>> \/ s.hbp THEN {}
    ELSE IF s.blk /\ NeedsSocket(Head(s.inbox)) THEN {}
    ELSE LET it == Head(s.inbox)
             s1 == [s EXCEPT !.inbox = Tail(@)]
         IN  IF it.e = 1 THEN {Drop(Flag(s1, "fault"))}
             ELSE {Handle(s1, Take(it.b, MaxDatagram))} \cup KeptUnacked(s1, Take(it.b, MaxDatagram))

Heartbeat(s) ==
    IF s.pc # "sess" THEN {}
    ELSE IF s.hbp
    THEN IF s.blk THEN {}
         ELSE IF SendOk(s) THEN LET u == [Sent(s, EncStateReq(s.conn.ch, s.conn.ep)) EXCEPT !.hbp = FALSE] IN {u, [u EXCEPT !.hb = HbPeriod]}
         ELSE {Drop([SendFailed(s) EXCEPT !.hbp = FALSE])}
    ELSE IF s.hb > 0 THEN {}
    ELSE IF s.blk THEN {[Flag(s, "blocked") EXCEPT !.hbp = TRUE, !.hb = HbPeriod]}
    ELSE IF SendOk(s) THEN {[Sent(s, EncStateReq(s.conn.ch, s.conn.ep)) EXCEPT !.hb = HbPeriod]}
    ELSE {Drop([SendFailed(s) EXCEPT !.hb = HbPeriod])}

Task(s) ==
    CASE s.pc = "connsend" -> ConnSend(s)
      [] s.pc = "connwait" -> ConnReply(s) \cup ConnTimeout(s)
      [] s.pc = "connretry" -> ConnRetry(s)
      [] s.pc = "feat" -> EnableFeature(s)
      [] s.pc = "est" -> Establish(s)
      [] s.pc = "sess" -> Receive(s) \cup Heartbeat(s)
      [] s.pc = "drop" -> Dropped(s)
      [] s.pc = "end" -> Leave(s)
      [] OTHER -> {}

----------------------------------------------------------------------------
\* Calls
NewOp(op, a, sm, v) ==
    [op |-> op, a |-> a, sm |-> sm, v |-> v, pc |-> "start", dl |-> 0, ch |-> 0, ep |-> HpaiUdp, r |-> <<>>]
TooLong(p) == p.op = "write" /\ p.sm = 0 /\ Len(p.v) > MaxValueLen
Telegram(p) == IF p.op = "write" THEN WriteTelegram(p.a, p.sm = 1, p.v) ELSE ReadTelegram(p.a)

\* First step of a call: take the transport, or do without it
OpStart(s, o) ==
    LET p == s.ops[o]
        Take1(pc) == IF s.lock = 0 THEN {[Goto(s, o, pc) EXCEPT !.lock = o]} ELSE {}
    IN  CASE p.op = "open" -> {Err(s, o)}
          [] p.op = "flush" -> {Finish(s, o, 1, <<>>)}
          [] TooLong(p) -> {Err(s, o)}
          [] p.op = "next" -> IF s.lock = 0 THEN {Goto(s, o, "take")} ELSE {}
          [] p.op = "search" /\ s.of > 0 -> {Err(Flag([s EXCEPT !.of = 0, !.sock = IF s.of > 1 THEN @ + 1 ELSE @], "fault"), o)}
          [] p.op = "search" /\ s.of = 0 ->
               LET s1 == [s EXCEPT !.sock = @ + 1, !.inbox = <<>>]
                   ep == [code |-> 1, ip |-> <<0, 0, 0, 0>>, port |-> 40000 + s1.sock]
               IN  IF SendOk(s1) THEN {[Goto(SentTo(s1, EncSearchReq(ep), Multicast), o, "collect") EXCEPT !.ops[o].dl = p.a]}
                   ELSE {Err(SendFailed(s1), o)}
          [] p.op \in {"read", "write"} /\ s.kind = "client" /\ ~TooLong(p) -> Take1("drain")
          [] p.op \in {"write", "sol"} /\ s.kind = "monitor" /\ ~TooLong(p) -> Take1("send")
          [] p.op \in {"status", "disc"} -> Take1("ch")
          [] p.op \in {"isconn", "lis"} -> Take1("do")

OpDrain(s, o) == {Goto([s EXCEPT !.q = <<>>], o, "send")}

\* Tunnelled request: channel and number of the session, the number is used up by sending
OpSend(s, o) ==
    LET p == s.ops[o]
        s1 == [Sent(s, EncTunReq(s.conn.ch, s.conn.seq, Telegram(p))) EXCEPT !.conn.seq = (@ + 1) % SeqMod]
    IN  IF ~s.conn.up THEN {Err(s, o)}
        ELSE IF s.blk THEN IF p.pc = "send" THEN {Goto(Flag(s, "blocked"), o, "sending")} ELSE {}
        ELSE IF ~SendOk(s) THEN {Err(SendFailed(s), o)}
        ELSE IF s.kind = "monitor" THEN {Finish(s1, o, 1, <<>>)}
        ELSE {[Goto(s1, o, "wait") EXCEPT !.ops[o].dl = CallTime]}

\* What a waiting read or write makes of a received message
ReadAnswer(p, m) ==
    LET d == DecInd(m.si)
    IN  IF m.mc = McInd /\ d.ok
        THEN IF d.d.dest = p.a /\ d.apci \in {ApciResponse, ApciWrite} THEN [k |-> "ok", v |-> d.value] ELSE [k |-> "skip"]
        ELSE [k |-> "skip"]
WriteAnswer(p, m) ==
    LET d == DecCon(m.si)
    IN  IF m.mc = McCon /\ d.ok
        THEN IF d.d.dest = p.a THEN IF d.confirm THEN [k |-> "ok", v |-> <<>>] ELSE [k |-> "err"] ELSE [k |-> "skip"]
        ELSE [k |-> "skip"]
Expired(s, o) == IF s.ops[o].dl = 0 THEN {Err(Flag(s, "timeout"), o)} ELSE {}
OpWait(s, o) ==
    LET p == s.ops[o]
    IN  (IF s.q # <<>>
         THEN LET s1 == [s EXCEPT !.q = Tail(@)]
                  a == IF p.op = "read" THEN ReadAnswer(p, Head(s.q)) ELSE WriteAnswer(p, Head(s.q))
              IN  {CASE a.k = "ok" -> Finish(s1, o, 1, a.v) [] a.k = "err" -> Err(s1, o) [] OTHER -> s1}
         ELSE IF Ended(s) THEN {Err(s, o)} ELSE {})
        \cup Expired(s, o)

\* Control requests.  A heartbeat that waits for the socket may keep calls from looking at the session
Held(s) == s.blk /\ s.hbp
Look(s, o, waits, seen) ==
    IF ~Held(s) THEN seen
    ELSE IF s.ops[o].pc = waits THEN {}
    ELSE seen \cup {Goto(s, o, waits)}
OpChannel(s, o) ==
    Look(s, o, "chwait", IF s.conn.up THEN {[Goto(s, o, "ep") EXCEPT !.ops[o].ch = s.conn.ch]} ELSE {Err(s, o)})
OpEndpoint(s, o) ==
    Look(s, o, "epwait", IF s.conn.up THEN {[Goto(s, o, "cdrain") EXCEPT !.ops[o].ep = s.conn.ep]} ELSE {Err(s, o)})
OpCtlDrain(s, o) == {Goto([s EXCEPT !.ctl = <<>>], o, "csend")}
OpCtlSend(s, o) ==
    LET p == s.ops[o]
        b == IF p.op = "disc" THEN EncDiscReq(p.ch, p.ep) ELSE EncStateReq(p.ch, p.ep)
    IN  (IF s.blk THEN IF p.pc = "csend" THEN {Goto(Flag(s, "blocked"), o, "csending")} ELSE {}
         ELSE IF SendOk(s) THEN {[Goto(Sent(s, b), o, "cwait") EXCEPT !.ops[o].dl = CallTime]}
         ELSE {Err(SendFailed(s), o)})
        \cup (IF ~s.conn.up /\ p.pc = "csend" THEN {Err(s, o)} ELSE {})     \* the session may be looked at once more
OpCtlWait(s, o) ==
    LET p == s.ops[o]
    IN  (IF s.ctl # <<>>
         THEN LET m == Head(s.ctl)
                  s1 == [s EXCEPT !.ctl = Tail(@)]
              IN  {IF p.op = "disc" /\ m.k = "dres"
                   THEN [Goto(s1, o, "fin") EXCEPT !.ops[o].r = IF s.kind = "monitor" THEN <<m.st>> ELSE <<>>]
                   ELSE IF p.op = "status" /\ m.k = "state" THEN Finish(s1, o, 1, <<m.ch, m.st>>)
                   ELSE s1}
         ELSE IF Ended(s) THEN {Err(s, o)} ELSE {})
        \cup Expired(s, o)

OpFin(s, o) == {Finish([s EXCEPT !.conn = NoConn], o, 1, s.ops[o].r)}

\* Monitor calls
OpDo(s, o) ==
    LET p == s.ops[o]
    IN  CASE p.op = "isconn" -> Look(s, o, "dowait", {Finish(s, o, 1, <<IF s.conn.up THEN 1 ELSE 0>>)})
          [] p.op = "lis" -> {Finish([s EXCEPT !.lis = (p.a :> [cap |-> p.sm, n |-> 0, alive |-> TRUE]) @@ @], o, 1, <<>>)}
OpTake(s, o) ==
    IF s.q # <<>>
    THEN LET m == Head(s.q)
             s1 == [s EXCEPT !.q = Tail(@)]
             d == DecInd(m.si)
         IN  {IF m.mc \notin {McInd, McBusmon} THEN s1
              ELSE IF d.ok THEN Finish(s1, o, 1, <<m.mc>> \o FlatLData(d.d) \o d.value) ELSE Err(s1, o)}
    ELSE IF Ended(s) THEN {Err(s, o)} ELSE {}

\* Search: collect responses until the time is over
OpCollect(s, o) ==
    LET p == s.ops[o]
    IN  (IF s.inbox # <<>>
         THEN LET it == Head(s.inbox)
                  s1 == [s EXCEPT !.inbox = Tail(@)]
                  d == DecSearchRes(Take(it.b, MaxDatagram))
              IN  {IF it.e = 1 THEN Err(Flag(s1, "fault"), o)
                   ELSE IF d.ok THEN [s1 EXCEPT !.ops[o].r = Append(@, FlatSearchRes(d))] ELSE Flag(s1, "bad")}
         ELSE {})
        \cup (IF p.dl = 0 THEN {Finish([s EXCEPT !.inbox = <<>>], o, 1, <<Len(p.r)>> \o Concat(p.r))} ELSE {})

Op(s, o) ==
    LET pc == s.ops[o].pc
    IN  CASE pc = "start" -> OpStart(s, o)
          [] pc = "drain" -> OpDrain(s, o)
          [] pc \in {"send", "sending"} -> OpSend(s, o)
          [] pc = "wait" -> OpWait(s, o)
          [] pc \in {"ch", "chwait"} -> OpChannel(s, o)
          [] pc \in {"ep", "epwait"} -> OpEndpoint(s, o)
          [] pc = "cdrain" -> OpCtlDrain(s, o)
          [] pc \in {"csend", "csending"} -> OpCtlSend(s, o)
          [] pc = "fin" -> OpFin(s, o)
          [] pc = "cwait" -> OpCtlWait(s, o)
          [] pc \in {"do", "dowait"} -> OpDo(s, o)
          [] pc = "take" -> OpTake(s, o)
          [] pc = "collect" -> OpCollect(s, o)

----------------------------------------------------------------------------
\* Everything the system does on its own
Internal(s0) ==
    LET s == Clear(s0)
    IN  Task(s) \cup UNION {Op(s, o) : o \in DOMAIN s.ops}
Quiet(s) == Internal(s) = {}

\* Timers that will fire
Timers(s) ==
    (IF s.pc \in {"connwait", "connretry"} THEN {s.tmr} ELSE {})
    \cup (IF s.pc = "sess" /\ ~s.hbp THEN {s.hb} ELSE {})
    \cup {s.ops[o].dl : o \in {x \in DOMAIN s.ops : s.ops[x].pc \in {"wait", "cwait", "collect"}}}
Less(n, d) == IF n > d THEN n - d ELSE 0
Elapse(s, d) ==
    [Clear(s) EXCEPT !.tmr = Less(@, d), !.hb = Less(@, d),
                     !.ops = [o \in DOMAIN @ |-> [@[o] EXCEPT !.dl = Less(@, d)]]]

\* What the environment can do
Deliver(s, it) ==
    IF s.kind = "search" /\ ~\E o \in DOMAIN s.ops : s.ops[o].pc = "collect" THEN Clear(s)
    ELSE [Clear(s) EXCEPT !.inbox = Append(@, it)]
\* From a stranger: a connected socket does not receive it
DeliverStranger(s, it) == IF s.kind = "search" THEN Deliver(s, it) ELSE Clear(s)
OpenFault(s, n) == [Clear(s) EXCEPT !.of = n]
Block(s, b) == [Clear(s) EXCEPT !.blk = b]
SetFaults(s, f) == [Clear(s) EXCEPT !.sf = f]
Call(s, o, op, a, sm, v) ==
    LET s1 == IF DOMAIN s.ops # {} /\ ~(DOMAIN s.ops = {x \in DOMAIN s.ops : s.ops[x].op = "next"} /\ op # "next")
              THEN Flag(s, "conc") ELSE s
    IN  [Clear(s1) EXCEPT !.ops = (o :> NewOp(op, a, sm, v)) @@ @]
\* Without a socket there is no client or monitor, and the call that should have made one fails
NotOpened(s) == [Clear(Flag(s, "fault")) EXCEPT !.pc = "none", !.ops = (0 :> NewOp("open", 0, 0, <<>>))]
Cancel(s, o) ==
    IF o \notin DOMAIN s.ops THEN Clear(s)
    ELSE [Flag(Clear(s), "cancel") EXCEPT !.ops = Without(@, o), !.lock = IF @ = o THEN 0 ELSE @,
                                          !.inbox = IF s.ops[o].op = "search" THEN <<>> ELSE @]
DropListener(s, l) == IF l \in DOMAIN s.lis THEN [Flag(Clear(s), "ldrop") EXCEPT !.lis[l].alive = FALSE] ELSE Clear(s)
Notified(s, l) == IF l \in DOMAIN s.lis THEN IF s.lis[l].alive THEN s.lis[l].n ELSE 0 ELSE 0
FetchListener(s, l) == IF l \in DOMAIN s.lis THEN [Clear(s) EXCEPT !.lis[l].n = 0] ELSE Clear(s)
=============================================================================
