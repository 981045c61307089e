------------------------------- MODULE KnxTrace -------------------------------
(***************************************************************************)
(* Validation of recorded traces of the real client, monitor and search    *)
(* against KnxTunnel.  A trace is a sequence of steps; a step is a list of *)
(* stimuli applied at once, optionally followed by d seconds of time, with *)
(* everything the implementation sent (outs) and every call it completed   *)
(* (rets), each with the second t of the step in which it happened.        *)
(*                                                                         *)
(* A behaviour of this module follows one trace and one resolution of the  *)
(* nondeterminism of KnxTunnel; it is stuck where the observations differ. *)
(* A trace is accepted if some behaviour reaches its end.  Register tr     *)
(* holds the furthest instant reached in trace tr (needs -workers 1).      *)
(*                                                                         *)
(* For a rejected trace, Diag names the first instant that cannot be       *)
(* matched; with it the module does not compare that instant but prints    *)
(* what the specification allows there (mode 1).                           *)
(*                                                                         *)
(* Diag also lists deviations that are already known: those instants are   *)
(* not compared, the behaviour goes on from what the specification allows  *)
(* there (and, if c = 1, from the session having been given up), to find   *)
(* what else is wrong further on (mode 2).                                 *)
(***************************************************************************)
EXTENDS KnxTunnel, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.KNX_TRACES)
\* per trace the instant k, t, with k = 0 for none, and the known deviations f
Diag == ndJsonDeserialize(IOEnv.KNX_DIAG)
DiagMode == IOEnv.KNX_DIAGMODE = "1"
Further == IOEnv.KNX_DIAGMODE # "0"

VARIABLES tr, k, ph, t, n, got, s, eo, er
vars == <<tr, k, ph, t, n, got, s, eo, er>>

Step == Traces[tr].steps[k]
Key == k * 1000000 + t
AtDiag == DiagMode /\ k = Diag[tr].k /\ t = Diag[tr].t

Known(c) == IF Further THEN \E i \in 1..Len(Diag[tr].f) : Diag[tr].f[i].k = k /\ Diag[tr].f[i].t = t /\ Diag[tr].f[i].c >= c ELSE FALSE
GivenUp(s0) ==
    IF ~Known(1) \/ s0.kind = "search" THEN s0
    ELSE [s0 EXCEPT !.pc = "connwait", !.tmr = ReplyTime, !.conn = NoConn, !.pend = NoConn, !.hbp = FALSE, !.inbox = <<>>]

RECURSIVE Apply(_, _, _, _)
Apply(s0, st, i, lg) ==
    IF i > Len(st) THEN [s |-> s0, lg |-> lg]
    ELSE LET a == st[i]
         IN  Apply(CASE a.s = "start" -> s0
                     [] a.s = "nostart" -> NotOpened(s0)
                     [] a.s = "ofail" -> OpenFault(s0, a.f)
                     [] a.s = "xdg" -> DeliverStranger(s0, Data(a.b))
                     [] a.s = "dg" -> Deliver(s0, Data(a.b))
                     [] a.s = "rerr" -> Deliver(s0, Failure)
                     [] a.s = "block" -> Block(s0, TRUE)
                     [] a.s = "unblock" -> Block(s0, FALSE)
                     [] a.s = "serr" -> SetFaults(s0, a.f)
                     [] a.s = "call" -> Call(s0, a.o, a.op, a.a, a.sm, a.v)
                     [] a.s = "cancel" -> Cancel(s0, a.o)
                     [] a.s = "ldrop" -> DropListener(s0, a.l)
                     [] a.s = "lget" -> FetchListener(s0, a.l)
                     [] a.s = "adv" -> s0,
                   st, i + 1, IF a.s = "lget" THEN Append(lg, Notified(s0, a.l)) ELSE lg)

Init ==
    /\ tr \in {i \in 1..Len(Traces) : DiagMode => Diag[i].k > 0}
    /\ k = 1 /\ ph = "new" /\ t = 0 /\ n = 0 /\ got = 0 /\ eo = <<>> /\ er = <<>>
    /\ s = InitState(Traces[tr].kind)

\* Furthest instant
Reached == IF TLCGet(tr) < Key' THEN TLCSet(tr, Key') ELSE TRUE

Stimulate ==
    /\ ph = "new" /\ k <= Len(Traces[tr].steps)
    /\ LET a == Apply(s, Step.st, 1, <<>>)
           race == Step.d > 0 /\ Len(Step.st) > 1      \* time passes before anything reacts
       IN  /\ IF AtDiag THEN PrintT("@LGET " \o ToJson([id |-> Traces[tr].id, lg |-> a.lg])) ELSE a.lg = Step.lg \/ Known(0)
           /\ s' = IF race THEN Elapse(a.s, 1) ELSE a.s
           /\ t' = IF race THEN 1 ELSE 0
    /\ ph' = "run" /\ n' = 0 /\ got' = 0 /\ eo' = <<>> /\ er' = <<>>
    /\ UNCHANGED <<tr, k>>
    /\ Reached

OutMatches(u) ==
    IF u.out = <<>> THEN TRUE
    ELSE LET o == Step.outs[n + 1] IN n < Len(Step.outs) /\ o.t = t /\ o.b = u.out[1].b /\ o.d = u.out[1].d
\* Calls complete in the recorded order
RetMatches(u) ==
    IF u.ret = <<>> THEN TRUE
    ELSE LET o == Step.rets[got + 1]
         IN  got < Len(Step.rets) /\ o.t = t /\ o.o = u.ret[1].o /\ o.ok = u.ret[1].ok /\ o.v = u.ret[1].v

React ==
    /\ ph = "run"
    /\ \E u \in Internal(s) :
        IF AtDiag
        THEN /\ eo' = eo \o u.out /\ er' = er \o u.ret
             /\ s' = Clear(u)
             /\ UNCHANGED <<n, got>>
        ELSE IF Known(0)
        THEN s' = Clear(u) /\ UNCHANGED <<n, got, eo, er>>
        ELSE /\ OutMatches(u)
             /\ RetMatches(u)
             /\ n' = n + Len(u.out)
             /\ got' = got + Len(u.ret)
             /\ s' = Clear(u)
             /\ UNCHANGED <<eo, er>>
    /\ UNCHANGED <<tr, k, ph, t>>

\* Of a known deviation everything observed is taken as it was
Outs == IF Known(0) THEN Cardinality({i \in 1..Len(Step.outs) : Step.outs[i].t <= t}) ELSE n
Rets == IF Known(0) THEN Cardinality({i \in 1..Len(Step.rets) : Step.rets[i].t <= t}) ELSE got
Left == {Step.rets[i].t : i \in (Rets + 1)..Len(Step.rets)} \cup {Step.outs[i].t : i \in (Outs + 1)..Len(Step.outs)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Proceed ==
    /\ ph = "run" /\ Quiet(s)
    /\ IF AtDiag
       THEN /\ PrintT("@DIAG " \o ToJson([id |-> Traces[tr].id, o |-> eo, r |-> er, fl |-> s.fl,
                                          ops |-> [o \in DOMAIN s.ops |-> s.ops[o].op], pc |-> s.pc, up |-> s.conn.up]))
            /\ FALSE
       ELSE TRUE
    /\ \A x \in Left : x > t
    /\ \A i \in 1..Len(Step.bad) : Step.bad[i] > t \/ Known(0)
    /\ IF t < Step.d
       THEN /\ t' = t + Min({Step.d - t} \cup {x \in Timers(s) : x > 0} \cup {x - t : x \in Left}
                            \cup {Step.bad[i] - t : i \in {j \in 1..Len(Step.bad) : Step.bad[j] > t}})
            /\ s' = Elapse(GivenUp(s), t' - t)
            /\ n' = Outs /\ got' = Rets
            /\ UNCHANGED <<tr, k, ph, eo, er>>
       ELSE /\ k' = k + 1 /\ ph' = "new" /\ t' = 0 /\ n' = 0 /\ got' = 0
            /\ s' = Clear(GivenUp(s))
            /\ UNCHANGED <<tr, eo, er>>
    /\ Reached

Next == Stimulate \/ React \/ Proceed
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report ==
    \A i \in 1..Len(Traces) :
        LET x == TLCGet(i)
        IN  PrintT("@TRACE " \o ToJson([i |-> i, id |-> Traces[i].id, acc |-> x \div 1000000 > Len(Traces[i].steps),
                                       k |-> x \div 1000000, t |-> x % 1000000]))
=============================================================================
