------------------------------ MODULE GenTunnel ------------------------------
(***************************************************************************)
(* Scenario generator: behaviours of KnxTunnel, recorded as the stimuli    *)
(* that cause them, for replay on the real code.                           *)
(*                                                                         *)
(* Cover: breadth first, a scenario for every pair of abstract state and   *)
(* stimulus (the VIEW), i.e. a transition cover of the abstracted machine. *)
(* Walk:  long random behaviours (TLC -simulate) whose stimuli may also    *)
(* fall together without a pause.                                          *)
(***************************************************************************)
EXTENDS KnxTunnel, IOUtils, Json

CONSTANTS Kind,          \* "client" or "monitor"
          Depth,         \* stimuli per scenario
          MaxOps,        \* calls in progress at once
          Grouping       \* stimuli may come without a pause (Walk)

VARIABLES s, hist, ops, prev, last, grp
vars == <<s, hist, ops, prev, last, grp>>

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN "" ELSE HexDigit[(Head(b) \div 16) + 1] \o HexDigit[(Head(b) % 16) + 1] \o Hex(Tail(b))
HexOrDash(b) == IF b = <<>> THEN "-" ELSE Hex(b)

AddrA == 2563
AddrB == 2564
Src == 4363
Cemi(mc, c1, dest, apdu) == <<mc, 0, c1, 224>> \o W16(Src) \o W16(dest) \o <<Len(apdu) - 1>> \o apdu
Ep(x) == [code |-> 1, ip |-> <<192, 168, 10, x>>, port |-> 3671]
ConnRes(ch, st) == EncConnRes([ch |-> ch, st |-> st, ep |-> Ep(ch), ia |-> 65520])
Tun(i, m) == EncTunReq(8, (i * 3) % 256, m)

\* Datagram by name; i makes sequence numbers and values distinguishable
Dg(nm, i) ==
    CASE nm = "conn8" -> ConnRes(8, 0)
      [] nm = "conn9" -> ConnRes(9, 0)
      [] nm = "refuse" -> ConnRes(8, 33)
      [] nm = "nomore" -> Header(SidConnRes, 8) \o <<0, 36>>
      [] nm = "respA" -> Tun(i, Cemi(McInd, 188, AddrA, ApduBig(ApciResponse, <<i % 256, 1>>)))
      [] nm = "writeA" -> Tun(i, Cemi(McInd, 156, AddrA, ApduSmall(ApciWrite, i)))
      [] nm = "readA" -> Tun(i, Cemi(McInd, 188, AddrA, ApduSmall(ApciRead, 0)))
      [] nm = "respB" -> Tun(i, Cemi(McInd, 188, AddrB, ApduBig(ApciResponse, <<i % 256>>)))
      [] nm = "busmon" -> Tun(i, Cemi(McBusmon, 144, AddrB, ApduBig(ApciWrite, <<i % 256, 2, 3>>)))
      [] nm = "conA" -> Tun(i, Cemi(McCon, 188, AddrA, ApduBig(ApciWrite, <<i % 256>>)))
      [] nm = "nconA" -> Tun(i, Cemi(McCon, 189, AddrA, ApduBig(ApciWrite, <<i % 256>>)))
      [] nm = "conB" -> Tun(i, Cemi(McCon, 188, AddrB, ApduSmall(ApciRead, 0)))
      [] nm = "info" -> Tun(i, <<McInd, 4, 3, 2, 1, 2>> \o From(Cemi(McInd, 188, AddrA, ApduBig(ApciResponse, <<i % 256, 9>>)), 3))
      [] nm = "other" -> Tun(i, <<251, 0, 1, 2>>)
      [] nm = "shortind" -> Tun(i, <<McInd, 0, 188, 224, 1>>)
      [] nm = "shortcon" -> Tun(i, <<McCon, 0, 188>>)
      [] nm = "badcemi" -> Tun(i, <<McInd>>)
      [] nm = "ack" -> EncTunAck(8, (i * 5) % 256, 0)
      [] nm = "feat" -> EncFeatRes([ch |-> 8, seq |-> (i * 3) % 256, f |-> 8, st |-> 0, v |-> 1])
      [] nm = "state" -> EncStateRes(8, 0)
      [] nm = "serrx" -> EncStateRes(8, 33)
      [] nm = "dres" -> EncDiscRes(8, 0)
      [] nm = "dreq" -> EncDiscReq(8, Ep(8))
      [] nm = "junk" -> <<6, 16, 4, 32, 0, 99, 4>>
      [] nm = "unknown" -> Header(1328, 8) \o <<1, 2>>
      [] nm = "empty" -> <<>>

ConnDgs == {"conn8", "conn9", "refuse", "nomore", "junk", "empty", "respA", "dreq"}
ClientDgs == {"respA", "writeA", "readA", "respB", "conA", "nconA", "conB", "info", "other", "shortind", "shortcon", "badcemi"}
MonitorDgs == {"respA", "writeA", "busmon", "conA", "info", "other", "shortind", "badcemi"}
LinkDgs == {"ack", "feat", "state", "serrx", "dres", "dreq", "junk", "unknown", "empty"}
SessDgs == LinkDgs \cup (IF Kind = "client" THEN ClientDgs ELSE MonitorDgs)

Calls == IF Kind = "client"
         THEN {<<"read", AddrA, 0, <<>>>>, <<"write", AddrA, 1, <<1>>>>, <<"write", AddrB, 0, <<12, 26>>>>,
               <<"status", 0, 0, <<>>>>, <<"disc", 0, 0, <<>>>>}
         ELSE {<<"next", 0, 0, <<>>>>, <<"write", AddrA, 0, <<12, 26>>>>, <<"sol", AddrB, 0, <<>>>>,
               <<"disc", 0, 0, <<>>>>, <<"isconn", 0, 0, <<>>>>}

\* Stimuli that make sense in a state
Stimuli(z) ==
    {<<"dg", d>> : d \in IF z.pc \in {"connwait", "connretry"} THEN ConnDgs ELSE IF z.pc = "sess" THEN SessDgs ELSE {"respA"}}
    \cup {<<"rerr">>}
    \cup (IF z.blk THEN {<<"unblock">>} ELSE IF z.sf = <<>> /\ z.pc = "sess" THEN {<<"block">>} ELSE {})
    \cup (IF z.sf = <<>> /\ ~z.blk THEN {<<"serr", <<1>>>>, <<"serr", <<0, 1>>>>} ELSE {})
    \cup (IF Cardinality(DOMAIN z.ops) < MaxOps THEN {<<"call", c>> : c \in Calls} ELSE {})
    \cup (IF Kind = "monitor" /\ Cardinality(DOMAIN z.lis) < 2 /\ Cardinality(DOMAIN z.ops) < MaxOps
          THEN {<<"call", <<"lis", Cardinality(DOMAIN z.lis) + 1, 1 + Cardinality(DOMAIN z.lis), <<>>>>>>} ELSE {})
    \cup {<<"lget", l>> : l \in DOMAIN z.lis}
    \cup {<<"ldrop", l>> : l \in {x \in DOMAIN z.lis : z.lis[x].alive}}
    \cup {<<"cancel", o>> : o \in DOMAIN z.ops}
    \cup {<<"adv", n>> : n \in {1, 10, 30, 60}}

Line(x, i, o) ==
    CASE x[1] = "dg" -> "dg " \o HexOrDash(Dg(x[2], i))
      [] x[1] = "rerr" -> "rerr 111"
      [] x[1] \in {"block", "unblock"} -> x[1]
      [] x[1] = "serr" -> "serr " \o (IF Len(x[2]) = 1 THEN "1" ELSE "01")
      [] x[1] = "call" -> "call " \o ToString(o) \o " " \o x[2][1] \o " " \o ToString(x[2][2]) \o " " \o ToString(x[2][3]) \o " " \o HexOrDash(x[2][4])
      [] x[1] = "cancel" -> "cancel " \o ToString(x[2])
      [] x[1] = "lget" -> "lget " \o ToString(x[2])
      [] x[1] = "ldrop" -> "ldrop " \o ToString(x[2])
      [] x[1] = "adv" -> "adv " \o ToString(x[2])
Effect(z, x, i, o) ==
    CASE x[1] = "dg" -> Deliver(z, Data(Dg(x[2], i)))
      [] x[1] = "rerr" -> Deliver(z, Failure)
      [] x[1] \in {"block", "unblock"} -> Block(z, x[1] = "block")
      [] x[1] = "serr" -> SetFaults(z, x[2])
      [] x[1] = "call" -> Call(z, o, x[2][1], x[2][2], x[2][3], x[2][4])
      [] x[1] = "cancel" -> Cancel(z, x[2])
      [] x[1] = "lget" -> FetchListener(z, x[2])
      [] x[1] = "ldrop" -> DropListener(z, x[2])
      [] x[1] = "adv" -> Clear(z)

\* The state as far as it matters for what can happen next
MsgKind(m) == <<m.mc, DecInd(m.si).ok, IF Len(m.si) >= 6 THEN <<U16(m.si, 5), Bit(m.si[1], 0)>> ELSE <<>>>>
Abs(z) ==
    <<z.pc, z.conn.up, z.hb = 0,
      [i \in 1..(IF Len(z.q) < 2 THEN Len(z.q) ELSE 2) |-> MsgKind(z.q[i])],
      IF z.ctl = <<>> THEN "-" ELSE z.ctl[1].k,
      {<<z.ops[o].op, z.ops[o].pc, z.lock = o, Cardinality({y \in DOMAIN z.ops : z.ops[y].op = z.ops[o].op})>> : o \in DOMAIN z.ops},
      z.sf, z.blk, z.hbp,
      {<<l, z.lis[l].alive, z.lis[l].n>> : l \in DOMAIN z.lis}>>

Init ==
    /\ s = InitState(Kind) /\ hist = <<>> /\ ops = 0 /\ prev = <<>> /\ last = <<>> /\ grp = 0

Settle ==
    /\ ~Quiet(s) /\ grp = 0
    /\ \E u \in Internal(s) : s' = Clear(u)
    /\ UNCHANGED <<hist, ops, prev, last, grp>>

\* Time passes in one go, up to n seconds, stopping where a timer fires
Stim ==
    /\ (Quiet(s) \/ grp > 0) /\ Len(hist) < Depth
    /\ \E x \in Stimuli(s) :
        LET o == IF x[1] = "call" THEN ops + 1 ELSE ops
            i == Len(hist) + 1
        IN  /\ ops' = o
            /\ prev' = Abs(s) /\ last' = x
            /\ IF x[1] = "adv"
               THEN \* the scenario advances by the next timer or n, whichever comes first
                    LET T == {y \in Timers(s) : y > 0 /\ y < x[2]}
                        d == IF grp > 0 THEN 1 ELSE IF T = {} THEN x[2] ELSE CHOOSE y \in T : \A w \in T : y <= w
                    IN  /\ s' = Elapse(s, d) /\ hist' = Append(hist, "adv " \o ToString(d)) /\ grp' = 0
               ELSE \E g \in (IF Grouping /\ x[1] \in {"dg", "call", "cancel"} /\ grp < 3 THEN {0, 1} ELSE {0}) :
                    /\ s' = Effect(s, x, i, o)
                    /\ hist' = Append(hist, (IF g = 1 THEN "+ " ELSE "") \o Line(x, i, o))
                    /\ grp' = IF g = 1 THEN grp + 1 ELSE 0

Next == Settle \/ Stim
Spec == Init /\ [][Next]_vars

View == IF Quiet(s) THEN <<prev, last, Abs(s)>> ELSE <<prev, last, s>>
Emit == (Quiet(s) /\ grp = 0 /\ Len(hist) > 0) => PrintT("@SCEN " \o ToJson(hist))
EmitEnd == (Quiet(s) /\ grp = 0 /\ Len(hist) = Depth) => PrintT("@SCEN " \o ToJson(hist))
=============================================================================
