------------------------------ MODULE TimerImpl ------------------------------
(* How maa/timer.c does it: clock readings are pairs of seconds and
   microseconds, differences are taken field by field, and own and children's
   times are kept apart until they are reported.                              *)
EXTENDS Timer, Json
CONSTANTS Names, ClockIx   \* the readings the clock may show
ClockTab == << <<0, 0, 0, 0, 0>>, <<999999, 1, 0, 1000001, 0>>, <<3000000, 0, 1999999, 1000001, 999999>>, <<2000001, 999999, 1000000, 1, 1>> >>
Clocks == {ClockTab[j] : j \in ClockIx}
VARIABLES ent,   \* name -> [real, su, ss, cu, cs, rm, sm, cm]
          lab, bad
vars == <<hvars, ent, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
TV(us) == <<us \div 1000000, us % 1000000>>
DIFFTIME(now, then) == (now[1] - then[1]) * 1000000 + (now[2] - then[2])
Mark == [rm |-> TV(clk[1]), su0 |-> TV(clk[2]), ss0 |-> TV(clk[3]), cu0 |-> TV(clk[4]), cs0 |-> TV(clk[5])]
CTick == \E c \in Clocks : c # clk /\ UNCHANGED ent
           /\ L([op |-> "tclk", t |-> c], "tclk " \o ToString(c[1]) \o " " \o ToString(c[2]) \o " " \o ToString(c[3]) \o " " \o ToString(c[4]) \o " " \o ToString(c[5]))
CStart(n) == /\ ent' = (n :> (Mark @@ (IF n \in DOMAIN ent THEN ent[n] ELSE [real |-> 0, su |-> 0, ss |-> 0, cu |-> 0, cs |-> 0]))) @@ ent
             /\ L([op |-> "tstart", n |-> n], "tstart " \o n)
Refused(op, n, a) == UNCHANGED ent /\ L([op |-> "try", cmd |-> op, a |-> a, end |-> "abort"], "!" \o op \o " " \o n \o (IF op = "tget1" THEN " " \o a[2] ELSE ""))
CStop(n) == IF n \notin DOMAIN ent THEN Refused("tstop", n, <<n>>)
  ELSE LET x == ent[n] m == Mark IN
       /\ ent' = [ent EXCEPT ![n] = [real |-> DIFFTIME(m.rm, x.rm), su |-> DIFFTIME(m.su0, x.su0), ss |-> DIFFTIME(m.ss0, x.ss0),
                                     cu |-> DIFFTIME(m.cu0, x.cu0), cs |-> DIFFTIME(m.cs0, x.cs0)] @@ x]
       /\ L([op |-> "tstop", n |-> n], "tstop " \o n)
CReset(n) == IF n \notin DOMAIN ent THEN Refused("treset", n, <<n>>)
  ELSE /\ ent' = [ent EXCEPT ![n] = [real |-> 0, su |-> 0, ss |-> 0, cu |-> 0, cs |-> 0] @@ ent[n]]
       /\ L([op |-> "treset", n |-> n], "treset " \o n)
CGet(n) == IF n \notin DOMAIN ent THEN \E w \in {"r", "u", "s", "p"} : Refused("tget1", n, <<n, w>>)
  ELSE UNCHANGED ent /\ L([op |-> "tget", n |-> n, r |-> ent[n].real, u |-> ent[n].su + ent[n].cu, s |-> ent[n].ss + ent[n].cs], "tget " \o n)
CList == /\ UNCHANGED ent
         /\ LET q == SelectSeq(<<"a", "b", "c">>, LAMBDA n : n \in DOMAIN ent) IN
            L([op |-> "tlist", n |-> "", l |-> [j \in 1..Len(q) |-> <<q[j], ent[q[j]].real, ent[q[j]].su + ent[q[j]].cu, ent[q[j]].ss + ent[q[j]].cs>>]], "tlist")
Init == HInit /\ ent = << >> /\ lab = "" /\ bad = FALSE
Next == CTick \/ CList \/ \E n \in Names : CStart(n) \/ CStop(n) \/ CReset(n) \/ CGet(n)
Spec == Init /\ [][Next]_vars
View == <<bad, ent, clk>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == DOMAIN ent = DOMAIN tm
=============================================================================
