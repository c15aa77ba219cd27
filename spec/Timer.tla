-------------------------------- MODULE Timer --------------------------------
(* Named timers (maa/timer.c): C29.  All times are in microseconds.            *)
EXTENDS Util
VARIABLES clk,   \* the clock: real, own user, own system, children's user and system time
          tm     \* timer's name -> [mark: the clock when last started, val: <<real, user, system>> last measured]
hvars == <<clk, tm>>
Clock0 == <<0, 0, 0, 0, 0>>
HInit == clk = Clock0 /\ tm = << >>
Has(n) == n \in DOMAIN tm
Elapsed(m) == <<clk[1] - m[1], (clk[2] - m[2]) + (clk[4] - m[4]), (clk[3] - m[3]) + (clk[5] - m[5])>>
Tick(e) == clk' = e.t /\ UNCHANGED tm
Start(e) == /\ tm' = (e.n :> [mark |-> clk, val |-> IF Has(e.n) THEN tm[e.n].val ELSE <<0, 0, 0>>]) @@ tm
            /\ UNCHANGED clk
Stop(e) == Has(e.n) /\ tm' = [tm EXCEPT ![e.n].val = Elapsed(tm[e.n].mark)] /\ UNCHANGED clk
Reset(e) == Has(e.n) /\ tm' = [tm EXCEPT ![e.n].val = <<0, 0, 0>>] /\ UNCHANGED clk
Get(e) == Has(e.n) /\ <<e.r, e.u, e.s>> = tm[e.n].val /\ UNCHANGED hvars
\* a line of a listing has a resolution of a millisecond
Near(a, b) == a - b \in -501..501
Line(l) == Has(l[1]) /\ Near(l[2], tm[l[1]].val[1]) /\ Near(l[3], tm[l[1]].val[2]) /\ Near(l[4], tm[l[1]].val[3])
List(e) == /\ IF e.n = "" THEN {e.l[j][1] : j \in 1..Len(e.l)} = DOMAIN tm /\ Len(e.l) = Cardinality(DOMAIN tm)
              ELSE Has(e.n) /\ Len(e.l) = 1 /\ e.l[1][1] = e.n
           /\ Ok(\A j \in 1..Len(e.l) : Line(e.l[j]))
           /\ UNCHANGED hvars
Try(e) == /\ e.cmd \in {"tstop", "treset", "tget1"}
          /\ e.end = (IF Has(e.a[1]) THEN "ok" ELSE "abort")
          /\ UNCHANGED hvars
Do(e) == CASE e.op = "tclk"   -> Tick(e)
           [] e.op = "tstart" -> Start(e)
           [] e.op = "tstop"  -> Stop(e)
           [] e.op = "treset" -> Reset(e)
           [] e.op = "tget"   -> Get(e)
           [] e.op = "tlist"  -> List(e)
           [] e.op = "try"    -> Try(e)
           [] e.op = "reset"  -> clk' = Clock0 /\ tm' = << >>
           [] OTHER -> FALSE
=============================================================================
