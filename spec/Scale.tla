-------------------------------- MODULE Scale --------------------------------
(* Size is no limit (C38): hundreds of thousands of elements, texts of
   megabytes.  An object holds the elements lo..hi-1, counted in units of u
   elements; every operation is one on whole units, and tells what it saw as
   runs <<first, last>> of consecutive elements.  However many there are, the
   run-time stack does not grow by more than Frame kB.                        *)
EXTENDS Util
VARIABLES u, t, lo, hi      \* elements in a unit, bytes in a unit of text; contents by kind
hvars == <<u, t, lo, hi>>
Ks == {"hash", "set", "list", "skip", "stack", "objs", "strs", "pool", "glob", "args", "src", "prs"}
Zero == [k \in Ks |-> 0]
HInit == u = 1 /\ t = 1 /\ lo = Zero /\ hi = Zero
Frame == 256
Small(e) == e.stk <= Frame
Run(a, b) == IF a = b THEN << >> ELSE <<<<a * u, b * u - 1>>>>       \* units a..b-1, upwards
Down(a, b) == IF a = b THEN << >> ELSE <<<<b * u - 1, a * u>>>>
Len2(k) == hi[k] - lo[k]
\* kinds whose number of elements can be asked for
Counted(k) == k \in Ks \ {"skip", "stack", "glob", "prs"}
N(k, a, b) == IF Counted(k) THEN (b - a) * u ELSE -1
ZUnit(e) == u' = e.u /\ t' = e.t /\ UNCHANGED <<lo, hi>>
ZAdd(e) == /\ hi' = [hi EXCEPT ![e.k] = @ + e.m] /\ e.n = N(e.k, lo[e.k], hi[e.k] + e.m)
           /\ UNCHANGED <<u, t, lo>>
\* from = 0: the oldest go, 1: the youngest.  Which came out is told, except for a list cut short
ZCut(e) == LET k == e.k IN
  /\ k \in {"hash", "set", "list", "skip", "stack", "objs"} /\ e.m <= Len2(k)
  /\ IF e.from = 0 THEN k # "stack" /\ lo' = [lo EXCEPT ![k] = @ + e.m] /\ hi' = hi /\ e.runs = Run(lo[k], lo[k] + e.m)
                   ELSE k \in {"stack", "list"} /\ hi' = [hi EXCEPT ![k] = @ - e.m] /\ lo' = lo
                        /\ e.runs = IF k = "stack" THEN Down(hi[k] - e.m, hi[k]) ELSE << >>
  /\ e.n = N(k, lo'[k], hi'[k]) /\ UNCHANGED <<u, t>>
Top(k) == IF Len2(k) = 0 THEN << >> ELSE <<<<hi[k] * u - 1, hi[k] * u - 1>>>>
Each(e) == e.visits = e.n /\ e.twice = 0
ZWalk(e) == LET k == e.k IN
  /\ IF k = "stack" THEN e.runs = Top(k) ELSE e.runs = Run(lo[k], hi[k]) /\ e.n = Len2(k) * u
  /\ Each(e) /\ UNCHANGED hvars
\* positions of a list count from 1; elements from lo
ZFind(e) == LET k == e.k n == Len2(k) * u IN
  /\ IF k = "list" THEN /\ e.at = (IF n = 0 THEN [j \in 1..5 |-> -9] ELSE <<0, 1, n \div 2 - 1, n - 2, n - 1>>)
                        /\ e["in"] = (IF n = 0 THEN <<0, 0, 0>> ELSE <<1, 1, 0>>)
                   ELSE k \in {"hash", "set", "skip", "pool", "glob", "prs"} /\ e.runs = Run(lo[k], hi[k])
  /\ UNCHANGED hvars
ZDrop(e) == lo' = [lo EXCEPT ![e.k] = 0] /\ hi' = [hi EXCEPT ![e.k] = 0] /\ UNCHANGED <<u, t>>
\* the set A = lo..hi and B, the same m units further up
ZSet(e) == LET a == lo["set"] b == hi["set"] m == e.m IN
  /\ m <= b - a
  /\ LET res == CASE e.f \in {"union", "add"} -> IF a = b THEN <<a, b>> ELSE <<a, b + m>>
                  [] e.f = "inter" -> <<a + m, b>>
                  [] e.f \in {"diff", "del"} -> <<a, a + m>>
                  [] e.f = "equal" -> <<a, b>>
     IN e.runs = Run(res[1], res[2]) /\ Each(e) /\ hi' = (IF e.f \in {"add", "del"} THEN [hi EXCEPT !["set"] = res[2]] ELSE hi)
  /\ e.r = (IF e.f # "equal" THEN -1 ELSE IF m = 0 THEN 1 ELSE 0)
  /\ UNCHANGED <<u, t, lo>>
\* a text of e.u units and e.x bytes is taken whole
ZText(e) == e.len = e.u * t + e.x /\ e.same = 1 /\ UNCHANGED hvars
Do(e) == IF e.op = "reset" THEN u' = 1 /\ t' = 1 /\ lo' = Zero /\ hi' = Zero
         ELSE e.op \in {"unit", "zadd", "zcut", "zwalk", "zfind", "zdrop", "zset", "ztext"} /\ Small(e)
              /\ CASE e.op = "unit" -> ZUnit(e) [] e.op = "zadd" -> ZAdd(e) [] e.op = "zcut" -> ZCut(e) [] e.op = "zwalk" -> ZWalk(e)
                   [] e.op = "zfind" -> ZFind(e) [] e.op = "zdrop" -> ZDrop(e) [] e.op = "zset" -> ZSet(e) [] OTHER -> ZText(e)
=============================================================================
