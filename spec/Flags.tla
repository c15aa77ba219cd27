-------------------------------- MODULE Flags --------------------------------
(* Debug flags (maa/debug.c) and run-time flags (maa/flags.c): C19, C20.
   A flag is <<group, bit>>; "d" are the debug flags, "f" the run-time flags. *)
EXTENDS Util
VARIABLE fl      \* "d", "f" -> [reg: name -> flag, on: set of flags]
hvars == fl
None == [reg |-> << >>, on |-> {}]
HInit == fl = [k \in {"d", "f"} |-> None]
Vals(f) == {f[x] : x \in DOMAIN f}
AllFlags == (0..3) \X (0..29)
\* the argument pair of bits is one well-formed flag
Formed(b1, b2) == b1 \in 0..29 /\ b2 \in {-1, b1}
CanReg(F, user, g, b1, b2) == Formed(b1, b2) /\ ~(user = 1 /\ g = 3) /\ <<g, b1>> \notin Vals(F.reg)
Register(e) == /\ CanReg(fl[e.w], e.user, e.g, e.b, e.b2)
               /\ fl' = [fl EXCEPT ![e.w].reg = (e.name :> <<e.g, e.b>>) @@ @]
Known(F, n) == n \in DOMAIN F.reg
Bare(n) == SubSeq(n, 2, Len(n))
Sign(n) == IF n = "" THEN "" ELSE SubSeq(n, 1, 1)
CanSet(F, n) == /\ DOMAIN F.reg # {}
                /\ Ok(n \in {"none", "all"} \/ Known(F, n) \/ (Sign(n) \in {"+", "-"} /\ Known(F, Bare(n))))
SetTo(F, n) == IF n = "none" THEN {}
               ELSE IF n = "all" THEN AllFlags
               ELSE IF Known(F, n) THEN F.on \cup {F.reg[n]}
               ELSE IF Sign(n) = "+" THEN F.on \cup {F.reg[Bare(n)]}
               ELSE F.on \ {F.reg[Bare(n)]}
SetName(e) == CanSet(fl[e.w], e.name) /\ fl' = [fl EXCEPT ![e.w].on = SetTo(fl[e.w], e.name)]
SetFlag(e) == fl' = [fl EXCEPT ![e.w].on = IF e.v = 1 THEN @ \cup {<<e.g, e.b>>} ELSE @ \ {<<e.g, e.b>>}]
Test(e) == e.r = (IF <<e.g, e.b>> \in fl[e.w].on THEN 1 ELSE 0) /\ UNCHANGED fl
TestAll(e) == Rng(e.on) = fl[e.w].on /\ UNCHANGED fl
\* name of a flag (run-time flags)
Name(e) == LET F == fl[e.w] IN
           /\ IF <<e.g, e.b>> \in Vals(F.reg) THEN e.name \in DOMAIN F.reg /\ F.reg[e.name] = <<e.g, e.b>>
              ELSE e.name = "unknown flag"
           /\ UNCHANGED fl
List(e) == /\ Distinct(e.names) /\ Rng(e.names) = DOMAIN fl[e.w].reg
           /\ e.w = "d" => Ok(\A j \in 1..Len(e.names) : (fl["d"].reg[e.names[j]][1] = 3) = (e.builtin[j] = 1))
           /\ UNCHANGED fl
Destroy(e) == fl' = [fl EXCEPT ![e.w] = None]
Try(e) == LET F == fl[e.a[1]] IN
  /\ e.end = (CASE e.cmd = "freg" -> IF CanReg(F, e.a[2], e.a[3], e.a[4], e.a[5]) THEN "ok" ELSE "exit1"
                [] e.cmd = "fset" -> IF CanSet(F, IF e.a[2] = "@" THEN "" ELSE e.a[2]) THEN "ok" ELSE "exit1")
  /\ UNCHANGED fl
Do(e) == CASE e.op = "fall"  -> TestAll(e)
           [] e.op = "fset"  -> SetName(e)
           [] e.op = "fset1" -> SetFlag(e)
           [] e.op = "ftst"  -> Test(e)
           [] e.op = "freg"  -> Register(e)
           [] e.op = "fname" -> Name(e)
           [] e.op = "flist" -> List(e)
           [] e.op = "fdel"  -> Destroy(e)
           [] e.op = "try"   -> Try(e)
           [] e.op = "reset" -> fl' = [k \in {"d", "f"} |-> None]
           [] OTHER -> FALSE
=============================================================================
