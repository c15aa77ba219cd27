------------------------------ MODULE ListTotal ------------------------------
(* The figure lst_total_allocated() (C08): it grows by one amount with every list
   created and by another with every element added, and never otherwise.      *)
EXTENDS Util
VARIABLES cnt,   \* lists created, elements added
          unit   \* what each of them adds; -1 before it is known
tvars == <<cnt, unit>>
TotInit == cnt = <<0, 0>> /\ unit = <<-1, -1>>
TotReset == cnt' = <<0, 0>> /\ unit' = <<-1, -1>>
Figure(e) ==
  /\ UNCHANGED cnt
  /\ IF cnt = <<0, 0>> THEN e.r = 0 /\ UNCHANGED unit
     ELSE IF unit[1] = -1
          THEN IF cnt[2] = 0 THEN e.r > 0 /\ unit' = <<e.r \div cnt[1], -1>> /\ unit'[1] * cnt[1] = e.r ELSE UNCHANGED unit
     ELSE IF unit[2] = -1 /\ cnt[2] > 0
          THEN /\ e.r > unit[1] * cnt[1]
               /\ unit' = <<unit[1], (e.r - unit[1] * cnt[1]) \div cnt[2]>>
               /\ unit[1] * cnt[1] + unit'[2] * cnt[2] = e.r
     ELSE e.r = unit[1] * cnt[1] + (IF cnt[2] = 0 THEN 0 ELSE unit[2] * cnt[2]) /\ UNCHANGED unit
TotDo(e) == CASE e.op = "ltot" -> Figure(e)
              [] e.op = "lnew" -> cnt' = <<cnt[1] + 1, cnt[2]>> /\ UNCHANGED unit
              [] e.op \in {"lapp", "lpush"} -> cnt' = <<cnt[1], cnt[2] + 1>> /\ UNCHANGED unit
              [] e.op = "reset" -> TotReset
              [] OTHER -> UNCHANGED tvars
=============================================================================
