------------------------------ MODULE ErrorImpl ------------------------------
(* How maa/error.c does it: standard output's buffer is flushed, the report is
   printed in pieces, the same variable arguments are formatted once more for
   the log.                                                                   *)
EXTENDS Log, Json
VARIABLES prog, logs,   \* program name (or No); whether the log goes to: n nothing, f a file, o standard output
          lab, bad
vars == <<hvars, prog, logs, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
M0 == <<109, 37>>
SE == Txt("Permission denied")
F0 == <<102>>
NameTab == << <<112>>, <<47, 120, 47, 113>>, <<97, 47>>, <<46, 47, 46, 47, 114>> >>
NameHex == <<"70", "2f782f71", "612f", "2e2f2e2f72">>
\* strrchr
Last(p) == LET S == {j \in 1..Len(p) : p[j] = 47} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
CProg(x) == /\ prog' = (IF x = 0 THEN No ELSE Some(SubSeq(NameTab[x], Last(NameTab[x]) + 1, Len(NameTab[x])))) /\ UNCHANGED logs
            /\ L([op |-> "eprog", null |-> IF x = 0 THEN 1 ELSE 0, p |-> IF x = 0 THEN << >> ELSE NameTab[x], rnull |-> IF x = 0 THEN 1 ELSE 0,
                  r |-> IF x = 0 THEN << >> ELSE SubSeq(NameTab[x], Last(NameTab[x]) + 1, Len(NameTab[x]))], "eprog " \o IF x = 0 THEN "@" ELSE NameHex[x])
COpen(k) == /\ logs = "n" /\ logs' = k /\ UNCHANGED prog
            /\ IF k = "f" THEN L([op |-> "lfile", id |-> <<105>>, p |-> F0, chg |-> <<>>, sys |-> <<>>], "lfile i 66")
               ELSE L([op |-> "lstream", id |-> <<105>>, n |-> Txt("stdout"), std |-> 1, chg |-> <<>>, sys |-> <<>>], "lstream i stdout a")
CClose == logs # "n" /\ logs' = "n" /\ UNCHANGED prog /\ L([op |-> "lclose", k |-> "a", chg |-> <<>>, sys |-> <<>>], "lclose a")
LogLine(rt, m) == Stamp(0) \o <<32>> \o lg.host \o <<32>> \o <<105>> \o <<91>> \o <<57>> \o <<93, 58, 32>> \o (IF rt = "@" THEN << >> ELSE <<40>> \o Txt(rt) \o <<41, 32>>) \o m \o NL
Std(m) == IF logs = "o" THEN m ELSE << >>
CErr(k, rt) ==
  LET P == The(prog) R == Txt(rt)
      head == IF Is(prog) THEN P \o (IF rt # "@" THEN Txt(" (") \o R \o Txt("): ") ELSE Txt(": "))
              ELSE IF rt # "@" THEN R \o Txt(": ") ELSE << >>
      o == CASE k \in {"w", "f"} -> head \o M0 \o NL \o Std(M0)
             [] k = "n" -> head \o M0 \o Std(M0) \o <<32>> \o R \o Txt(": ") \o SE \o NL \o Std(R \o Txt(": ") \o SE)
             [] k = "i" -> head \o Txt("Internal error") \o NL \o Txt("     ") \o M0 \o NL \o Std(M0)
                           \o (IF Is(prog) THEN Txt("Aborting ") \o P \o Txt("...") ELSE Txt("Aborting...")) \o NL
      file == IF logs # "f" THEN << >> ELSE LogLine(rt, M0) \o (IF k = "n" THEN LogLine(rt, R \o Txt(": ") \o SE) ELSE << >>) IN
  /\ UNCHANGED <<prog, logs>>
  /\ L([op |-> "eerr", k |-> k, rt |-> IF rt = "@" THEN << >> ELSE R, nort |-> IF rt = "@" THEN 1 ELSE 0, m |-> M0, form |-> 0, se |-> SE, pend |-> <<112>>,
        end |-> CASE k = "w" -> "exit77" [] k \in {"f", "n"} -> "exit1" [] k = "i" -> "abort",
        o |-> <<112>> \o o, pid |-> <<57>>, chg |-> IF file = << >> THEN << >> ELSE << <<F0, 1, file>> >>, sys |-> << >>],
       "eerr " \o k \o " " \o rt \o " 6d25 13 70 0")
Init == lg = [Log0 EXCEPT !.host = <<104>>, !.pid = <<49>>] /\ prog = No /\ logs = "n" /\ lab = "" /\ bad = FALSE
Next == \/ \E x \in 0..4 : CProg(x)
        \/ COpen("f") \/ COpen("o") \/ CClose
        \/ \E k \in {"w", "f", "n", "i"}, rt \in {"@", "r(t)"} : (k = "n" => rt # "@") /\ CErr(k, rt)
Spec == Init /\ [][Next]_vars
View == <<bad, prog, logs>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
=============================================================================
