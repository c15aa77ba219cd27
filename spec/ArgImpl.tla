------------------------------- MODULE ArgImpl -------------------------------
(* maa/arg.c: a vector that doubles (argm entries, at least two spare), over a
   string memory.                                                            *)
EXTENDS Arg, Json
CONSTANTS Lists, Strs0, MaxN, MaxGrow
VARIABLES ca,    \* list -> [argc, argm, argv: 0.. -> text or "NULL" or "?", grow]
          lab, bad
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
Hx(s) == " " \o (IF s = "" THEN "-" ELSE s)
\* realloc to twice the size when argm <= argc + 2
Bigger(c) == IF c.argm <= c.argc + 2
             THEN [c EXCEPT !.argm = 2 * @, !.argv = [j \in 0..(2 * c.argm - 1) |-> IF j < c.argm THEN c.argv[j] ELSE "?"]] ELSE c
Put(c, s) == LET b == Bigger(c) IN [b EXCEPT !.argv[b.argc] = s, !.argv[b.argc + 1] = "NULL", !.argc = @ + 1]
CNew(t) == /\ t \notin DOMAIN ca
           /\ ca' = (t :> [argc |-> 0, argm |-> 2, argv |-> [j \in 0..1 |-> IF j = 0 THEN "NULL" ELSE "?"], grow |-> ""]) @@ ca
           /\ L([op |-> "anew", t |-> t], "anew" \o T2(t))
CDel(t) == ca' = Without(ca, t) /\ L([op |-> "adel", t |-> t], "adel" \o T2(t))
CAdd(t, n, s) == ca[t].argc < MaxN /\ ca[t].grow = "" /\ ca' = [ca EXCEPT ![t] = Put(@, s)]
                 /\ L([op |-> "aadd", t |-> t, s |-> s, same |-> 1], "aadd" \o T2(t) \o T2(n) \o Hx(s))
CGrow(t, s) == /\ Len(ca[t].grow \o s) <= MaxGrow /\ ca' = [ca EXCEPT ![t].grow = @ \o s]
               /\ L([op |-> "agrow", t |-> t, s |-> s], "agrow" \o T2(t) \o Hx(s))
CFin(t) == ca[t].argc < MaxN /\ ca' = [ca EXCEPT ![t] = [Put(@, @.grow) EXCEPT !.grow = ""]] /\ L([op |-> "afin", t |-> t, same |-> 1], "afin" \o T2(t))
CCnt(t) == UNCHANGED ca /\ L([op |-> "acnt", t |-> t, r |-> ca[t].argc], "acnt" \o T2(t))
CGet(t, n) == /\ UNCHANGED ca
              /\ IF n < 0 \/ n >= ca[t].argc
                 THEN L([op |-> "try", cmd |-> "aget", a |-> <<t, n>>, end |-> "abort"], "!aget" \o T2(t) \o T2(n))
                 ELSE L([op |-> "aget", t |-> t, n |-> n, out |-> ca[t].argv[n] \o "00"], "aget" \o T2(t) \o T2(n))
CVec(t) == /\ UNCHANGED ca
           /\ L([op |-> "avec", t |-> t, n |-> ca[t].argc, items |-> [j \in 1..ca[t].argc |-> ca[t].argv[j - 1] \o "00"],
                 end |-> IF ca[t].argv[ca[t].argc] = "NULL" THEN 1 ELSE 0], "avec" \o T2(t))
Init == HInit /\ ca = << >> /\ lab = "" /\ bad = FALSE
Next == \/ \E t \in Lists : CNew(t)
        \/ \E t \in DOMAIN ca : \/ CDel(t) \/ CFin(t) \/ CCnt(t) \/ CVec(t)
                                \/ \E n \in -1..(ca[t].argc + 1) : CGet(t, n)
                                \/ \E s \in Strs0 : CGrow(t, s) \/ \E n \in {0, 1} : CAdd(t, n, s)
Spec == Init /\ [][Next]_<<al, ca, lab, bad>>
View == <<bad, ca>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == \A t \in DOMAIN ca : ca[t].argc < ca[t].argm /\ DOMAIN ca[t].argv = 0..(ca[t].argm - 1)
=============================================================================
