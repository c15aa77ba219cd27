----------------------------- MODULE HandlesImpl -----------------------------
(* How the library does it: the first word of every structure is a tag that
   destruction overwrites; operations compare the word they find, whatever it
   belongs to, before they do anything else, the second operand after the
   first.                                                                     *)
EXTENDS Handles, Json
CONSTANTS Kinds, Slots, Funs
VARIABLES tag,     \* slot -> its first word
          lab, bad
vars == <<hvars, tag, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
Magic == ("hash" :> "01020304") @@ ("set" :> "02030405") @@ ("list" :> "03040506") @@ ("skip" :> "abcdef01") @@ ("objs" :> "42424242")
           @@ ("strs" :> "23232323") @@ ("args" :> "feedbead") @@ ("other" :> "00000000")
Freed == "badcfe10"
CNew(s, k) == /\ s \notin DOMAIN tag
              /\ tag' = (s :> Magic[k]) @@ [x \in {y \in DOMAIN tag : k # "skip" \/ tag[y] # Freed} |-> tag[x]]
              /\ L([op |-> "xnew", s |-> s, k |-> k, n |-> 2], "xnew" \o T2(s) \o " " \o k \o " 2")
CDel(s) == /\ s \in DOMAIN tag /\ tag[s] # Freed
           /\ tag' = IF tag[s] = Magic["skip"] THEN [tag EXCEPT ![s] = Freed] ELSE [x \in DOMAIN tag \ {s} |-> tag[x]]
           /\ L([op |-> "xdel", s |-> s], "xdel" \o T2(s))
\* the check of one operand: "" or how the program ends
Check(f, j, s) == CASE s = Null -> IF f \in {"lst_append", "sl_iterate", "sl_iterate_arg"} THEN "ok" ELSE "abort"
                    [] OTHER -> IF tag[s] = Magic[Wants[f][j]] THEN "" ELSE "abort"
Ends(f, as) == IF Len(as) = 1 THEN (IF Check(f, 1, as[1]) = "" THEN "ok" ELSE Check(f, 1, as[1]))
               ELSE IF Check(f, 1, as[1]) # "" THEN "abort" ELSE IF Check(f, 2, as[2]) # "" THEN "abort" ELSE "ok"
CUse(f, as) == UNCHANGED tag /\ L([op |-> "try", cmd |-> "xuse", a |-> <<f>> \o as, end |-> Ends(f, as)],
                                  "!xuse " \o f \o T2(as[1]) \o (IF Len(as) = 2 THEN T2(as[2]) ELSE ""))
Init == HInit /\ tag = << >> /\ lab = "" /\ bad = FALSE
Given == DOMAIN tag \cup {Null}
Next == \/ \E s \in Slots : (\E k \in Kinds : CNew(s, k)) \/ CDel(s)
        \/ \E f \in DOMAIN Wants : Wants[f][1] \in Funs /\ (IF Len(Wants[f]) = 1 THEN \E s \in Given : CUse(f, <<s>>) ELSE \E s, t \in Given : CUse(f, <<s, t>>))
Spec == Init /\ [][Next]_vars
View == <<bad, obj, tag>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == DOMAIN tag = DOMAIN obj /\ \A s \in DOMAIN obj : tag[s] = (IF obj[s].kind = "gone" THEN Freed ELSE Magic[obj[s].kind])
=============================================================================
