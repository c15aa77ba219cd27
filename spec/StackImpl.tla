------------------------------ MODULE StackImpl ------------------------------
(* maa/stack.c: nodes linked from the top. *)
EXTENDS Stack, Json
CONSTANTS Stacks, Data0, Depth
VARIABLES cs,    \* stack -> pointer to the top node: <<>> or <<datum, rest>>
          lab, bad
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
RECURSIVE Nodes(_)
Nodes(p) == IF p = << >> THEN 0 ELSE 1 + Nodes(p[2])
Init == HInit /\ cs = << >> /\ lab = "" /\ bad = FALSE
Next == \/ \E t \in Stacks : t \notin DOMAIN cs /\ cs' = (t :> << >>) @@ cs /\ L([op |-> "knew", t |-> t], "knew" \o T2(t))
        \/ \E t \in DOMAIN cs :
             \/ \E d \in Data0 : /\ Nodes(cs[t]) < Depth /\ cs' = [cs EXCEPT ![t] = <<d, @>>]
                                 /\ L([op |-> "kpush", t |-> t, d |-> d], "kpush" \o T2(t) \o T2(d))
             \/ IF cs[t] = << >> THEN UNCHANGED cs /\ L([op |-> "kpop", t |-> t, r |-> 0], "kpop" \o T2(t))
                ELSE cs' = [cs EXCEPT ![t] = @[2]] /\ L([op |-> "kpop", t |-> t, r |-> cs[t][1]], "kpop" \o T2(t))
             \/ UNCHANGED cs /\ L([op |-> "ktop", t |-> t, r |-> IF cs[t] = << >> THEN 0 ELSE cs[t][1]], "ktop" \o T2(t))
             \/ UNCHANGED cs /\ L([op |-> "kemp", t |-> t, r |-> IF cs[t] = << >> THEN 1 ELSE 0], "kemp" \o T2(t))
             \/ cs' = Without(cs, t) /\ L([op |-> "kdel", t |-> t], "kdel" \o T2(t))
Spec == Init /\ [][Next]_<<stk, cs, lab, bad>>
View == <<bad, cs>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
=============================================================================
