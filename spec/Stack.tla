-------------------------------- MODULE Stack --------------------------------
(* Stacks (maa/stack.c): property C12. *)
EXTENDS Util
VARIABLE stk     \* stack -> sequence of data, top first
hvars == stk
HInit == stk = << >>
Live(t) == t \in DOMAIN stk
TopOf(t) == IF stk[t] = << >> THEN 0 ELSE Head(stk[t])
Do(e) == CASE e.op = "knew"  -> stk' = (e.t :> << >>) @@ stk
           [] e.op = "kdel"  -> Live(e.t) /\ stk' = Without(stk, e.t)
           [] e.op = "kpush" -> Live(e.t) /\ stk' = [stk EXCEPT ![e.t] = <<e.d>> \o @]
           [] e.op = "kpop"  -> /\ Live(e.t) /\ e.r = TopOf(e.t)
                                /\ stk' = [stk EXCEPT ![e.t] = IF @ = << >> THEN @ ELSE Tail(@)]
           [] e.op = "ktop"  -> Live(e.t) /\ e.r = TopOf(e.t) /\ UNCHANGED stk
           [] e.op = "kemp"  -> Live(e.t) /\ e.r = (IF stk[e.t] = << >> THEN 1 ELSE 0) /\ UNCHANGED stk
           [] e.op = "reset" -> stk' = << >>
           [] OTHER          -> FALSE
=============================================================================
