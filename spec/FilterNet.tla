------------------------------ MODULE FilterNet ------------------------------
(* The copy loop and a filter process, connected by two pipes that hold few
   bytes: whatever the filter is like and however the two take turns, the loop
   ends (no deadlock, no livelock) and everything went through in order.     *)
EXTENDS Integers, Sequences
CONSTANTS N, P, Cin, Cout, Faults, Kinds
VARIABLES kind, pc, rem, inq, inopen, outq, outopen, got, eof, fpc, have, todo, nf, exited, reaped
vars == <<kind, pc, rem, inq, inopen, outq, outopen, got, eof, fpc, have, todo, nf, exited, reaped>>
Input == [i \in 1..N |-> i]
Extra == [i \in 1..P |-> 100 + i]
Expected == CASE kind = "cat" -> Input [] kind = "dup" -> Input \o Input [] kind = "pre" -> Extra
              [] kind = "mix" -> Extra \o Input [] kind = "post" -> Extra [] kind = "sink" -> << >>
Init == /\ kind \in Kinds /\ pc = "sel" /\ rem = Input /\ inq = << >> /\ inopen = (N > 0) /\ outq = << >> /\ outopen = TRUE /\ got = << >> /\ eof = FALSE
        /\ fpc = (IF kind \in {"pre", "mix"} THEN "write" ELSE "read") /\ todo = (IF kind \in {"pre", "mix"} THEN Extra ELSE << >>) /\ have = << >> /\ nf = 0 /\ exited = FALSE /\ reaped = FALSE
Caller == <<pc, rem, inopen, got, nf, reaped>>
Filt == <<fpc, have, todo, outopen, eof, exited>>
Min(a, b) == IF a < b THEN a ELSE b
Drop(s, k) == SubSeq(s, k + 1, Len(s))
\* ---- the loop ----
Ready == (inopen /\ Len(inq) < Cin) \/ Len(outq) > 0 \/ ~outopen
Fault == nf < Faults /\ nf' = nf + 1
Select == /\ pc = "sel" /\ (Ready \/ nf < Faults)
          /\ \/ Ready /\ pc' = (IF rem # << >> THEN "write" ELSE "read") /\ UNCHANGED nf
             \/ Fault /\ pc' = "sel"
             \/ Fault /\ pc' = (IF rem # << >> THEN "write" ELSE "read")          \* timed out
          /\ UNCHANGED <<kind, rem, inq, inopen, outq, got, reaped, Filt>>
Write == /\ pc = "write" /\ pc' = "read" /\ UNCHANGED <<kind, outq, got, reaped, Filt>>
         /\ \/ \E k \in 1..Min(Len(rem), Cin - Len(inq)) :
                 /\ (k = Min(Len(rem), Cin - Len(inq)) \/ k = 1)
                 /\ inq' = inq \o SubSeq(rem, 1, k) /\ rem' = Drop(rem, k) /\ inopen' = (Len(rem) > k) /\ UNCHANGED nf
            \/ (Len(inq) = Cin \/ nf < Faults) /\ nf' = (IF Len(inq) = Cin THEN nf ELSE nf + 1) /\ UNCHANGED <<rem, inq, inopen>>
Read == /\ pc = "read" /\ UNCHANGED <<kind, rem, inq, inopen, Filt>>
        /\ \/ \E k \in 1..Len(outq) : (k = Len(outq) \/ k = 1) /\ got' = got \o SubSeq(outq, 1, k) /\ outq' = Drop(outq, k) /\ pc' = "sel" /\ UNCHANGED <<nf, reaped>>
           \/ outq = << >> /\ outopen /\ pc' = "sel" /\ UNCHANGED <<outq, got, nf, reaped>>
           \/ Fault /\ pc' = "sel" /\ UNCHANGED <<outq, got, reaped>>
           \/ outq = << >> /\ ~outopen /\ pc' = "wait" /\ UNCHANGED <<outq, got, nf, reaped>>
Wait == pc = "wait" /\ exited /\ pc' = "done" /\ reaped' = TRUE /\ UNCHANGED <<kind, rem, inq, inopen, outq, got, nf, Filt>>
\* ---- the filter ----
FRead == /\ fpc = "read" /\ UNCHANGED <<kind, Caller, outq, outopen, exited>>
         /\ \/ \E k \in 1..Len(inq) :
                 /\ k \in {1, Len(inq)} /\ inq' = Drop(inq, k) /\ have' = have \o SubSeq(inq, 1, k) /\ UNCHANGED eof
                 /\ IF kind \in {"cat", "mix"} THEN fpc' = "write" /\ todo' = SubSeq(inq, 1, k) ELSE UNCHANGED <<fpc, todo>>
            \/ /\ inq = << >> /\ ~inopen /\ eof' = TRUE /\ fpc' = "write" /\ UNCHANGED <<inq, have>>
               /\ todo' = (CASE kind = "dup" -> have \o have [] kind = "post" -> Extra [] OTHER -> << >>)
FWrite == /\ fpc = "write" /\ UNCHANGED <<kind, Caller, inq, have, eof>>
          /\ IF todo = << >>
             THEN fpc' = (IF eof THEN "end" ELSE "read") /\ UNCHANGED <<outq, todo, outopen, exited>>
             ELSE \E k \in 1..Min(Len(todo), Cout - Len(outq)) :
                    k \in {1, Min(Len(todo), Cout - Len(outq))} /\ outq' = outq \o SubSeq(todo, 1, k) /\ todo' = Drop(todo, k) /\ UNCHANGED <<fpc, outopen, exited>>
FClose == fpc = "end" /\ outopen /\ outopen' = FALSE /\ UNCHANGED <<kind, Caller, inq, outq, fpc, have, todo, eof, exited>>
FExit == fpc = "end" /\ ~outopen /\ ~exited /\ exited' = TRUE /\ UNCHANGED <<kind, Caller, inq, outq, outopen, fpc, have, todo, eof>>
Over == pc = "done" /\ UNCHANGED vars
Loop == Select \/ Write \/ Read \/ Wait
Prog == FRead \/ FWrite \/ FClose \/ FExit
Next == Loop \/ Prog \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop) /\ WF_vars(Prog)
\* ---- properties (deadlock freedom is checked as well) ----
InOrder == Len(got) <= Len(Expected) /\ got = SubSeq(Expected, 1, Len(got))
Complete == pc = "done" => got = Expected /\ have = Input /\ rem = << >> /\ ~inopen /\ reaped
NoLoss == have \o inq \o rem = Input
Ends == <>(pc = "done")
=============================================================================
