----------------------------- MODULE FilterImpl ------------------------------
(* The copy loop of pr_readwrite with everything the system may answer to each
   call: select interrupted or timed out, writes and reads partial, refused
   (EAGAIN) or interrupted.  Every complete run becomes a schedule for the
   real loop.                                                                 *)
EXTENDS Filter, Json, SequencesExt
CONSTANTS N, M, Faults, Chunk
VARIABLES pc, n, max, rem, room, out, acc, nf, W, R, S, lab, bad
vars == <<hvars, pc, n, max, rem, room, out, acc, nf, W, R, S, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
Str(s) == IF s = << >> THEN "-" ELSE FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", s)
Init == /\ HInit /\ pc = "start" /\ n = 0 /\ max = 0 /\ rem = 0 /\ room = 0 /\ out = 0 /\ acc = 0 /\ nf = 0 /\ W = << >> /\ R = << >> /\ S = << >> /\ lab = "" /\ bad = FALSE
Start == /\ pc = "start" /\ \E a \in 0..N, b \in 0..M : n' = a /\ max' = b /\ rem' = a /\ room' = b
         /\ pc' = "sel" /\ UNCHANGED <<hvars, out, acc, nf, W, R, S, lab, bad>>
Fault == nf < Faults /\ nf' = nf + 1
Same == UNCHANGED <<hvars, n, max, lab, bad>>
Select == /\ pc = "sel" /\ Same /\ UNCHANGED <<rem, room, out, acc, W, R>>
          /\ \/ pc' = (IF rem > 0 THEN "write" ELSE "read") /\ S' = Append(S, "G") /\ UNCHANGED nf
             \/ Fault /\ S' = Append(S, "I") /\ pc' = "sel"
             \/ Fault /\ S' = Append(S, "T") /\ pc' = (IF rem > 0 THEN "write" ELSE "read")
Write == /\ pc = "write" /\ Same /\ pc' = "read" /\ UNCHANGED <<room, out, R, S>>
         /\ \/ \E k \in 1..rem : rem' = rem - k /\ acc' = acc + k /\ W' = Append(W, ToString(k)) /\ UNCHANGED nf
            \/ Fault /\ (\E x \in {"I", "A"} : W' = Append(W, x)) /\ UNCHANGED <<rem, acc>>
Done(tot) == lab' = (IF tot > max THEN "!" ELSE "") \o "psim " \o ToString(n) \o " " \o ToString(max) \o " " \o Str(W) \o " " \o Str(R') \o " " \o Str(S) \o " " \o ToString(tot)
Read == /\ pc = "read" /\ UNCHANGED <<n, max, rem, acc, W, S>>
        /\ \/ \* data; a full buffer is probed with one byte more
              \E k \in 1..Chunk :
                /\ k <= (IF room > 0 THEN room ELSE 1) /\ out + k <= M + 1
                /\ out' = out + k /\ room' = room - k /\ R' = Append(R, ToString(k)) /\ UNCHANGED nf
                /\ IF room - k < 0
                   THEN /\ pc' = "end" /\ Done(out + k)
                        /\ Judge([op |-> "try", cmd |-> "psim", a |-> <<n, max, "", "", "", out + k>>, end |-> "exit1"])
                   ELSE pc' = "sel" /\ UNCHANGED <<hvars, lab, bad>>
           \/ Fault /\ (\E x \in {"I", "A"} : R' = Append(R, x)) /\ pc' = "sel" /\ UNCHANGED <<hvars, out, room, lab, bad>>
           \/ /\ rem = 0 /\ R' = Append(R, "E") /\ pc' = "end" /\ UNCHANGED <<out, room, nf>> /\ Done(out)
              /\ Judge([op |-> "psim", n |-> n, max |-> max, tot |-> out, prod |-> out, r |-> out, acc |-> In(acc), out |-> Own(out), pt |-> << >>, z |-> 0])
Again == pc = "end" /\ pc' = "end" /\ UNCHANGED <<hvars, n, max, rem, room, out, acc, nf, W, R, S, lab, bad>>
Next == Start \/ Select \/ Write \/ Read \/ Again
Spec == Init /\ [][Next]_vars
View == <<bad, pc, n, max, rem, room, out, acc, nf, W, R, S, lab>>
Emit == pc' = "end" /\ pc # "end" => PrintT("EDGE " \o ToJson(<<"run", lab', "run">>))
Good == ~bad
Shape == acc + rem = n /\ out + room = max /\ out <= max + 1
=============================================================================
