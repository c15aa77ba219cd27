---------------------------- MODULE AroundLogImpl ----------------------------
(* The log's descriptors: opened, opened anew when the name changes, closed;
   what is open afterwards is what Look allows: C39.                          *)
EXTENDS LogImpl, Look
VARIABLE held      \* files the library holds open, one entry per descriptor
avars == <<vars, held>>
Seen(n) == [sig |-> << >>, mask |-> << >>, chg |-> << >>, loose |-> 0, cwd |-> 1, loc |-> 1, umask |-> 1, env |-> 1, tasks |-> 1, timer |-> 1, lim |-> 1,
            new |-> [j \in 1..n |-> <<9, "-", "w">>], lost |-> << >>]
\* a bag of <<name, how many>>
Inc(b, n) == IF n \in DOMAIN b THEN [b EXCEPT ![n] = @ + 1] ELSE (n :> 1) @@ b
Dcr(b, n) == IF n \notin DOMAIN b THEN b ELSE IF b[n] = 1 THEN Without(b, n) ELSE [b EXCEPT ![n] = @ - 1]
\* _log_set_filename opens the new file and closes the one before it; closing the log closes it; the stream is closed with the log
Reopened == IF fd' = fd THEN held
            ELSE LET b == IF Is(fd') THEN Inc(held, The(fd')) ELSE held IN IF Is(fd) THEN Dcr(b, The(fd)) ELSE b
NonStd(u) == Is(u) /\ The(u).std = 0
Streams(b) == IF NonStd(us') /\ ~NonStd(us) THEN Inc(b, << >>) ELSE IF NonStd(us) /\ ~NonStd(us') THEN Dcr(b, << >>) ELSE b
RECURSIVE HowMany(_, _)
HowMany(S, b) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN b[x] + HowMany(S \ {x}, b)
ANext == Next /\ held' = Streams(Reopened)
AView == <<View, held>>
ASpec == Init /\ held = << >> /\ [][ANext]_avars
Looks == LookOk(Seen(HowMany(DOMAIN held, held)), Is(lg.file), NonStd(lg.stream), {}, {})
=============================================================================
