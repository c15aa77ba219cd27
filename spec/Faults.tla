------------------------------- MODULE Faults -------------------------------
(* When memory, descriptors or processes run out, the operation that needed
   them ends the program with a report; an operation that got all it asked for
   is not affected (C37).                                                     *)
EXTENDS Util
VARIABLES ran      \* operations that went through
hvars == <<ran>>
HInit == ran = 0
Reported(e) == e.end = "exit1" /\ e.said = 1
Fine(e) == e.end = "ok" /\ e.said = 0
Count(ok) == ran' = IF ok THEN ran + 1 ELSE ran
\* one allocation (or all from that one on) is refused: hit says it was asked for
Oom(e) == /\ e.hit \in {0, 1} /\ e.mode \in {0, 1} /\ e.k >= 1
          /\ (IF e.hit = 1 THEN Reported(e) ELSE Fine(e))
          /\ Count(e.hit = 0)
Bits(m) == (m % 2) + ((m \div 2) % 2) + ((m \div 4) % 2)
\* descriptors the caller keeps, and the most it needs at a time
Keeps(e) == IF e.f = "log" THEN 1 ELSE Bits(e.mask)
Most(e)  == IF e.f = "log" THEN 1 ELSE 2 * Bits(e.mask)
NoFd(e) == /\ e.f \in {"open", "log"}
           /\ Ok(CASE e.left >= Most(e) -> Fine(e) [] e.left < Keeps(e) -> Reported(e) [] OTHER -> Fine(e) \/ Reported(e))
           /\ Count(e.end = "ok")
NoFork(e) == e.f \in {"open", "spawn", "filter"} /\ Reported(e) /\ UNCHANGED ran
\* how: 0, 1 a log file that cannot be opened (at once, or when its name changes); 2, 3 the same while a stream is open
NoLog(e) == e.how \in 0..3 /\ Reported(e) /\ e.logged = (e.how \div 2) /\ UNCHANGED ran
Do(e) == CASE e.op = "oom"    -> Oom(e)
           [] e.op = "nofd"   -> NoFd(e)
           [] e.op = "nofork" -> NoFork(e)
           [] e.op = "nolog"  -> NoLog(e)
           [] e.op = "huge"   -> e.w \in 0..7 /\ Reported(e) /\ UNCHANGED ran     \* more than there can be, also when the product of two sizes is
           [] e.op = "xfree0" -> Reported(e) /\ UNCHANGED ran
           [] e.op = "reset"  -> ran' = 0
           [] OTHER -> FALSE
=============================================================================
