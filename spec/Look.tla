-------------------------------- MODULE Look ---------------------------------
(* What the library may change of its caller's process: C39.  An xlook event
   compares the process with what it was when the caller had set itself up:
   only descriptors may differ, by those of the open log, of the caller's own
   stream, and of the children's pipes.                                       *)
EXTENDS Util
\* log: is a log file open; str: a stream of the caller's that was opened since; T0, T: the caller's descriptors then and now
Unchanged(e) == /\ e.sig = << >> /\ e.mask = << >> /\ e.chg = << >> /\ e.loose = 0
                /\ e.cwd = 1 /\ e.loc = 1 /\ e.umask = 1 /\ e.env = 1 /\ e.tasks = 1 /\ e.timer = 1 /\ e.lim = 1
LookOk(e, log, str, T0, T) ==
  /\ Unchanged(e)
  /\ Len(e.new) = (IF log THEN 1 ELSE 0) + (IF str THEN 1 ELSE 0) + Cardinality(T \ T0)
  /\ T \ T0 \subseteq Rng(e.new)
  /\ Rng(e.lost) = {x[1] : x \in T0 \ T}
=============================================================================
