--------------------------- MODULE AroundProcImpl ----------------------------
(* The caller's descriptors while children come and go: what is open is what
   Look allows, and what is lost was handed over: C39.                        *)
EXTENDS ProcImpl, Look
ASpec == Spec
Mine(T) == {<<fd, T[fd].o, T[fd].m>> : fd \in DOMAIN T}
SeenP == [sig |-> << >>, mask |-> << >>, chg |-> << >>, loose |-> 0, cwd |-> 1, loc |-> 1, umask |-> 1, env |-> 1, tasks |-> 1, timer |-> 1, lim |-> 1,
          new |-> SeqOf(Mine(ptab) \ Mine(Std)), lost |-> SeqOf({x[1] : x \in Mine(Std) \ Mine(ptab)})]
Looks == LookOk(SeenP, FALSE, FALSE, Mine(Std), pt)
=============================================================================
