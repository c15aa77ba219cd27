------------------------------- MODULE Around --------------------------------
(* The whole library, and the process it lives in: C39.                       *)
EXTENDS Maa, Look
VARIABLES base      \* the caller's descriptors when it had set itself up
XInit == HInit /\ base = {}
HasLog == LO!Is(lg.file)
HasStream == LO!Is(lg.stream) /\ LO!The(lg.stream).std = 0
XDo(e) == CASE e.op = "xbase" -> base' = pt /\ UNCHANGED hvars
            [] e.op = "xlook" -> LookOk(e, HasLog, HasStream, base, pt) /\ UNCHANGED <<hvars, base>>
            [] e.op = "xflt" -> e.sur = 1 /\ UNCHANGED <<hvars, base>>
            [] e.op = "reset" -> Do(e) /\ base' = {}
            \* what a child begins with is what the caller has
            [] e.op \in {"popen", "pspawnt"} -> e.sur = 1 /\ Do(e) /\ UNCHANGED base
            [] OTHER -> Do(e) /\ UNCHANGED base
=============================================================================
