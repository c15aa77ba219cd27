------------------------------ MODULE LeakTrace ------------------------------
EXTENDS Leak, TraceIO
VARIABLE i
TInit == LInit /\ i = 1
TNext == i <= Len(Trace) /\ i' = i + 1 /\ LDo(Trace[i])
TSpec == TInit /\ [][TNext]_<<hvars, lvars, i>>
==============================================================================
