------------------------------ MODULE CostTrace ------------------------------
EXTENDS Cost, TraceIO
VARIABLE i
TInit == HInit /\ i = 1
TNext == i <= Len(Trace) /\ i' = i + 1 /\ Do(Trace[i])
TSpec == TInit /\ [][TNext]_<<hvars, i>>
==============================================================================
