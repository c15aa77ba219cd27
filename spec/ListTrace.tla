------------------------------ MODULE ListTrace ------------------------------
EXTENDS List, ListTotal, TraceIO
VARIABLE i
TInit == HInit /\ TotInit /\ i = 1
TNext == i <= Len(Trace) /\ i' = i + 1 /\ Do(Trace[i]) /\ TotDo(Trace[i])
TSpec == TInit /\ [][TNext]_<<lst, nid, pos, cnt, unit, i>>
==============================================================================
