----------------------------- MODULE AroundTrace -----------------------------
EXTENDS Around, TraceIO
VARIABLE i
TInit == XInit /\ i = 1
TNext == i <= Len(Trace) /\ i' = i + 1 /\ XDo(Trace[i])
TSpec == TInit /\ [][TNext]_<<hvars, base, i>>
==============================================================================
