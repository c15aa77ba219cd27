------------------------------- MODULE TraceIO -------------------------------
(* Reading a recorded trace.  A trace specification makes step i take event
   Trace[i]; the trace is accepted iff some behaviour takes all of its events,
   i.e. the diameter of the state graph is Len(Trace) + 1.                     *)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reached == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
==============================================================================
