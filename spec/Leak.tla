-------------------------------- MODULE Leak ---------------------------------
(* The memory the library holds is a matter of what it holds for its user:
   C35.  Beside the state of the whole library this module keeps how many
   blocks were held at a given amount of contents; the same amount needs the
   same number again, and nothing needs none.                                 *)
EXTENDS Maa
VARIABLES peak,   \* <<most list elements (and one, when there was any list), most skip lists>> at a time, since the last shutdown: these are recycled
          dirt,   \* global facilities used since the last shutdown, whose memory is kept until then
          seen    \* amount of contents -> number of blocks held
lvars == <<peak, dirt, seen>>
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(S \ {x}, f)
Total(T, F(_)) == SumF(DOMAIN T, [t \in DOMAIN T |-> F(T[t])])
Card1(x) == Cardinality(DOMAIN x.map)
CardM(x) == Cardinality(DOMAIN x.m)
Cells(L) == Total(L, LAMBDA x : Len(x))
Amount == [hash  |-> <<Cardinality(DOMAIN htab), Total(htab, Card1)>>,
           set   |-> <<Cardinality(DOMAIN stab), Total(stab, Card1)>>,
           stack |-> <<Cardinality(DOMAIN stk), Cells(stk)>>,
           obj   |-> <<Cardinality(DOMAIN om), Total(om, LAMBDA x : x.total), Total(om, LAMBDA x : Cardinality(x.free))>>,
           list  |-> <<Cardinality(DOMAIN lst), Cells(lst), peak[1]>>,
           skip  |-> <<Cardinality(DOMAIN sl), Total(sl, CardM), peak[2]>>]
Nothing == [hash |-> <<0, 0>>, set |-> <<0, 0>>, stack |-> <<0, 0>>, obj |-> <<0, 0, 0>>, list |-> <<0, 0, 0>>, skip |-> <<0, 0, 0>>]
LInit == HInit /\ peak = <<0, 0>> /\ dirt = {} /\ seen = (Nothing :> 0)
\* objects whose contents only ever grow: nothing is said until they are destroyed
Growing == DOMAIN sm # {} \/ DOMAIN al # {} \/ DOMAIN pl # {99} \/ src.on
Measure(e) == /\ e.blocks >= 0 /\ e.bytes >= 0 /\ UNCHANGED <<hvars, peak, dirt>>
              /\ IF dirt # {} \/ Growing THEN UNCHANGED seen
                 ELSE IF Amount \in DOMAIN seen THEN e.blocks = seen[Amount] /\ (Amount = Nothing => e.bytes = 0) /\ UNCHANGED seen
                 ELSE seen' = (Amount :> e.blocks) @@ seen
\* an object is never destroyed: its name is used for another, or it outlives the shutdown
Lost(e) == CASE e.op = "hnew" -> e.t \in DOMAIN htab
             [] e.op = "snew" -> e.t \in DOMAIN stab
             [] e.op = "salg" -> e.o \in {"u", "i", "d"} /\ e.z \in DOMAIN stab
             [] e.op = "lnew" -> e.t \in DOMAIN lst
             [] e.op = "ynew" -> e.t \in DOMAIN sl
             [] e.op = "knew" -> e.t \in DOMAIN stk
             [] e.op = "onew" -> e.t \in DOMAIN om
             [] e.op = "mnew" -> e.t \in DOMAIN sm
             [] e.op = "pnew" -> e.t \in DOMAIN pl
             [] e.op = "anew" -> e.t \in DOMAIN al
             [] e.op = "mshut" -> lst # << >> \/ sl # << >>
             [] OTHER -> FALSE
\* the log keeps its names until the next time
Dirty(e) == CASE e.op = "reset" -> {}
              [] e.op = "mshut" -> dirt \ {"global"}
              [] e.op = "minit" -> dirt \cup {"global"}
              [] e.op \in {"try", "mem", "lscan"} -> dirt
              [] Part(e.op) = "pool" -> IF e.op = "puniq" \/ e.t = 99 THEN dirt \cup {"global"} ELSE dirt
              [] Part(e.op) \in {"source", "timer", "flags", "proc", "filter"} -> IF e.op \in {"tclk", "fall", "pbase", "fdel", "qdel", "qstat"} THEN dirt ELSE dirt \cup {"global"}
              [] Part(e.op) = "log" -> dirt \cup {"log"}
              [] OTHER -> dirt
LDo(e) == IF e.op = "mem" THEN Measure(e)
          ELSE /\ Do(e) /\ dirt' = Dirty(e) \cup (IF Lost(e) THEN {"lost"} ELSE {})
               /\ peak' = (IF e.op \in {"mshut", "reset"} THEN <<0, 0>> ELSE <<IF lst' = << >> THEN peak[1] ELSE Max(peak[1], Cells(lst') + 1), Max(peak[2], Cardinality(DOMAIN sl'))>>)
               /\ seen' = (IF e.op = "reset" THEN (Nothing :> 0) ELSE seen)
=============================================================================
