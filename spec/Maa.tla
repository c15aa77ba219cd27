--------------------------------- MODULE Maa ---------------------------------
(* The whole library: every part's specification side by side, and what
   initialisation and shutdown do to all of them (maa/maa.c): C30.            *)
EXTENDS Util
VARIABLES htab, hpos,            \* hash tables
          stab, spos,            \* sets
          lst, nid, lpos,        \* lists
          sl,                    \* skip lists
          stk,                   \* stacks
          om, oc, oid, sm,       \* object and string memory
          pl,                    \* string pools
          al,                    \* argument lists
          fl,                    \* debug and run-time flags
          pt, own, kid, flow,    \* children
          lg,                    \* log, program name
          src, conc,             \* source manager, concrete symbols
          clk, tm,               \* timers
          st,                    \* numbers
          up                     \* 1 between initialisation and shutdown
HA == INSTANCE Hash WITH tab <- htab, pos <- hpos
SE == INSTANCE Set WITH tab <- stab, pos <- spos
LI == INSTANCE List WITH pos <- lpos
SK == INSTANCE SkipList
ST == INSTANCE Stack
ME == INSTANCE Memory
PO == INSTANCE StrPool
AR == INSTANCE Arg
FA == INSTANCE Flags
PR == INSTANCE Proc
FI == INSTANCE Filter
LO == INSTANCE Log
SO == INSTANCE Source
TI == INSTANCE Timer
NU == INSTANCE Num
hash == <<htab, hpos>>
set == <<stab, spos>>
list == <<lst, nid, lpos>>
mem == <<om, oc, oid, sm>>
proc == <<pt, own, kid, flow>>
source == <<src, conc>>
timer == <<clk, tm>>
hvars == <<hash, set, list, sl, stk, mem, pl, al, fl, proc, lg, source, timer, st, up>>
HInit == /\ HA!HInit /\ SE!HInit /\ LI!HInit /\ SK!HInit /\ ST!HInit /\ ME!HInit /\ PO!HInit /\ AR!HInit /\ FA!HInit
         /\ PR!HInit /\ LO!HInit /\ SO!HInit /\ TI!HInit /\ NU!HInit /\ up = 0
\* whose operation is it?
LogOps == {"lmsg", "lnow", "lfile", "lstream", "lsys", "lclose", "lopt", "lfac", "lgetf", "lscan", "lstd", "lfork", "lbad", "linit", "eprog", "eerr"}
PoolOps == {"pfind", "pfindn", "pgrow", "pfin", "pcopy", "pcopyn", "pex", "puniq", "pit", "pchk", "pstat", "pnew", "pdel", "pro"}
NumOps == {"pis", "pnext", "prange", "sdx", "sdxall"}
Letter(o) == SubSeq(o, 1, 1)
Part(o) == CASE o \in LogOps -> "log"
             [] o \in PoolOps -> "pool"
             [] o \in NumOps -> "num"
             [] o \in {"preg", "pconc"} -> "source"
             [] o \in {"pflt", "psim"} -> "filter"
             [] o \in {"try", "reset", "minit", "mshut"} -> o
             [] Letter(o) = "h" -> "hash"
             [] Letter(o) = "s" -> "set"
             [] Letter(o) = "l" -> "list"
             [] Letter(o) = "y" -> "skip"
             [] Letter(o) = "k" -> "stack"
             [] Letter(o) \in {"m", "o"} -> "mem"
             [] Letter(o) = "a" -> "arg"
             [] Letter(o) = "f" -> "flags"
             [] Letter(o) = "p" -> "proc"
             [] Letter(o) = "q" -> "source"
             [] Letter(o) = "t" -> "timer"
             [] Letter(o) = "b" -> "num"
             [] OTHER -> "?"
Part1(e) == IF e.op = "try" THEN Part(e.cmd) ELSE Part(e.op)
Others(p) == /\ (p # "hash" => UNCHANGED hash) /\ (p # "set" => UNCHANGED set) /\ (p # "list" => UNCHANGED list)
             /\ (p # "skip" => UNCHANGED sl) /\ (p # "stack" => UNCHANGED stk) /\ (p # "mem" => UNCHANGED mem)
             /\ (p \notin {"pool", "source"} => UNCHANGED pl)
             \* names of files and symbols are interned in the global pool, too
             /\ (p = "source" => pl' = [pl EXCEPT ![PO!G].st.dn = 1000000, ![PO!G].st.db = 100000000]) /\ (p # "arg" => UNCHANGED al) /\ (p # "flags" => UNCHANGED fl)
             /\ (p \notin {"proc", "filter"} => UNCHANGED proc) /\ (p = "filter" => UNCHANGED <<own, kid, flow>>)
             /\ (p # "log" => UNCHANGED lg) /\ (p # "source" => UNCHANGED source) /\ (p # "timer" => UNCHANGED timer)
             /\ (p # "num" => UNCHANGED st)
Within(p, e) == CASE p = "hash" -> HA!Do(e) [] p = "set" -> SE!Do(e) [] p = "list" -> LI!Do(e) [] p = "skip" -> SK!Do(e)
                  [] p = "stack" -> ST!Do(e) [] p = "mem" -> ME!Do(e) [] p = "pool" -> PO!Do(e) [] p = "arg" -> AR!Do(e)
                  [] p = "flags" -> FA!Do(e) [] p = "proc" -> PR!Do(e) [] p = "filter" -> FI!Do(e) [] p = "log" -> LO!Do(e)
                  [] p = "source" -> SO!Do(e) [] p = "timer" -> TI!Do(e) [] p = "num" -> NU!Do(e) [] OTHER -> FALSE
Reset(e) == /\ HA!Do(e) /\ SE!Do(e) /\ LI!Do(e) /\ SK!Do(e) /\ ST!Do(e) /\ ME!Do(e) /\ PO!Do(e) /\ AR!Do(e) /\ FA!Do(e)
            /\ PR!Do(e) /\ LO!Do(e) /\ SO!Do(e) /\ TI!Do(e) /\ NU!Do(e) /\ up' = 0

(* ---- initialisation and shutdown ---- *)
BuiltIn == (".memory" :> <<3, 29>>) @@ (".time" :> <<3, 28>>) @@ (".pr" :> <<3, 27>>) @@ (".sl" :> <<3, 26>>) @@ (".parse" :> <<3, 25>>) @@ (".src" :> <<3, 24>>)
\* everything as it is before the first use, except for what outlives a shutdown: logs and the program name
Start(e) ==
  /\ up = 0 /\ up' = 1
  /\ tm' = ("total" :> [mark |-> clk, val |-> IF TI!Has("total") THEN tm["total"].val ELSE <<0, 0, 0>>]) @@ tm
  /\ fl' = [fl EXCEPT !["d"].reg = BuiltIn @@ @]
  /\ e.r = LO!Base(e.name, Len(e.name))
  /\ lg' = [lg EXCEPT !.prog = LO!Some(LO!Base(e.name, Len(e.name)))]
  /\ UNCHANGED <<hash, set, list, sl, stk, mem, pl, al, proc, source, clk, st>>
DbgOn(n) == BuiltIn[n] \in fl["d"].on
Stopped == [tm EXCEPT !["total"].val = TI!Elapsed(@.mark)]
TimerLine(l) == /\ l[1] \in DOMAIN tm
                /\ LET v == IF l[1] = "total" THEN TI!Elapsed(tm["total"].mark) ELSE tm[l[1]].val IN
                   TI!Near(l[2], v[1]) /\ TI!Near(l[3], v[2]) /\ TI!Near(l[4], v[3])
Stop(e) ==
  /\ up = 1 /\ up' = 0
  \* what was asked for is shown
  /\ e.ver = (IF DbgOn(".memory") \/ DbgOn(".time") THEN 1 ELSE 0)
  /\ e.stats = (IF DbgOn(".memory") THEN 1 ELSE 0)
  /\ IF DbgOn(".time") THEN {e.l[j][1] : j \in 1..Len(e.l)} = DOMAIN tm /\ Len(e.l) = Cardinality(DOMAIN tm) /\ Ok(\A j \in 1..Len(e.l) : TimerLine(e.l[j]))
     ELSE e.l = << >>
  \* every global facility is empty
  /\ pl' = [pl EXCEPT ![PO!G] = PO!None]
  /\ fl' = [k \in {"d", "f"} |-> FA!None]
  /\ tm' = << >> /\ conc' = << >>
  /\ lst' = << >> /\ lpos' = << >> /\ sl' = << >>                  \* their storage is gone
  /\ IF e.proc = 1 THEN PR!Shutdown(e) ELSE UNCHANGED proc
  /\ ~src.on
  /\ UNCHANGED <<hash, set, nid, stk, mem, al, lg, src, clk, st>>
\* the version as a text and as numbers
Version(e) == e.s = "Libmaa " \o ToString(e.major) \o "." \o ToString(e.minor) \o "." \o ToString(e.teeny) /\ UNCHANGED hvars
Do(e) == CASE e.op = "minit" -> Start(e)
           [] e.op = "mshut" -> Stop(e)
           [] e.op = "mver"  -> Version(e)
           [] e.op = "reset" -> Reset(e)
           [] OTHER -> Within(Part1(e), e) /\ Others(Part1(e)) /\ UNCHANGED up
=============================================================================
