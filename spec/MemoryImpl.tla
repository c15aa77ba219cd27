----------------------------- MODULE MemoryImpl -----------------------------
(* How maa/memory.c does it: object managers keep a stack of all blocks and a
   stack of freed ones; string managers keep a stack of blocks whose top is
   the growing string while growing_size is non-zero.                         *)
EXTENDS Memory, Json
CONSTANTS Objs, Strs, NObj, NStr, Fills, TextIx, MaxLen, MaxReuse
AllTexts == << << >>, <<<<97, 1>>>>, <<<<98, 2>>, <<97, 1>>>>, <<<<0, 1>>>>, <<<<97, 1>>, <<0, 2>>>> >>
Texts == {AllTexts[j] : j \in TextIx}
VARIABLES co,    \* object manager -> [alloc, fstack: sequences of addresses, total, used, reused]
          mem,   \* address -> content of the block (initially garbage: -1)
          next,  \* next fresh address
          cs,    \* string manager -> [alloc: blocks, top first, g: growing size, count, bytes]
          lab, bad
vars == <<hvars, co, mem, next, cs, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
RECURSIVE RleS(_)
RleS(s) == IF s = << >> THEN "-" ELSE ToString(s[1][1]) \o "x" \o ToString(s[1][2]) \o (IF Len(s) > 1 THEN "," \o RleS(Tail(s)) ELSE "")

InUse(t) == SelectSeq([j \in 1..Len(co[t].alloc) |-> co[t].alloc[Len(co[t].alloc) + 1 - j]], LAMBDA x : x \notin Rng(co[t].fstack))
CONew(t) == /\ t \notin DOMAIN co
            /\ co' = (t :> [alloc |-> << >>, fstack |-> << >>, total |-> 0, used |-> 0, reused |-> 0]) @@ co
            /\ UNCHANGED <<mem, next, cs>> /\ L([op |-> "onew", t |-> t, size |-> 8], "onew" \o T2(t) \o " 8")
CODel(t) == co' = Without(co, t) /\ UNCHANGED <<mem, next, cs>> /\ L([op |-> "odel", t |-> t], "odel" \o T2(t))
COGet(t, z) ==
  LET re == co[t].fstack # << >>
      id == IF re THEN Head(co[t].fstack) ELSE next
  IN /\ IF re THEN co[t].reused < MaxReuse ELSE next <= NObj
     /\ co' = [co EXCEPT ![t].fstack = IF re THEN Tail(@) ELSE @,
                         ![t].alloc = IF re THEN @ ELSE <<id>> \o @,
                         ![t].total = IF re THEN @ ELSE @ + 1,
                         ![t].reused = IF re THEN @ + 1 ELSE @,
                         ![t].used = @ + 1]
     /\ next' = IF re THEN next ELSE next + 1
     /\ mem' = IF z = 1 THEN (id :> 0) @@ mem ELSE IF re THEN mem ELSE (id :> -1) @@ mem
     /\ UNCHANGED cs
     /\ L([op |-> "oget", t |-> t, z |-> z, id |-> id, over |-> 0, val |-> IF z = 1 THEN 0 ELSE -1], "oget" \o T2(t) \o T2(z))
COFree(t, n) == LET id == InUse(t)[n] IN
  /\ co' = [co EXCEPT ![t].fstack = <<id>> \o @, ![t].used = @ - 1] /\ UNCHANGED <<mem, next, cs>>
  /\ L([op |-> "ofree", t |-> t, id |-> id], "ofree" \o T2(t) \o T2(n - 1))
COFill(t, n, v) == LET id == InUse(t)[n] IN
  /\ mem' = [mem EXCEPT ![id] = v] /\ UNCHANGED <<co, next, cs>>
  /\ L([op |-> "ofill", t |-> t, id |-> id, v |-> v], "ofill" \o T2(t) \o T2(n - 1) \o T2(v))
COChk(t) == /\ UNCHANGED <<co, mem, next, cs>>
            /\ L([op |-> "ochk", t |-> t, ids |-> InUse(t), val |-> [j \in 1..Len(InUse(t)) |-> mem[InUse(t)[j]]]], "ochk" \o T2(t))
COStat(t) == /\ UNCHANGED <<co, mem, next, cs>>
             /\ L([op |-> "ostat", t |-> t, total |-> co[t].total, used |-> co[t].used, reused |-> co[t].reused, size |-> 8,
                   p |-> <<co[t].total, co[t].used, co[t].reused>>], "ostat" \o T2(t))

KeepO == UNCHANGED <<co, mem>>
CMNew(t) == /\ t \notin DOMAIN cs /\ cs' = (t :> [alloc |-> << >>, g |-> 0, count |-> 0, bytes |-> 0]) @@ cs
            /\ UNCHANGED next /\ KeepO /\ L([op |-> "mnew", t |-> t], "mnew" \o T2(t))
CMDel(t) == cs' = Without(cs, t) /\ UNCHANGED next /\ KeepO /\ L([op |-> "mdel", t |-> t], "mdel" \o T2(t))
CMPut(t, n, s) ==
  /\ Len(cs[t].alloc) < NStr /\ cs[t].g = 0
  /\ (n = 0 => Ok(\A j \in 1..Len(s) : s[j][1] # 0))
  /\ cs' = [cs EXCEPT ![t].alloc = <<[id |-> next, s |-> Cat(s, NUL)]>> \o @, ![t].g = 0, ![t].count = @ + 1, ![t].bytes = @ + RLen(s) + 1]
  /\ next' = next + 1 /\ KeepO
  /\ L([op |-> "mput", t |-> t, n |-> n, in |-> s, id |-> next, out |-> Cat(s, NUL)], "mput" \o T2(t) \o T2(n) \o " " \o RleS(s))
\* the block on top is popped, enlarged (it may move) and pushed again
Grown(t, s) == IF cs[t].g # 0 THEN [id |-> next, s |-> Cat(Head(cs[t].alloc).s, s)] ELSE [id |-> next, s |-> s]
RestA(t) == IF cs[t].g # 0 THEN Tail(cs[t].alloc) ELSE cs[t].alloc
CMGrow(t, s) ==
  /\ Len(cs[t].alloc) < NStr \/ cs[t].g # 0
  /\ cs[t].g + RLen(s) <= MaxLen
  /\ cs' = [cs EXCEPT ![t].alloc = <<Grown(t, s)>> \o RestA(t), ![t].g = @ + RLen(s), ![t].bytes = @ + RLen(s)]
  /\ next' = next + 1 /\ KeepO
  /\ L([op |-> "mgrow", t |-> t, in |-> s], "mgrow" \o T2(t) \o " " \o RleS(s))
CMFin(t) ==
  /\ Len(cs[t].alloc) < NStr \/ cs[t].g # 0
  /\ cs' = [cs EXCEPT ![t].alloc = <<Grown(t, NUL)>> \o RestA(t), ![t].g = 0, ![t].count = @ + 1, ![t].bytes = @ + 1]
  /\ next' = next + 1 /\ KeepO
  /\ L([op |-> "mfin", t |-> t, id |-> next, out |-> Grown(t, NUL).s], "mfin" \o T2(t))
\* what is stored and finished: the strings, not the empty blocks of mem_grow(..., 0)
Stored(t) == LET a == IF cs[t].g # 0 THEN Tail(cs[t].alloc) ELSE cs[t].alloc IN SelectSeq(a, LAMBDA b : b.s # << >>)
CMChk(t) == /\ UNCHANGED <<cs, next>> /\ KeepO
            /\ L([op |-> "mchk", t |-> t, ids |-> [j \in 1..Len(Stored(t)) |-> Stored(t)[j].id],
                  val |-> [j \in 1..Len(Stored(t)) |-> Stored(t)[j].s]], "mchk" \o T2(t))
CMStat(t) == /\ cs[t].g = 0 /\ UNCHANGED <<cs, next>> /\ KeepO
             /\ L([op |-> "mstat", t |-> t, count |-> cs[t].count, bytes |-> cs[t].bytes, p |-> <<cs[t].count, cs[t].bytes>>], "mstat" \o T2(t))

Init == HInit /\ co = << >> /\ mem = << >> /\ next = 1 /\ cs = << >> /\ lab = "" /\ bad = FALSE
Next == \/ \E t \in Objs : CONew(t)
        \/ \E t \in DOMAIN co : \/ CODel(t) \/ COChk(t) \/ COStat(t)
                                \/ \E z \in {0, 1} : COGet(t, z)
                                \/ \E n \in 1..Len(InUse(t)) : COFree(t, n) \/ \E v \in Fills : COFill(t, n, v)
        \/ \E t \in Strs : CMNew(t)
        \/ \E t \in DOMAIN cs : \/ CMDel(t) \/ CMFin(t) \/ CMChk(t) \/ CMStat(t)
                                \/ \E s \in Texts : CMGrow(t, s) \/ \E n \in {0, 1} : CMPut(t, n, s)
Spec == Init /\ [][Next]_vars
\* addresses of strings do not matter for the state graph
Blocks(t) == [j \in 1..Len(cs[t].alloc) |-> cs[t].alloc[j].s]
View == <<bad, co, mem, IF Objs = {} THEN 0 ELSE next, [t \in DOMAIN cs |-> <<Blocks(t), cs[t].g, cs[t].count, cs[t].bytes>>]>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == /\ \A t \in DOMAIN co : /\ Distinct(co[t].alloc) /\ Distinct(co[t].fstack) /\ Rng(co[t].fstack) \subseteq Rng(co[t].alloc)
                                 /\ co[t].used + Len(co[t].fstack) = co[t].total /\ co[t].total = Len(co[t].alloc)
         /\ \A t, u \in DOMAIN co : t # u => Rng(co[t].alloc) \cap Rng(co[u].alloc) = {}
=============================================================================
