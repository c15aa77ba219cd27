------------------------------- MODULE LeakImpl ------------------------------
(* How the library allocates: which operation takes and frees how many blocks
   (hash.c, set.c, stack.c, memory.c, list.c, sl.c).  The invariant Formula
   is the reason why what is held is a function of the contents, so that
   nothing is lost on any path.                                               *)
EXTENDS Leak, Json
CONSTANTS Ops, Keys, N
VARIABLES held,     \* blocks held
          cmem, ymem, \* lists' and skip lists' object memory: [total, free] or "nil"
          lab, bad
vars == <<hvars, lvars, held, cmem, ymem, lab, bad>>
Judge(e) == IF ENABLED LDo(e) THEN LDo(e) /\ bad' = FALSE ELSE UNCHANGED <<hvars, lvars>> /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
Take1(n) == held' = held + n
KeepB == UNCHANGED <<cmem, ymem>>
None0 == [on |-> FALSE, total |-> 0, free |-> 0]
\* object memory: information and two stacks; an object from the stack of freed ones or a new one, which is noted on a stack
Blocks(m) == IF m.on THEN 3 + 2 * m.total + m.free ELSE 0
Got(m) == IF m.free > 0 THEN [m EXCEPT !.free = @ - 1] ELSE [m EXCEPT !.total = @ + 1]
Freed(m, n) == [m EXCEPT !.free = @ + n]
Made(m) == IF m.on THEN m ELSE [m EXCEPT !.on = TRUE]
\* ---- hash tables and sets: header, buckets, one block per entry; growth replaces the array by another ----
HashOps(new, del, ins, rem, tabs, cls(_)) ==
  \/ /\ 0 \notin DOMAIN tabs /\ Take1(2) /\ KeepB
     /\ L([op |-> new, t |-> 0, kind |-> 1], new \o " 0 1")
  \/ /\ 0 \in DOMAIN tabs
     /\ \/ Take1(-2 - Cardinality(DOMAIN tabs[0].map)) /\ KeepB /\ L([op |-> del, t |-> 0], del \o " 0")
        \/ \E k \in Keys : LET in == cls(k) \in DOMAIN tabs[0].map IN
             \/ /\ Take1(IF in THEN 0 ELSE 1) /\ KeepB
                /\ IF ins = "hins" THEN L([op |-> ins, t |-> 0, k |-> k, d |-> 1, r |-> IF in THEN 1 ELSE 0], ins \o " 0" \o T2(k) \o " 1")
                   ELSE L([op |-> ins, t |-> 0, k |-> k, r |-> IF in THEN 1 ELSE 0], ins \o " 0" \o T2(k))
             \/ /\ Take1(IF in THEN -1 ELSE 0) /\ KeepB
                /\ L([op |-> rem, t |-> 0, k |-> k, r |-> IF in THEN 0 ELSE 1], rem \o " 0" \o T2(k))
\* ---- stacks ----
StackOps ==
  \/ 0 \notin DOMAIN stk /\ Take1(1) /\ KeepB /\ L([op |-> "knew", t |-> 0], "knew 0")
  \/ /\ 0 \in DOMAIN stk /\ KeepB
     /\ \/ Len(stk[0]) < N /\ Take1(1) /\ L([op |-> "kpush", t |-> 0, d |-> 1], "kpush 0 1")
        \/ Take1(IF stk[0] = << >> THEN 0 ELSE -1) /\ L([op |-> "kpop", t |-> 0, r |-> IF stk[0] = << >> THEN 0 ELSE 1], "kpop 0")
        \/ Take1(-1 - Len(stk[0])) /\ L([op |-> "kdel", t |-> 0], "kdel 0")
\* ---- lists: one object memory for all ----
ListOps ==
  \/ \E t \in {0, 1} : \/ /\ t \notin DOMAIN lst /\ cmem' = Made(cmem) /\ Take1(1 + Blocks(Made(cmem)) - Blocks(cmem)) /\ UNCHANGED ymem
                          /\ L([op |-> "lnew", t |-> t], "lnew" \o T2(t))
                       \/ /\ t \in DOMAIN lst
                          /\ \/ /\ Cells(lst) < N /\ cmem' = Got(cmem) /\ Take1(Blocks(Got(cmem)) - Blocks(cmem)) /\ UNCHANGED ymem
                                /\ \/ L([op |-> "lapp", t |-> t, d |-> 1], "lapp" \o T2(t) \o " 1")
                                   \/ L([op |-> "lpush", t |-> t, d |-> 1], "lpush" \o T2(t) \o " 1")
                             \/ LET n == IF lst[t] = << >> THEN 0 ELSE 1 IN
                                /\ cmem' = Freed(cmem, n) /\ Take1(n) /\ UNCHANGED ymem
                                /\ L([op |-> "lpop", t |-> t, r |-> n], "lpop" \o T2(t))
                             \/ \E m \in 0..N : LET n == IF m >= Len(lst[t]) THEN 0 ELSE Len(lst[t]) - m IN
                                /\ cmem' = Freed(cmem, n) /\ Take1(n) /\ UNCHANGED ymem
                                /\ L([op |-> "ltrunc", t |-> t, n |-> m], "ltrunc" \o T2(t) \o T2(m))
                             \/ /\ cmem' = Freed(cmem, Len(lst[t])) /\ Take1(Len(lst[t]) - 1) /\ UNCHANGED ymem
                                /\ L([op |-> "ldel", t |-> t], "ldel" \o T2(t))
\* ---- skip lists: headers from an object memory, a head and one block per entry ----
SkipOps ==
  \E t \in {0, 1} :
    \/ /\ t \notin DOMAIN sl /\ ymem' = Got(Made(ymem)) /\ Take1(1 + Blocks(Got(Made(ymem))) - Blocks(ymem)) /\ UNCHANGED cmem
       /\ L([op |-> "ynew", t |-> t, kind |-> 0], "ynew" \o T2(t) \o " 0")
    \/ /\ t \in DOMAIN sl
       /\ \/ \E k \in Keys : /\ KeepB
             /\ IF k \div 2 \in DOMAIN sl[t].m THEN Take1(-1) /\ L([op |-> "yrem", t |-> t, k |-> k], "yrem" \o T2(t) \o T2(k))
                ELSE Take1(1) /\ L([op |-> "yins", t |-> t, k |-> k, l |-> -1], "yins" \o T2(t) \o T2(k) \o " -1")
          \/ /\ ymem' = Freed(ymem, 1) /\ Take1(-1 - Cardinality(DOMAIN sl[t].m) + 1) /\ UNCHANGED cmem
             /\ L([op |-> "ydel", t |-> t], "ydel" \o T2(t))
\* ---- initialisation and shutdown: what was global is given back ----
Whole == \/ up = 0 /\ held' = held /\ KeepB /\ L([op |-> "minit", name |-> Txt("p"), r |-> Txt("p")], "minit 70")
         \/ /\ up = 1 /\ lst = << >> /\ sl = << >>
            /\ held' = held - Blocks(cmem) - Blocks(ymem) /\ cmem' = None0 /\ ymem' = None0
            /\ L([op |-> "mshut", proc |-> 0, kills |-> << >>, ver |-> 0, stats |-> 0, l |-> << >>], "mshut")
CMem == UNCHANGED held /\ KeepB /\ L([op |-> "mem", blocks |-> held, bytes |-> 8 * held], "mem")
Init == LInit /\ held = 0 /\ cmem = None0 /\ ymem = None0 /\ lab = "" /\ bad = FALSE
Next == \/ "hash" \in Ops /\ HashOps("hnew", "hdel", "hins", "hrem", htab, LAMBDA k : k \div 2)
        \/ "set" \in Ops /\ HashOps("snew", "sdel", "sins", "srem", stab, LAMBDA k : k \div 2)
        \/ "stack" \in Ops /\ StackOps
        \/ "list" \in Ops /\ ListOps
        \/ "skip" \in Ops /\ SkipOps
        \/ "whole" \in Ops /\ Whole
        \/ CMem
Spec == Init /\ [][Next]_vars
Maps(T) == {<<t, DOMAIN T[t].map>> : t \in DOMAIN T}
View == <<bad, held, cmem, ymem, Maps(htab), Maps(stab), {<<t, Len(stk[t])>> : t \in DOMAIN stk}, {<<t, Len(lst[t])>> : t \in DOMAIN lst},
          {<<t, DOMAIN sl[t].m>> : t \in DOMAIN sl}, up, dirt, peak>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Formula == /\ held = 2 * Cardinality(DOMAIN htab) + Total(htab, Card1) + 2 * Cardinality(DOMAIN stab) + Total(stab, Card1)
                     + Cardinality(DOMAIN stk) + Cells(stk) + Cardinality(DOMAIN lst) + Blocks(cmem)
                     + Cardinality(DOMAIN sl) + Total(sl, CardM) + Blocks(ymem)
           /\ cmem.total - cmem.free = Cells(lst) /\ ymem.total - ymem.free = Cardinality(DOMAIN sl)
           /\ peak[1] = (IF cmem.on THEN cmem.total + 1 ELSE 0) /\ peak[2] = ymem.total
=============================================================================
