------------------------------ MODULE ListImpl ------------------------------
(* How maa/list.c does it: cells from one object memory shared by all lists
   (freed cells are reused last-in first-out), head and tail pointers, a
   separate count.  In lock step with the abstract lists.                     *)
EXTENDS List, Json
CONSTANTS Lists, Slots, Data0, NCell, Ops
VARIABLES heap,  \* cell -> [d, next]; 0 is the null pointer
          free,  \* stack of freed cells
          cl,    \* list -> [head, tail, n]
          cp,    \* slot -> cell
          lab, bad
vars == <<hvars, heap, free, cl, cp, lab, bad>>

Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)

Fresh == IF free # << >> THEN Head(free) ELSE Cardinality(DOMAIN heap) + 1
CanGet == free # << >> \/ Cardinality(DOMAIN heap) < NCell
Rest == IF free # << >> THEN Tail(free) ELSE free

RECURSIVE Chain(_), NthCell(_, _)
Chain(c) == IF c = 0 THEN << >> ELSE <<c>> \o Chain(heap[c].next)
NthCell(c, n) == IF n = 1 THEN c ELSE NthCell(heap[c].next, n - 1)
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]

Keep == UNCHANGED <<heap, free, cl, cp>>

CNew(t)  == /\ t \notin DOMAIN cl /\ cl' = (t :> [head |-> 0, tail |-> 0, n |-> 0]) @@ cl
            /\ UNCHANGED <<heap, free, cp>> /\ L([op |-> "lnew", t |-> t], "lnew" \o T2(t))
CDel(t)  == /\ cl' = Without(cl, t) /\ free' = Rev(Chain(cl[t].head)) \o free
            /\ UNCHANGED <<heap, cp>> /\ L([op |-> "ldel", t |-> t], "ldel" \o T2(t))
CApp(t, d) ==
  /\ CanGet
  /\ LET c == Fresh
         h1 == (c :> [d |-> d, next |-> 0]) @@ heap
     IN /\ heap' = IF cl[t].tail # 0 THEN [h1 EXCEPT ![cl[t].tail].next = c] ELSE h1
        /\ cl' = [cl EXCEPT ![t] = [head |-> IF @.head = 0 THEN c ELSE @.head, tail |-> c, n |-> @.n + 1]]
  /\ free' = Rest /\ UNCHANGED cp
  /\ L([op |-> "lapp", t |-> t, d |-> d], "lapp" \o T2(t) \o T2(d))
CPush(t, d) ==
  /\ CanGet
  /\ LET c == Fresh
     IN /\ heap' = (c :> [d |-> d, next |-> cl[t].head]) @@ heap
        /\ cl' = [cl EXCEPT ![t] = [head |-> c, tail |-> IF @.tail = 0 THEN c ELSE @.tail, n |-> @.n + 1]]
  /\ free' = Rest /\ UNCHANGED cp
  /\ L([op |-> "lpush", t |-> t, d |-> d], "lpush" \o T2(t) \o T2(d))
CPop(t) ==
  LET h == cl[t].head IN
  IF h = 0 THEN Keep /\ L([op |-> "lpop", t |-> t, r |-> 0], "lpop" \o T2(t))
  ELSE /\ cl' = [cl EXCEPT ![t] = [head |-> heap[h].next, tail |-> IF heap[h].next = 0 THEN 0 ELSE @.tail, n |-> @.n - 1]]
       /\ free' = <<h>> \o free /\ UNCHANGED <<heap, cp>>
       /\ L([op |-> "lpop", t |-> t, r |-> heap[h].d], "lpop" \o T2(t))
CTop(t) == Keep /\ L([op |-> "ltop", t |-> t, r |-> IF cl[t].head = 0 THEN 0 ELSE heap[cl[t].head].d], "ltop" \o T2(t))
CGet(t, n) == Keep /\ L([op |-> "lget", t |-> t, n |-> n,
                         r |-> IF n < 1 \/ n > cl[t].n THEN 0 ELSE heap[NthCell(cl[t].head, n)].d], "lget" \o T2(t) \o T2(n))
CSet(t, n, d) ==
  IF n < 1 \/ n > cl[t].n
  THEN Keep /\ L([op |-> "try", cmd |-> "lset", a |-> <<t, n, d>>, end |-> "exit1"], "!lset" \o T2(t) \o T2(n) \o T2(d))
  ELSE /\ heap' = [heap EXCEPT ![NthCell(cl[t].head, n)].d = d] /\ UNCHANGED <<free, cl, cp>>
       /\ L([op |-> "lset", t |-> t, n |-> n, d |-> d], "lset" \o T2(t) \o T2(n) \o T2(d))
CMem(t, d) == Keep /\ L([op |-> "lmem", t |-> t, d |-> d,
                         r |-> B(\E c \in Rng(Chain(cl[t].head)) : heap[c].d = d)], "lmem" \o T2(t) \o T2(d))
CLen(t) == Keep /\ L([op |-> "llen", t |-> t, r |-> cl[t].n], "llen" \o T2(t))
CIter(t, stop) ==
  LET s == [j \in 1..Len(Chain(cl[t].head)) |-> heap[Chain(cl[t].head)[j]].d]
      ends == stop > 0 /\ stop <= Len(s)
  IN Keep /\ L([op |-> "liter", t |-> t, stop |-> stop, r |-> B(ends), v |-> IF ends THEN Take(s, stop) ELSE s],
               "liter" \o T2(t) \o T2(stop % 2) \o T2(stop))
\* cut after cell c (0: everything)
Cut(t, c) ==
  LET rest == Chain(IF c = 0 THEN cl[t].head ELSE heap[c].next) IN
  /\ heap' = IF c = 0 THEN heap ELSE [heap EXCEPT ![c].next = 0]
  /\ cl' = [cl EXCEPT ![t] = [head |-> IF c = 0 THEN 0 ELSE @.head, tail |-> c, n |-> @.n - Len(rest)]]
  /\ free' = Rev(rest) \o free /\ UNCHANGED cp
CTrunc(t, n) ==
  /\ IF n >= cl[t].n THEN Keep ELSE Cut(t, IF n = 0 THEN 0 ELSE NthCell(cl[t].head, n))
  /\ L([op |-> "ltrunc", t |-> t, n |-> n], "ltrunc" \o T2(t) \o T2(n))
CTruncPos(t, p) ==
  /\ p < 0 \/ (Usable(p) /\ (pos[p] = 0 \/ t \in Holder(pos[p])))
  /\ Cut(t, IF p < 0 THEN 0 ELSE cp[p])
  /\ L([op |-> "ltp", t |-> t, p |-> p], "ltp" \o T2(t) \o T2(p))
Ptr(e, q, c, s) == /\ cp' = (q :> c) @@ cp /\ UNCHANGED <<heap, free, cl>>
                   /\ L([ok |-> B(c # 0), d |-> IF c = 0 THEN 0 ELSE heap[c].d] @@ e, s)
CFirst(t, p) == Ptr([op |-> "lpi", t |-> t, p |-> p, n |-> 0], p, cl[t].head, "lpi" \o T2(t) \o T2(p))
CLast(t, p)  == Ptr([op |-> "lpl", t |-> t, p |-> p, n |-> 0], p, cl[t].tail, "lpl" \o T2(t) \o T2(p))
CNth(t, p, n) == Ptr([op |-> "lpt", t |-> t, p |-> p, n |-> n], p, IF n < 1 \/ n > cl[t].n THEN 0 ELSE NthCell(cl[t].head, n),
                     "lpt" \o T2(t) \o T2(p) \o T2(n))
CSucc(p, q) == Usable(p) /\ Ptr([op |-> "lpn", p |-> p, q |-> q], q, IF cp[p] = 0 THEN 0 ELSE heap[cp[p]].next, "lpn" \o T2(p) \o T2(q))
CRead(p) == Usable(p) /\ Keep /\ L([op |-> "lpg", p |-> p, r |-> IF cp[p] = 0 THEN 0 ELSE heap[cp[p]].d], "lpg" \o T2(p))
CWrite(p, d) == /\ Usable(p) /\ heap' = (IF cp[p] = 0 THEN heap ELSE [heap EXCEPT ![cp[p]].d = d]) /\ UNCHANGED <<free, cl, cp>>
                /\ L([op |-> "lps", p |-> p, d |-> d], "lps" \o T2(p) \o T2(d))

Init == HInit /\ heap = << >> /\ free = << >> /\ cl = << >> /\ cp = << >> /\ lab = "" /\ bad = FALSE
Next == \/ \E t \in Lists : CNew(t)
        \/ \E t \in DOMAIN cl :
             \/ "del" \in Ops /\ CDel(t)
             \/ \E d \in Data0 : CApp(t, d) \/ CPush(t, d)
             \/ CPop(t)
             \/ "read" \in Ops /\ (CTop(t) \/ CLen(t) \/ (\E n \in 0..3 : CGet(t, n)) \/ (\E d \in Data0 \cup {0} : CMem(t, d))
                                   \/ (\E s \in 0..2 : CIter(t, s)))
             \/ "set" \in Ops /\ \E n \in 0..3, d \in Data0 : CSet(t, n, d)
             \/ "trunc" \in Ops /\ \E n \in 0..2 : CTrunc(t, n)
             \/ "pos" \in Ops /\ (CTruncPos(t, -1) \/ \E p \in Slots : CTruncPos(t, p) \/ CFirst(t, p) \/ CLast(t, p) \/ CNth(t, p, 2))
        \/ "pos" \in Ops /\ \E p, q \in Slots : CSucc(p, q)
        \/ "pos" \in Ops /\ \E p \in Slots : CRead(p) \/ \E d \in Data0 : CWrite(p, d)
Spec == Init /\ [][Next]_vars

\* freed cells' contents and void positions do not matter
Used == UNION {Rng(Chain(cl[t].head)) : t \in DOMAIN cl}
View == <<bad, [c \in Used |-> heap[c]], free, cl, [p \in DOMAIN cp |-> IF Usable(p) THEN cp[p] ELSE -1]>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))

Good == ~bad
Shape == /\ \A t \in DOMAIN cl : LET s == Chain(cl[t].head) IN
              /\ cl[t].n = Len(s)
              /\ cl[t].tail = IF s = << >> THEN 0 ELSE s[Len(s)]
         /\ \A t, u \in DOMAIN cl : t # u => Rng(Chain(cl[t].head)) \cap Rng(Chain(cl[u].head)) = {}
         /\ Used \cap Rng(free) = {} /\ Distinct(free)
         /\ Used \cup Rng(free) = DOMAIN heap          \* no cell is lost
=============================================================================
