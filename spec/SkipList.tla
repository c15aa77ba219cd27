------------------------------ MODULE SkipList ------------------------------
(* Skip lists (maa/sl.c): properties C10, C11.  A list is a map from key
   classes to the datum (object) holding that key; kind 1 orders descending.  *)
EXTENDS Util

VARIABLE sl      \* list -> [kind, m]
hvars == sl
HInit == sl = << >>

Cls(k) == k \div 2
Live(t) == t \in DOMAIN sl
Less(T, a, b) == IF T.kind = 1 THEN a > b ELSE a < b
Keys0(T) == DOMAIN T.m
\* ascending enumeration of the data
IsAscending(T, s) == \A j \in 1..(Len(s) - 1) : Less(T, Cls(s[j]), Cls(s[j + 1]))

CanIns(T, k) == Cls(k) \notin Keys0(T)
Ins(T, k) == [T EXCEPT !.m = (Cls(k) :> k) @@ @]
CanDel(T, k) == Cls(k) \in Keys0(T)
Del(T, k) == [T EXCEPT !.m = Without(@, Cls(k))]

New(e)  == sl' = (e.t :> [kind |-> e.kind, m |-> << >>]) @@ sl
Drop1(e) == Live(e.t) /\ sl' = Without(sl, e.t)
Insert(e) == Live(e.t) /\ CanIns(sl[e.t], e.k) /\ sl' = [sl EXCEPT ![e.t] = Ins(@, e.k)]
Delete(e) == Live(e.t) /\ CanDel(sl[e.t], e.k) /\ sl' = [sl EXCEPT ![e.t] = Del(@, e.k)]
Find(e) == /\ Live(e.t)
           /\ e.r = IF Cls(e.k) \in Keys0(sl[e.t]) THEN sl[e.t].m[Cls(e.k)] ELSE -1
           /\ UNCHANGED sl
Fill(e) == /\ Live(e.t)
           /\ LET n == (e.to - e.from) \div e.step
                  ks == {e.from + e.step * j : j \in 0..n}
                  cs == {Cls(k) : k \in ks}
              IN /\ Cardinality(ks) = n + 1 /\ cs \cap Keys0(sl[e.t]) = {} /\ Cardinality(cs) = n + 1
                 /\ sl' = [sl EXCEPT ![e.t].m = [c \in cs |-> IF 2 * c \in ks THEN 2 * c ELSE 2 * c + 1] @@ @]

(* enumeration: exactly the data present at the start, in order, whatever the
   callback does; act lists <<visit, "i" or "d", key>> *)
ActsOf(e, v) == SelectSeq(e.act, LAMBDA a : a[1] = v)
RECURSIVE Apply(_, _)
Apply(T, acts) == IF acts = << >> THEN T
                  ELSE LET a == Head(acts) IN
                       IF a[2] = "i" /\ CanIns(T, a[3]) THEN Apply(Ins(T, a[3]), Tail(acts))
                       ELSE IF a[2] = "d" /\ CanDel(T, a[3]) THEN Apply(Del(T, a[3]), Tail(acts))
                       ELSE [T EXCEPT !.kind = -1]
RECURSIVE Visits(_, _, _)
Visits(T, e, v) == IF v > Len(e.k) \/ T.kind = -1 THEN T ELSE Visits(Apply(T, ActsOf(e, v)), e, v + 1)
Iterate(e) ==
  /\ Live(e.t)
  /\ LET T == sl[e.t]
         n == Cardinality(Keys0(T))
         ends == e.ret # 0 /\ e.stop > 0 /\ e.stop <= n
         R == IF e.act = << >> THEN T ELSE Visits(T, e, 1)
         seen == {Cls(e.k[j]) : j \in 1..Len(e.k)}
     IN /\ Len(e.k) = IF ends THEN e.stop ELSE n
        /\ e.r = IF ends THEN e.ret ELSE 0
        /\ Ok(\A j \in 1..Len(e.k) : e.k[j] >= 0 /\ Cls(e.k[j]) \in Keys0(T) /\ T.m[Cls(e.k[j])] = e.k[j])
        /\ Ok(IsAscending(T, e.k))
        /\ ends => Ok(\A c \in Keys0(T) : c \in seen \/ Less(T, Cls(e.k[Len(e.k)]), c))
        /\ R.kind # -1
        /\ sl' = [sl EXCEPT ![e.t] = R]

Try(e) == /\ Live(e.a[1])
          /\ LET T == sl[e.a[1]] IN
             e.end = IF e.cmd = "yins" /\ ~CanIns(T, e.a[2]) THEN "abort"
                     ELSE IF e.cmd = "yrem" /\ ~CanDel(T, e.a[2]) THEN "abort"
                     ELSE "ok"
          /\ UNCHANGED sl

\* the dump lists the data in order
Dump(e) == /\ Live(e.t) /\ LET T == sl[e.t] IN
              /\ e.count = Cardinality(Keys0(T)) /\ Len(e.k) = e.count
              /\ Ok(\A j \in 1..Len(e.k) : e.k[j] >= 0 /\ Cls(e.k[j]) \in Keys0(T) /\ T.m[Cls(e.k[j])] = e.k[j])
              /\ Ok(IsAscending(T, e.k))
           /\ UNCHANGED sl

Do(e) == CASE e.op = "yins"  -> Insert(e)
           [] e.op = "yrem"  -> Delete(e)
           [] e.op = "yget"  -> Find(e)
           [] e.op = "yit"   -> Iterate(e)
           [] e.op = "yfill" -> Fill(e)
           [] e.op = "ydump" -> Dump(e)
           [] e.op = "ynew"  -> New(e)
           [] e.op = "ydel"  -> Drop1(e)
           [] e.op = "try"   -> Try(e)
           [] e.op = "reset" -> sl' = << >>
           [] OTHER          -> FALSE
=============================================================================
