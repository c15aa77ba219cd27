---------------------------- MODULE SkipListImpl ----------------------------
(* How maa/sl.c does it: a head entry and entries with forward pointers per
   level, level by coin tosses but at most one more than the list's level,
   search from the highest level down, enumeration over a copy.              *)
EXTENDS SkipList, Json
CONSTANTS Lists, Keys, MaxLevel, Ops
VARIABLES cy,    \* list -> [kind, level, n, f]; f[x][i]: successor of entry x at level i.
          lab, bad  \* entries are named by their datum, the head is -1, null is -2
vars == <<hvars, cy, lab, bad>>

Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
Head0 == -1
Null == -2

CNew(kind) == [kind |-> kind, level |-> 0, n |-> 0, f |-> (Head0 :> [i \in 0..MaxLevel |-> Null])]

RECURSIVE Run(_, _, _, _), Locate(_, _, _, _)
\* furthest entry at level i, from pt, whose key is below k
Run(C, k, i, pt) == IF C.f[pt][i] # Null /\ Less(C, Cls(C.f[pt][i]), Cls(k)) THEN Run(C, k, i, C.f[pt][i]) ELSE pt
\* update[] from level i down
Locate(C, k, i, pt) == LET q == Run(C, k, i, pt) IN
                       IF i = 0 THEN (0 :> q) ELSE (i :> q) @@ Locate(C, k, i - 1, q)
Update(C, k) == Locate(C, k, C.level, Head0)
Found(C, k) == LET x == C.f[Update(C, k)[0]][0] IN IF x # Null /\ Cls(x) = Cls(k) THEN x ELSE Null

FIns(C, k, lev) ==
  LET up0 == Update(C, k)
      l   == IF lev > C.level THEN C.level + 1 ELSE lev
      up  == IF lev > C.level THEN (l :> Head0) @@ up0 ELSE up0
      f1  == (k :> [i \in 0..l |-> C.f[up[i]][i]]) @@ C.f
  IN [C EXCEPT !.n = @ + 1, !.level = Max(@, l),
        !.f = [x \in DOMAIN f1 |-> [i \in DOMAIN f1[x] |-> IF x # k /\ i <= l /\ up[i] = x THEN k ELSE f1[x][i]]]]
RECURSIVE Lower(_, _)
Lower(f, l) == IF l > 0 /\ f[Head0][l] = Null THEN Lower(f, l - 1) ELSE l
FDel(C, k) ==
  LET up == Update(C, k)
      x  == C.f[up[0]][0]
      f1 == [y \in DOMAIN C.f \ {x} |-> [i \in DOMAIN C.f[y] |-> IF C.f[y][i] = x THEN C.f[x][i] ELSE C.f[y][i]]]
  IN [C EXCEPT !.n = @ - 1, !.f = f1, !.level = Lower(f1, C.level)]
RECURSIVE Chain(_, _)
Chain(C, x) == IF C.f[x][0] = Null THEN << >> ELSE <<C.f[x][0]>> \o Chain(C, C.f[x][0])

CIns(t, k, lev) ==
  IF Found(cy[t], k) # Null
  THEN UNCHANGED cy /\ L([op |-> "try", cmd |-> "yins", a |-> <<t, k, lev>>, end |-> "abort"], "!yins" \o T2(t) \o T2(k) \o T2(lev))
  ELSE cy' = [cy EXCEPT ![t] = FIns(@, k, lev)] /\ L([op |-> "yins", t |-> t, k |-> k, l |-> lev], "yins" \o T2(t) \o T2(k) \o T2(lev))
CDel(t, k) ==
  IF Found(cy[t], k) = Null
  THEN UNCHANGED cy /\ L([op |-> "try", cmd |-> "yrem", a |-> <<t, k>>, end |-> "abort"], "!yrem" \o T2(t) \o T2(k))
  ELSE cy' = [cy EXCEPT ![t] = FDel(@, k)] /\ L([op |-> "yrem", t |-> t, k |-> k], "yrem" \o T2(t) \o T2(k))
CFind(t, k) == UNCHANGED cy /\ L([op |-> "yget", t |-> t, k |-> k, r |-> IF Found(cy[t], k) = Null THEN -1 ELSE Found(cy[t], k)],
                                 "yget" \o T2(t) \o T2(k))
(* the callback toggles key k (delete it if there, insert it otherwise) at visit v *)
CIter(t, stop, ret, v, k) ==
  LET C == cy[t]
      s == Chain(C, Head0)
      ends == stop > 0 /\ stop <= Len(s)
      seen == IF ends THEN Take(s, stop) ELSE s
      there == Found(C, k) # Null
      act == IF v = 0 THEN << >> ELSE <<<<v, IF there THEN "d" ELSE "i", k>>>>
  IN /\ cy' = IF v = 0 \/ v > Len(seen) THEN cy ELSE [cy EXCEPT ![t] = IF there THEN FDel(@, k) ELSE FIns(@, k, 1)]
     /\ L([op |-> "yit", t |-> t, stop |-> stop, ret |-> ret, r |-> IF ends THEN ret ELSE 0, k |-> seen, act |-> act],
          "yit" \o T2(t) \o T2(stop % 2) \o T2(stop) \o T2(ret)
            \o IF v = 0 THEN "" ELSE " " \o ToString(v) \o ":" \o (IF there THEN "-" ELSE "+") \o ToString(k) \o ":1")

Init == HInit /\ cy = << >> /\ lab = "" /\ bad = FALSE
Next == \/ \E t \in Lists : \E kind \in {0, 1} : t \notin DOMAIN cy /\ cy' = (t :> CNew(kind)) @@ cy
                                                 /\ L([op |-> "ynew", t |-> t, kind |-> kind], "ynew" \o T2(t) \o T2(kind))
        \/ \E t \in DOMAIN cy :
             \/ \E k \in Keys, lev \in 1..MaxLevel : CIns(t, k, lev)
             \/ \E k \in Keys : CDel(t, k) \/ ("find" \in Ops /\ CFind(t, k))
             \/ "del" \in Ops /\ cy' = Without(cy, t) /\ L([op |-> "ydel", t |-> t], "ydel" \o T2(t))
             \/ "it" \in Ops /\ \/ \E s \in 0..2 : CIter(t, s, IF s = 1 THEN 5 ELSE -3, 0, 0)
                                \/ \E v \in 1..2, k \in Keys : CIter(t, 0, 1, v, k) \/ CIter(t, 2, 7, v, k)
Spec == Init /\ [][Next]_vars
View == <<bad, cy>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == \A t \in DOMAIN cy : LET C == cy[t] IN
           /\ C.n = Len(Chain(C, Head0)) /\ C.n + 1 = Cardinality(DOMAIN C.f)
           /\ \A i \in 0..C.level : \A x \in DOMAIN C.f :     \* every level is an ascending sublist
                i \in DOMAIN C.f[x] /\ C.f[x][i] # Null =>
                   /\ C.f[x][i] \in DOMAIN C.f /\ i \in DOMAIN C.f[C.f[x][i]]
                   /\ x # Head0 => Less(C, Cls(x), Cls(C.f[x][i]))
           /\ \A i \in 0..MaxLevel : i > C.level => C.f[Head0][i] = Null
           /\ C.level > 0 => C.f[Head0][C.level] # Null
=============================================================================
