-------------------------------- MODULE Set --------------------------------
(* Sets (maa/set.c): properties C05-C07.  As for hash tables, any number of
   sets; a set maps the equality classes of its elements to the element pointer
   that was inserted.  Events carry operation, arguments and results.         *)
EXTENDS Util

VARIABLES tab,   \* set -> its abstract state
          pos    \* position slot -> enumeration in progress

hvars == <<tab, pos>>

Cls(kind, k) == IF kind = 8 THEN k ELSE k \div 2

HashOf(kind, c) == CASE kind = 0 -> 5
                     [] kind = 1 -> c
                     [] kind = 2 -> c % 3
                     [] kind = 6 -> 1221 * c
                     [] kind = 9 -> c
                     [] OTHER    -> -1
SameHash(kind, c, d) == \/ c = d
                        \/ HashOf(kind, c) >= 0 /\ HashOf(kind, c) = HashOf(kind, d)

IsPrime(n) == /\ n >= 2
              /\ \A d \in 2..(IF n < 1000 THEN n - 1 ELSE 1000) : d * d > n \/ n % d # 0

NewSet(kind, map) ==
  [kind |-> kind, map |-> map, ro |-> 0, ver |-> 0,
   retr |-> 0, miss |-> 0,           \* counts
   fuzz |-> FALSE,                   \* ... which are lower bounds only: set
                                     \*     algebra may have looked things up
   hlo  |-> 0, hhi |-> 0,            \* what the hit count can be
   top  |-> -1,                      \* class known to be first in its bucket
   size |-> 0, rez |-> 0, ins |-> 0, need |-> 0]

Live(t) == t \in DOMAIN tab
Elems(T) == DOMAIN T.map

HInit == tab = << >> /\ pos = << >>

New(e) == tab' = (e.t :> NewSet(e.kind, << >>)) @@ tab /\ UNCHANGED pos

Destroy(e) == /\ Live(e.t) /\ tab[e.t].ro = 0
              /\ tab' = Without(tab, e.t)
              /\ pos' = [p \in {q \in DOMAIN pos : pos[q].t # e.t} |-> pos[p]]

(* ---- C05: membership ---- *)
Ins(T, k) ==
  LET c == Cls(T.kind, k) IN
  IF c \in Elems(T) THEN [T EXCEPT !.ver = @ + 1, !.top = -1, !.ins = @ + 1]
  ELSE [T EXCEPT !.map = (c :> k) @@ @, !.ver = @ + 1, !.top = -1,
                 !.ins = @ + 1, !.need = 2 * Cardinality(Elems(T))]
InsRes(T, k) == IF Cls(T.kind, k) \in Elems(T) THEN 1 ELSE 0
Insert(e) == /\ Live(e.t) /\ tab[e.t].ro = 0
             /\ e.r = InsRes(tab[e.t], e.k)
             /\ tab' = [tab EXCEPT ![e.t] = Ins(@, e.k)]
             /\ UNCHANGED pos

Rem(T, k) ==
  LET c == Cls(T.kind, k) IN
  IF c \notin Elems(T) THEN T
  ELSE [T EXCEPT !.map = Without(@, c), !.ver = @ + 1, !.top = IF @ = c THEN -1 ELSE @]
RemRes(T, k) == IF Cls(T.kind, k) \in Elems(T) THEN 0 ELSE 1
Delete(e) == /\ Live(e.t) /\ tab[e.t].ro = 0
             /\ e.r = RemRes(tab[e.t], e.k)
             /\ tab' = [tab EXCEPT ![e.t] = Rem(@, e.k)]
             /\ UNCHANGED pos

Look(T, k, ro) ==
  LET c == Cls(T.kind, k) IN
  IF c \notin Elems(T) THEN [T EXCEPT !.retr = @ + 1, !.miss = @ + 1]
  ELSE LET sure  == T.top = c
           never == T.top >= 0 /\ T.top # c /\ SameHash(T.kind, c, T.top)
       IN [T EXCEPT !.retr = @ + 1,
                    !.hlo = IF sure THEN @ + 1 ELSE @,
                    !.hhi = IF never THEN @ ELSE @ + 1,
                    !.top = IF ro = 1 THEN @ ELSE c,
                    !.ver = IF ro = 1 THEN @ ELSE @ + 1]
IsMem(T, k, r) == (r # 0) = (Cls(T.kind, k) \in Elems(T))
Member(e) == /\ Live(e.t)
             /\ IsMem(tab[e.t], e.k, e.r)
             /\ tab' = [tab EXCEPT ![e.t] = Look(@, e.k, @.ro)]
             /\ UNCHANGED pos

Count(e) == /\ Live(e.t) /\ e.r = Cardinality(Elems(tab[e.t])) /\ UNCHANGED hvars

(* many operations in one event *)
RECURSIVE BulkFold(_, _, _, _, _, _)
BulkFold(T, o, k, step, r, j) ==
  IF j > Len(r) THEN T
  ELSE LET ok  == CASE o = "i" -> r[j] = InsRes(T, k) [] o = "d" -> r[j] = RemRes(T, k) [] o = "m" -> IsMem(T, k, r[j])
           nxt == CASE o = "i" -> Ins(T, k) [] o = "d" -> Rem(T, k) [] o = "m" -> Look(T, k, T.ro)
       IN IF ~ok THEN [T EXCEPT !.kind = -1] ELSE BulkFold(nxt, o, k + step, step, r, j + 1)
Bulk(e) ==
  /\ Live(e.t) /\ (e.o \in {"i", "d"} => tab[e.t].ro = 0)
  /\ Len(e.r) = (e.to - e.from) \div e.step + 1
  /\ LET T == tab[e.t]
         ks == {e.from + e.step * j : j \in 0..(Len(e.r) - 1)}
         cs == {Cls(T.kind, k) : k \in ks}
         simple == Cardinality(cs) = Len(e.r)
     IN IF simple /\ e.o = "i" /\ cs \cap Elems(T) = {}
        THEN /\ \A j \in 1..Len(e.r) : e.r[j] = 0
             /\ tab' = [tab EXCEPT ![e.t] =
                  [T EXCEPT !.map = [c \in cs |-> CHOOSE k \in {2*c, 2*c+1, c} : k \in ks /\ Cls(T.kind, k) = c] @@ @,
                            !.ver = @ + 1, !.top = -1, !.ins = @ + Len(e.r),
                            !.need = 2 * (Cardinality(Elems(T)) + Len(e.r) - 1)]]
        ELSE IF simple /\ e.o = "d" /\ cs \subseteq Elems(T)
        THEN /\ \A j \in 1..Len(e.r) : e.r[j] = 0
             /\ tab' = [tab EXCEPT ![e.t] = [T EXCEPT !.map = [c \in DOMAIN @ \ cs |-> @[c]], !.ver = @ + 1, !.top = -1]]
        ELSE LET R == BulkFold(T, e.o, e.from, e.step, e.r, 1)
             IN R.kind # -1 /\ tab' = [tab EXCEPT ![e.t] = R]
  /\ UNCHANGED pos

(* ---- C06: algebra.  The event shows the elements (pointers), count and mark
   of the result and of both operands afterwards. ---- *)
MapOf(kind, s) == [c \in {Cls(kind, s[j]) : j \in 1..Len(s)} |->
                     s[CHOOSE j \in 1..Len(s) : Cls(kind, s[j]) = c]]
\* s enumerates exactly the classes C, each once
Shows(kind, s, n, C) == /\ \A j \in 1..Len(s) : s[j] >= 0
                        /\ Len(s) = Cardinality(C) /\ n = Len(s)
                        /\ {Cls(kind, s[j]) : j \in 1..Len(s)} = C
\* ... with the pointers in map
ShowsMap(T, s, n) == Shows(T.kind, s, n, Elems(T)) /\ \A j \in 1..Len(s) : T.map[Cls(T.kind, s[j])] = s[j]

Touched(T) == [T EXCEPT !.fuzz = TRUE, !.top = -1, !.hhi = 1000000000,
                        !.ver = IF T.ro = 1 THEN @ ELSE @ + 1]
Result(o, A, B) == CASE o \in {"u", "+"} -> Elems(A) \cup Elems(B)
                     [] o = "i"          -> Elems(A) \cap Elems(B)
                     [] o \in {"d", "-"} -> Elems(A) \ Elems(B)
\* the pointers a result may hold are among those of its operands
From(A, B, s) == \A j \in 1..Len(s) : LET c == Cls(A.kind, s[j]) IN
                    \/ c \in Elems(A) /\ A.map[c] = s[j]
                    \/ c \in Elems(B) /\ B.map[c] = s[j]
SameFns(A, B) == A.kind = B.kind
Algebra(e) ==
  /\ Live(e.a) /\ Live(e.b)
  /\ LET A == tab[e.a]
         B == tab[e.b]
         inplace == e.o \in {"+", "-"}
     IN /\ SameFns(A, B)
        /\ inplace => A.ro = 0
        /\ Ok(Shows(A.kind, e.ez, e.cz, Result(e.o, A, B)) /\ From(A, B, e.ez))
        /\ e.same = IF inplace THEN 1 ELSE 0
        /\ e.mz = 0
        /\ Ok(IF e.b = e.a /\ inplace THEN e.eb = e.ez /\ e.cb = e.cz ELSE ShowsMap(B, e.eb, e.cb))
        /\ e.mb = B.ro
        /\ IF inplace
           THEN /\ e.ea = e.ez /\ e.ca = e.cz /\ e.ma = A.ro
                /\ Ok(\A j \in 1..Len(e.ez) : Cls(A.kind, e.ez[j]) \in Elems(A) => A.map[Cls(A.kind, e.ez[j])] = e.ez[j])
                /\ tab' = [tab EXCEPT ![e.b] = Touched(@),
                                      ![e.a] = [Touched(A) EXCEPT !.map = MapOf(A.kind, e.ez),
                                                  !.ver = A.ver + 1, !.ins = @ + Cardinality(Elems(B)), !.need = 0]]
           ELSE /\ Ok(ShowsMap(A, e.ea, e.ca)) /\ e.ma = A.ro
                /\ tab' = (e.z :> [Touched(NewSet(A.kind, MapOf(A.kind, e.ez)))
                                     EXCEPT !.ins = Cardinality(Elems(A)) + Cardinality(Elems(B))])
                          @@ [tab EXCEPT ![e.a] = Touched(@), ![e.b] = Touched(@)]
  /\ UNCHANGED pos

Equal(e) ==
  /\ Live(e.a) /\ Live(e.b)
  /\ SameFns(tab[e.a], tab[e.b])
  /\ (e.r # 0) = (Elems(tab[e.a]) = Elems(tab[e.b]))
  /\ e.ma = tab[e.a].ro /\ e.mb = tab[e.b].ro
  /\ tab' = [tab EXCEPT ![e.a] = Touched(@), ![e.b] = Touched(@)]
  /\ UNCHANGED pos

(* ---- C07: enumeration and guard ---- *)
RECURSIVE Acts(_, _, _)   \* actions of the callback at its first visit
Acts(T, act, j) ==
  IF j > Len(act) THEN T
  ELSE LET a == act[j] IN
       IF a[1] = "m" THEN IF IsMem(T, a[2], a[3]) THEN Acts(Look(T, a[2], 1), act, j + 1) ELSE [T EXCEPT !.kind = -1]
       ELSE IF a[3] = 1000 THEN Acts(T, act, j + 1) ELSE [T EXCEPT !.kind = -1]   \* refused by aborting
Iterate(e) ==
  /\ Live(e.t)
  /\ LET T == tab[e.t]
         n == Cardinality(Elems(T))
         R == Acts(T, e.act, 1)
     IN /\ \A j \in 1..Len(e.k) : /\ e.k[j] >= 0
                                  /\ Cls(T.kind, e.k[j]) \in Elems(T)
                                  /\ T.map[Cls(T.kind, e.k[j])] = e.k[j]
        /\ Distinct(e.k)
        /\ IF e.stop > 0 /\ e.stop <= n
           THEN Len(e.k) = e.stop /\ e.r # 0
           ELSE Len(e.k) = n /\ e.r = 0
        /\ n = 0 => e.act = << >>
        /\ R.kind # -1
        /\ tab' = [tab EXCEPT ![e.t] = R]
  /\ UNCHANGED pos

PosInit(e) ==
  /\ Live(e.t)
  /\ LET T == tab[e.t] IN
     IF Elems(T) = {}
     THEN /\ e.ok = 0 /\ e.k = -1
          /\ UNCHANGED tab
          /\ pos' = (e.p :> [t |-> e.t, seen |-> {}, end |-> TRUE, ver |-> T.ver]) @@ pos
     ELSE /\ e.ok = 1 /\ e.k >= 0
          /\ LET c == Cls(T.kind, e.k) IN
             /\ c \in Elems(T) /\ T.map[c] = e.k
             /\ pos' = (e.p :> [t |-> e.t, seen |-> {c}, end |-> FALSE, ver |-> T.ver]) @@ pos
          /\ tab' = [tab EXCEPT ![e.t].ro = 1]

PosUsable(p) == /\ p \in DOMAIN pos /\ Live(pos[p].t)
                /\ ~pos[p].end /\ pos[p].ver = tab[pos[p].t].ver

PosNext(e) ==
  /\ PosUsable(e.p) /\ pos[e.p].t = e.t
  /\ LET P == pos[e.p]
         T == tab[e.t]
         rest == Elems(T) \ P.seen
     IN IF rest = {}
        THEN /\ e.ok = 0 /\ e.k = -1
             /\ pos' = [pos EXCEPT ![e.p].end = TRUE]
             /\ tab' = [tab EXCEPT ![e.t].ro = 0]
        ELSE /\ e.ok = 1 /\ e.k >= 0
             /\ LET c == Cls(T.kind, e.k) IN
                /\ c \in rest /\ T.map[c] = e.k
                /\ pos' = [pos EXCEPT ![e.p].seen = @ \cup {c}]
             /\ UNCHANGED tab

SetRO(e) == /\ Live(e.t)
            /\ e.r = tab[e.t].ro
            /\ tab' = [tab EXCEPT ![e.t].ro = e.f]
            /\ UNCHANGED pos

(* an attempted operation (in a forked child: the state stays as it is) *)
Try(e) ==
  /\ e.end = IF e.cmd = "salg"
             THEN IF ~SameFns(tab[e.a[3]], tab[e.a[4]]) THEN "exit1"
                  ELSE IF e.a[1] \in {"+", "-"} /\ tab[e.a[3]].ro = 1 THEN "abort" ELSE "ok"
             ELSE IF e.cmd = "seq" THEN IF SameFns(tab[e.a[1]], tab[e.a[2]]) THEN "ok" ELSE "exit1"
             ELSE IF e.cmd \in {"sins", "srem", "sdel"} /\ tab[e.a[1]].ro = 1 THEN "abort" ELSE "ok"
  /\ UNCHANGED hvars

(* ---- statistics ---- *)
Bucket(T, c, size) == HashOf(T.kind, c) % size
Figures(T, e) ==
  LET n == Cardinality(Elems(T)) IN
  /\ e.entries = n
  /\ e.used <= n /\ e.single <= e.used
  /\ (n = 0) = (e.used = 0) /\ (n = 0) = (e.maxlen = 0)
  /\ e.single + 2 * (e.used - e.single) <= n
  /\ n > 0 => n >= e.used + e.maxlen - 1
  /\ e.used = e.single => n = e.used
  /\ e.used > e.single => n <= e.single + e.maxlen * (e.used - e.single)
  /\ (HashOf(T.kind, 0) >= 0 /\ n <= 250) =>    \* hash values known: exact figures
       LET B(b) == {c \in Elems(T) : Bucket(T, c, e.size) = b}
           used == {Bucket(T, c, e.size) : c \in Elems(T)}
           len  == [b \in used |-> Cardinality(B(b))]
       IN /\ e.used = Cardinality(used)
          /\ e.single = Cardinality({b \in used : len[b] = 1})
          /\ \A b \in used : len[b] <= e.maxlen
          /\ n > 0 => \E b \in used : len[b] = e.maxlen


\* the printed statistics repeat the figures; the optimal list length (in tenths, rounded) is
\* entries / buckets used
Printed(e) == LET o == IF e.used > 0 THEN 1 ELSE 0 IN
  /\ Len(e.p) = 9 + o
  /\ SubSeq(e.p, 1, 6) = <<e.rez, e.size, e.entries, e.used, e.single, e.maxlen>>
  /\ SubSeq(e.p, 7 + o, 9 + o) = <<e.retr, e.hits, e.misses>>
  /\ (e.used > 0 => LET d == 10 * e.entries - e.p[7] * e.used IN Max(d, 0 - d) * 2 <= e.used)
Stats(e) ==
  /\ Live(e.t)
  /\ LET T == tab[e.t] IN
     /\ e.size % 2 = 1 /\ Ok(IsPrime(e.size))
     /\ e.size >= T.size
     /\ T.need <= e.size
     /\ Ok(IF T.size = 0 THEN e.rez <= T.ins
           ELSE /\ (e.size > T.size) = (e.rez > T.rez)
                /\ e.rez >= T.rez /\ e.rez - T.rez <= T.ins)
     /\ Ok(Figures(T, e)) /\ Ok(Printed(e))
     /\ IF T.fuzz THEN e.retr >= T.retr /\ e.misses >= T.miss /\ e.hits + e.misses <= e.retr
        ELSE e.retr = T.retr /\ e.misses = T.miss
     /\ e.hits >= T.hlo /\ e.hits <= T.hhi
     /\ tab' = [tab EXCEPT ![e.t] = [T EXCEPT !.size = e.size, !.rez = e.rez, !.ins = 0,
                   !.retr = e.retr, !.miss = e.misses, !.fuzz = FALSE, !.hlo = e.hits, !.hhi = e.hits]]
  /\ UNCHANGED pos

Reset == tab' = << >> /\ pos' = << >>

\* a set keeps the functions it was made with
HashFn == <<"h0", "h1", "h2", "h3", "h4", "h5", "h6", "string", "pointer", "h1">>
CmpFn  == <<"c1", "c1", "c2", "c1", "c3", "c1", "c2", "string", "pointer", "c2">>
Functions(e) == /\ Live(e.t) /\ e.h = HashFn[tab[e.t].kind + 1] /\ e.c = CmpFn[tab[e.t].kind + 1] /\ UNCHANGED hvars

Do(e) == CASE e.op = "sins"   -> Insert(e)
           [] e.op = "srem"   -> Delete(e)
           [] e.op = "smem"   -> Member(e)
           [] e.op = "scount" -> Count(e)
           [] e.op = "sbulk"  -> Bulk(e)
           [] e.op = "salg"   -> Algebra(e)
           [] e.op = "seq"    -> Equal(e)
           [] e.op = "sit"    -> Iterate(e)
           [] e.op = "spi"    -> PosInit(e)
           [] e.op = "spn"    -> PosNext(e)
           [] e.op = "sro"    -> SetRO(e)
           [] e.op = "sst"    -> Stats(e)
           [] e.op = "snew"   -> New(e)
           [] e.op = "sdel"   -> Destroy(e)
           [] e.op = "sfun"   -> Functions(e)
           [] e.op = "try"    -> Try(e)
           [] e.op = "reset"  -> Reset
           [] OTHER           -> FALSE

HTypeOK == /\ \A t \in DOMAIN tab : /\ tab[t].ro \in {0, 1}
                                    /\ tab[t].hlo <= tab[t].hhi
                                    /\ \A c \in Elems(tab[t]) : Cls(tab[t].kind, tab[t].map[c]) = c
           /\ \A p \in DOMAIN pos : Live(pos[p].t) =>
                (PosUsable(p) => pos[p].seen \subseteq Elems(tab[pos[p].t]))
=============================================================================
