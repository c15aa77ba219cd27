-------------------------------- MODULE Hash --------------------------------
(* Hash tables (maa/hash.c): properties C01-C04.

   The abstract system: any number of tables, each a finite map from the
   equality classes of keys to (key pointer, datum), with a modification guard
   ("ro"), position enumerations over it, and statistics.

   Every action takes the event e that was (or would be) observed: the
   operation, its arguments and its result.  An event is possible iff the
   action is enabled.  The same actions judge the implementation-shaped model
   (HashImpl) and the traces recorded from the real code (HashTrace).          *)
EXTENDS Util

VARIABLES tab,   \* table -> its abstract state
          pos    \* position slot -> enumeration in progress

hvars == <<tab, pos>>

\* Key objects 2c and 2c+1 are different pointers to equal keys (class c);
\* tables of kind 8 compare pointers, there every object is its own class.
Cls(kind, k) == IF kind = 8 THEN k ELSE k \div 2

\* The hash values of kinds whose values are known here; -1: unknown (only
\* consistency is required then).
HashOf(kind, c) == CASE kind = 0 -> 5
                     [] kind = 1 -> c
                     [] kind = 2 -> c % 3
                     [] kind = 6 -> 1221 * c
                     [] OTHER    -> -1
SameHash(kind, c, d) == \/ c = d
                        \/ HashOf(kind, c) >= 0 /\ HashOf(kind, c) = HashOf(kind, d)

IsPrime(n) == /\ n >= 2
              /\ \A d \in 2..(IF n < 1000 THEN n - 1 ELSE 1000) : d * d > n \/ n % d # 0

NewTable(kind) ==
  [kind |-> kind, map |-> << >>, ro |-> 0,
   ver  |-> 0,                       \* changes whenever positions become void
   retr |-> 0, miss |-> 0,           \* exact counts
   hlo  |-> 0, hhi |-> 0,            \* what the hit count can be
   top  |-> -1,                      \* class known to be first in its bucket
   size |-> 0, rez |-> 0,            \* last reported (size 0: never)
   ins  |-> 0,                       \* insertion attempts since then
   need |-> 0]                       \* 2 * entries before the last insertion

Live(t) == t \in DOMAIN tab

HInit == tab = << >> /\ pos = << >>

New(e) == /\ tab' = (e.t :> NewTable(e.kind)) @@ tab
          /\ UNCHANGED pos

Destroy(e) == /\ Live(e.t) /\ tab[e.t].ro = 0
              /\ tab' = Without(tab, e.t)
              /\ pos' = [p \in {q \in DOMAIN pos : pos[q].t # e.t} |-> pos[p]]

(* ---- C01: a finite map ---- *)
Ins(T, k, d) ==  \* table after an attempted insertion
  LET c == Cls(T.kind, k) IN
  IF c \in DOMAIN T.map
  THEN [T EXCEPT !.ver = @ + 1, !.top = -1, !.ins = @ + 1]
  ELSE [T EXCEPT !.map = (c :> <<k, d>>) @@ @, !.ver = @ + 1, !.top = -1,
                 !.ins = @ + 1, !.need = 2 * Cardinality(DOMAIN T.map)]
InsRes(T, k) == IF Cls(T.kind, k) \in DOMAIN T.map THEN 1 ELSE 0

Insert(e) == /\ Live(e.t) /\ tab[e.t].ro = 0
             /\ e.r = InsRes(tab[e.t], e.k)
             /\ tab' = [tab EXCEPT ![e.t] = Ins(@, e.k, e.d)]
             /\ UNCHANGED pos

Rem(T, k) ==
  LET c == Cls(T.kind, k) IN
  IF c \notin DOMAIN T.map THEN T
  ELSE [T EXCEPT !.map = Without(@, c), !.ver = @ + 1, !.top = IF @ = c THEN -1 ELSE @]
RemRes(T, k) == IF Cls(T.kind, k) \in DOMAIN T.map THEN 0 ELSE 1

Delete(e) == /\ Live(e.t) /\ tab[e.t].ro = 0
             /\ e.r = RemRes(tab[e.t], e.k)
             /\ tab' = [tab EXCEPT ![e.t] = Rem(@, e.k)]
             /\ UNCHANGED pos

Look(T, k) ==
  LET c == Cls(T.kind, k) IN
  IF c \notin DOMAIN T.map THEN [T EXCEPT !.retr = @ + 1, !.miss = @ + 1]
  ELSE LET sure  == T.top = c
           never == T.top >= 0 /\ T.top # c /\ SameHash(T.kind, c, T.top)
       IN [T EXCEPT !.retr = @ + 1,
                    !.hlo = IF sure THEN @ + 1 ELSE @,
                    !.hhi = IF never THEN @ ELSE @ + 1,
                    !.top = IF T.ro = 1 THEN @ ELSE c,
                    !.ver = IF T.ro = 1 THEN @ ELSE @ + 1]
LookRes(T, k) == LET c == Cls(T.kind, k) IN IF c \in DOMAIN T.map THEN T.map[c][2] ELSE 0

Retrieve(e) == /\ Live(e.t)
               /\ e.r = LookRes(tab[e.t], e.k)
               /\ tab' = [tab EXCEPT ![e.t] = Look(@, e.k)]
               /\ UNCHANGED pos

(* many operations in one event (large tables): keys from, from+step .. to;
   the datum inserted with key k is k+1 *)
RECURSIVE BulkFold(_, _, _, _, _, _)
BulkFold(T, o, k, step, r, j) ==   \* table after the whole run, or the string "bad"
  IF j > Len(r) THEN T
  ELSE LET want == CASE o = "i" -> InsRes(T, k) [] o = "d" -> RemRes(T, k) [] o = "g" -> LookRes(T, k)
           nxt  == CASE o = "i" -> Ins(T, k, k + 1) [] o = "d" -> Rem(T, k) [] o = "g" -> Look(T, k)
       IN IF r[j] # want THEN [T EXCEPT !.kind = -1]
          ELSE BulkFold(nxt, o, k + step, step, r, j + 1)
(* the common cases at once: all keys absent (inserting) or all present *)
BulkKeys(e) == {e.from + e.step * j : j \in 0..(Len(e.r) - 1)}
Bulk(e) ==
  /\ Live(e.t) /\ (e.o \in {"i", "d"} => tab[e.t].ro = 0)
  /\ Len(e.r) = (e.to - e.from) \div e.step + 1
  /\ LET T == tab[e.t]
         ks == BulkKeys(e)
         cs == {Cls(T.kind, k) : k \in ks}
         simple == Cardinality(cs) = Len(e.r)
     IN IF simple /\ e.o = "i" /\ cs \cap DOMAIN T.map = {}
        THEN /\ \A j \in 1..Len(e.r) : e.r[j] = 0
             /\ tab' = [tab EXCEPT ![e.t] =
                  [T EXCEPT !.map = [c \in cs |-> LET k == CHOOSE k \in {2*c, 2*c+1, c} : k \in ks /\ Cls(T.kind, k) = c IN <<k, k + 1>>] @@ @,
                            !.ver = @ + 1, !.top = -1, !.ins = @ + Len(e.r),
                            !.need = 2 * (Cardinality(DOMAIN T.map) + Len(e.r) - 1)]]
        ELSE IF simple /\ e.o = "d" /\ cs \subseteq DOMAIN T.map
        THEN /\ \A j \in 1..Len(e.r) : e.r[j] = 0
             /\ tab' = [tab EXCEPT ![e.t] = [T EXCEPT !.map = [c \in DOMAIN @ \ cs |-> @[c]], !.ver = @ + 1, !.top = -1]]
        ELSE IF simple /\ e.o = "g" /\ cs \subseteq DOMAIN T.map /\ HashOf(T.kind, 0) = -1
        THEN /\ \A j \in 1..Len(e.r) : e.r[j] = T.map[Cls(T.kind, e.from + e.step * (j - 1))][2]
             /\ tab' = [tab EXCEPT ![e.t] = [T EXCEPT !.retr = @ + Len(e.r), !.hhi = @ + Len(e.r),
                                                     !.top = -1, !.ver = @ + 1]]
        ELSE LET R == BulkFold(T, e.o, e.from, e.step, e.r, 1)
             IN R.kind # -1 /\ tab' = [tab EXCEPT ![e.t] = R]
  /\ UNCHANGED pos

(* ---- C02: enumeration by callback ---- *)
Iterate(e) ==
  /\ Live(e.t)
  /\ LET T == tab[e.t]
         n == Cardinality(DOMAIN T.map)
         seen == [j \in 1..Len(e.k) |-> Cls(T.kind, e.k[j])]
         gone == {Cls(T.kind, e.k[j]) : j \in {x \in 1..Len(e.k) : e.k[x] \in Rng(e.del)}}
     IN /\ Len(e.d) = Len(e.k) /\ Len(e.dr) = Len(e.k)
        /\ \A j \in 1..Len(e.k) : /\ e.k[j] >= 0
                                  /\ seen[j] \in DOMAIN T.map
                                  /\ T.map[seen[j]] = <<e.k[j], e.d[j]>>   \* the very key pointer
                                  /\ e.dr[j] = IF e.k[j] \in Rng(e.del) THEN 0 ELSE -1
        /\ Distinct(seen)
        /\ IF e.stop > 0 /\ e.stop <= n
           THEN Len(e.k) = e.stop /\ e.r # 0
           ELSE Len(e.k) = n /\ e.r = 0
        /\ gone # {} => T.ro = 0
        /\ tab' = [tab EXCEPT ![e.t] =
             IF gone = {} THEN T
             ELSE [T EXCEPT !.map = [c \in DOMAIN @ \ gone |-> @[c]], !.ver = @ + 1,
                            !.top = IF @ \in gone THEN -1 ELSE @]]
  /\ UNCHANGED pos

(* ---- C02, C03: position enumeration, the guard ---- *)
PosInit(e) ==
  /\ Live(e.t)
  /\ LET T == tab[e.t] IN
     IF DOMAIN T.map = {}
     THEN /\ e.ok = 0 /\ e.k = -1 /\ e.d = 0
          /\ UNCHANGED tab
          /\ pos' = (e.p :> [t |-> e.t, seen |-> {}, end |-> TRUE, ver |-> T.ver]) @@ pos
     ELSE /\ e.ok = 1 /\ e.k >= 0
          /\ LET c == Cls(T.kind, e.k) IN
             /\ c \in DOMAIN T.map /\ T.map[c] = <<e.k, e.d>>
             /\ pos' = (e.p :> [t |-> e.t, seen |-> {c}, end |-> FALSE, ver |-> T.ver]) @@ pos
          /\ tab' = [tab EXCEPT ![e.t].ro = 1]

PosUsable(p) == /\ p \in DOMAIN pos /\ Live(pos[p].t)
                /\ ~pos[p].end /\ pos[p].ver = tab[pos[p].t].ver

PosNext(e) ==
  /\ PosUsable(e.p) /\ pos[e.p].t = e.t
  /\ LET P == pos[e.p]
         T == tab[e.t]
         rest == DOMAIN T.map \ P.seen
     IN IF rest = {}
        THEN /\ e.ok = 0 /\ e.k = -1 /\ e.d = 0
             /\ pos' = [pos EXCEPT ![e.p].end = TRUE]
             /\ tab' = [tab EXCEPT ![e.t].ro = 0]
        ELSE /\ e.ok = 1 /\ e.k >= 0
             /\ LET c == Cls(T.kind, e.k) IN
                /\ c \in rest /\ T.map[c] = <<e.k, e.d>>
                /\ pos' = [pos EXCEPT ![e.p].seen = @ \cup {c}]
             /\ UNCHANGED tab

SetRO(e) == /\ Live(e.t)
            /\ e.r = tab[e.t].ro
            /\ tab' = [tab EXCEPT ![e.t].ro = e.f]
            /\ UNCHANGED pos

(* an attempted operation (in a forked child: the state stays as it is) *)
Refused(T, cmd) == cmd \in {"hins", "hrem", "hdel"} /\ T.ro = 1
Try(e) == /\ Live(e.a[1])
          /\ e.end = IF Refused(tab[e.a[1]], e.cmd) THEN "abort" ELSE "ok"
          /\ UNCHANGED hvars

(* ---- C04: size and statistics ---- *)
Bucket(T, c, size) == HashOf(T.kind, c) % size
Figures(T, e) ==
  LET n == Cardinality(DOMAIN T.map) IN
  /\ e.entries = n
  /\ e.used <= n /\ e.single <= e.used
  /\ (n = 0) = (e.used = 0) /\ (n = 0) = (e.maxlen = 0)
  /\ e.single + 2 * (e.used - e.single) <= n
  /\ n > 0 => n >= e.used + e.maxlen - 1
  /\ e.used = e.single => n = e.used
  /\ e.used > e.single => n <= e.single + e.maxlen * (e.used - e.single)
  /\ (HashOf(T.kind, 0) >= 0 /\ n <= 250) =>    \* hash values known: exact figures
       LET B(b) == {c \in DOMAIN T.map : Bucket(T, c, e.size) = b}
           used == {Bucket(T, c, e.size) : c \in DOMAIN T.map}
           len  == [b \in used |-> Cardinality(B(b))]
       IN /\ e.used = Cardinality(used)
          /\ e.single = Cardinality({b \in used : len[b] = 1})
          /\ \A b \in used : len[b] <= e.maxlen
          /\ n > 0 => \E b \in used : len[b] = e.maxlen

\* the printed statistics repeat the figures; the optimal list length (in tenths, rounded) is
\* entries / buckets used
Printed(e) == LET o == IF e.used > 0 THEN 1 ELSE 0 IN
  /\ Len(e.p) = 9 + o
  /\ SubSeq(e.p, 1, 6) = <<e.rez, e.size, e.entries, e.used, e.single, e.maxlen>>
  /\ SubSeq(e.p, 7 + o, 9 + o) = <<e.retr, e.hits, e.misses>>
  /\ (e.used > 0 => LET d == 10 * e.entries - e.p[7] * e.used IN Max(d, 0 - d) * 2 <= e.used)
Stats(e) ==
  /\ Live(e.t)
  /\ LET T == tab[e.t] IN
     /\ e.size % 2 = 1 /\ Ok(IsPrime(e.size))
     /\ e.size >= T.size
     /\ T.need <= e.size
     /\ IF T.size = 0 THEN e.rez <= T.ins
        ELSE /\ (e.size > T.size) = (e.rez > T.rez)
             /\ e.rez >= T.rez /\ e.rez - T.rez <= T.ins
     /\ Ok(Figures(T, e)) /\ Ok(Printed(e))
     /\ e.retr = T.retr /\ e.misses = T.miss
     /\ e.hits >= T.hlo /\ e.hits <= T.hhi
     /\ tab' = [tab EXCEPT ![e.t] = [T EXCEPT !.size = e.size, !.rez = e.rez, !.ins = 0,
                                            !.hlo = e.hits, !.hhi = e.hits]]
  /\ UNCHANGED pos

Reset == tab' = << >> /\ pos' = << >>

\* the functions for strings and for pointers
Functions(e) == /\ (e.a = e.b => e.sh = 1) /\ e.again = 1 /\ e.pe = 1 /\ e.pc = 0
                /\ e.sc = (IF e.a = e.b THEN 1 ELSE 0) /\ UNCHANGED hvars
\* the printed keys: each once
PrintedKeys(e) == /\ Live(e.t)
           /\ LET M == tab[e.t].map num(c) == M[c][1] \div 2 IN
              /\ Len(e.n) = Cardinality(DOMAIN M)
              /\ IF tab[e.t].kind # 8 THEN Rng(e.n) = DOMAIN M
                 ELSE Ok(\A x \in Rng(e.n) : Cardinality({j \in 1..Len(e.n) : e.n[j] = x}) = Cardinality({c \in DOMAIN M : num(c) = x}))
           /\ UNCHANGED hvars

Do(e) == CASE e.op = "hins"  -> Insert(e)
           [] e.op = "hrem"  -> Delete(e)
           [] e.op = "hget"  -> Retrieve(e)
           [] e.op = "hbulk" -> Bulk(e)
           [] e.op = "hit"   -> Iterate(e)
           [] e.op = "hpi"   -> PosInit(e)
           [] e.op = "hpn"   -> PosNext(e)
           [] e.op = "hro"   -> SetRO(e)
           [] e.op = "hst"   -> Stats(e)
           [] e.op = "hnew"  -> New(e)
           [] e.op = "hdel"  -> Destroy(e)
           [] e.op = "hfun"  -> Functions(e)
           [] e.op = "hkeys" -> PrintedKeys(e)
           [] e.op = "try"   -> Try(e)
           [] e.op = "reset" -> Reset
           [] OTHER          -> FALSE

(* ---- invariants of the abstract system ---- *)
HTypeOK == /\ \A t \in DOMAIN tab : /\ tab[t].ro \in {0, 1}
                                    /\ tab[t].hlo <= tab[t].hhi
                                    /\ tab[t].hhi <= tab[t].retr - tab[t].miss
                                    /\ \A c \in DOMAIN tab[t].map : Cls(tab[t].kind, tab[t].map[c][1]) = c
           /\ \A p \in DOMAIN pos : Live(pos[p].t) =>
                (PosUsable(p) => pos[p].seen \subseteq DOMAIN tab[pos[p].t].map)
=============================================================================
