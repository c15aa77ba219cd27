------------------------------- MODULE StrPool -------------------------------
(* String pools and the global pool (maa/string.c): properties C15, C16.
   Strings are hexadecimal texts; pointers are numbers.  Pool 99 is the global
   pool: it exists from its first use on.                                     *)
EXTENDS Util

VARIABLE pl     \* pool -> [map: interned string -> pointer, all: pointer -> string, grow, ro: read-only?, st: what was stored]
hvars == pl
G == 99
\* stored: so many strings of so many bytes (NULs included), and at most dn strings of db bytes
\* more (a string grown and finished that is in the pool already); lookups and failed lookups at least
St0 == [n |-> 0, b |-> 0, dn |-> 0, db |-> 0, look |-> 0, miss |-> 0]
None == [map |-> << >>, all |-> << >>, grow |-> "", ro |-> 0, st |-> St0]
HInit == pl = (G :> None)

Live(t) == t \in DOMAIN pl
Others(t) == UNION {DOMAIN pl[u].all : u \in DOMAIN pl \ {t}}
\* the string up to its first NUL
UpTo(s) == LET nul == {j \in 1..(Len(s) \div 2) : SubSeq(s, 2 * j - 1, 2 * j) = "00"} IN
           IF nul = {} THEN s ELSE SubSeq(s, 1, 2 * ((CHOOSE j \in nul : \A k \in nul : j <= k) - 1))

\* looking s up answers id
CanIntern(t, s, id) == /\ id \notin Others(t)
                       /\ IF s \in DOMAIN pl[t].map THEN id = pl[t].map[s] ELSE pl[t].ro = 0 /\ id \notin DOMAIN pl[t].all
Size(s) == Len(s) \div 2
\* the statistics after looking s up (fin: by growing a string of f bytes and finishing it)
Looked(t, s, fin, f) == LET z == pl[t].st new == s \notin DOMAIN pl[t].map IN
  [z EXCEPT !.look = @ + 1, !.miss = @ + (IF new THEN 1 ELSE 0),
            !.n = @ + (IF new THEN 1 ELSE 0), !.b = @ + (IF new THEN Size(s) + 1 ELSE 0),
            !.dn = @ + (IF fin /\ ~new THEN 1 ELSE 0), !.db = @ + (IF fin THEN f + 2 - (IF new THEN Size(s) + 1 ELSE 0) ELSE 0)]
Interned(t, s, id) == [pl EXCEPT ![t].map = (s :> id) @@ @, ![t].all = (id :> s) @@ @, ![t].st = Looked(t, s, FALSE, 0)]
Find(e) == /\ Live(e.t) /\ e.out = UpTo(e.s) /\ CanIntern(e.t, e.out, e.id)
           /\ pl' = Interned(e.t, e.out, e.id)
Grow(e) == Live(e.t) /\ pl' = [pl EXCEPT ![e.t].grow = @ \o e.s]
Finish(e) == /\ Live(e.t) /\ e.out = UpTo(pl[e.t].grow) /\ CanIntern(e.t, e.out, e.id)
             /\ pl' = [Interned(e.t, e.out, e.id) EXCEPT ![e.t].grow = "", ![e.t].st = Looked(e.t, e.out, TRUE, Size(pl[e.t].grow))]
\* a copy has a place of its own and is not interned
Copy(e) == /\ Live(e.t) /\ e.out = e.s \o "00" /\ e.id \notin Others(e.t) \cup DOMAIN pl[e.t].all
           /\ pl' = [pl EXCEPT ![e.t].all = (e.id :> UpTo(e.s)) @@ @, ![e.t].st.n = @ + 1, ![e.t].st.b = @ + Size(e.s) + 1]
Exists(e) == /\ Live(e.t) /\ e.r = (IF UpTo(e.s) \in DOMAIN pl[e.t].map THEN 1 ELSE 0)
             /\ pl' = [pl EXCEPT ![e.t].st.look = @ + 1, ![e.t].st.miss = @ + 1 - e.r]
\* the figures, which the printed statistics repeat
Stats(e) == LET z == pl[e.t].st IN
            /\ Live(e.t) /\ pl[e.t].grow = "" /\ e.count >= z.n /\ e.count <= z.n + z.dn
            /\ e.bytes >= z.b /\ e.bytes <= z.b + z.db
            /\ e.retr >= z.look /\ e.misses >= z.miss /\ e.hits >= 0 /\ e.hits + e.misses <= e.retr
            /\ (z = St0 => e.retr = 0)
            /\ e.p = <<e.count, e.bytes, e.retr, e.hits, e.misses>>
            /\ UNCHANGED hvars
\* unique: begins with the prefix, is new
Unique(e) == /\ Len(e.out) >= Len(e.s) /\ SubSeq(e.out, 1, Len(e.s)) = e.s
             /\ e.out \notin DOMAIN pl[G].map /\ CanIntern(G, e.out, e.id)
             /\ pl' = Interned(G, e.out, e.id)
Iterate(e) == LET ids == {pl[e.t].map[s] : s \in DOMAIN pl[e.t].map}
                  n == Cardinality(ids)
                  ends == e.stop > 0 /\ e.stop <= n
              IN /\ Live(e.t) /\ pl[e.t].ro = 0 /\ Rng(e.ids) \subseteq ids /\ Distinct(e.ids)
                 /\ Len(e.ids) = IF ends THEN e.stop ELSE n
                 /\ e.r = IF ends THEN 1 ELSE 0
                 /\ UNCHANGED hvars
Check(e) == /\ Live(e.t) /\ Rng(e.ids) = DOMAIN pl[e.t].all /\ Len(e.ids) = Len(e.val)
            /\ Ok(\A j \in 1..Len(e.ids) : pl[e.t].all[e.ids[j]] = e.val[j])
            /\ UNCHANGED hvars
New(e) == pl' = (e.t :> None) @@ pl
\* a read-only pool takes nothing new and cannot be destroyed; lookups still work
ReadOnly(e) == Live(e.t) /\ e.r = pl[e.t].ro /\ pl' = [pl EXCEPT ![e.t].ro = e.f]
Try(e) == LET t == e.a[1]
              s == IF e.cmd = "pfind" THEN e.a[2] ELSE pl[t].grow IN
          /\ e.cmd \in {"pfind", "pfin", "pdel"} /\ Live(t)
          /\ e.end = (IF pl[t].ro = 1 /\ (e.cmd = "pdel" \/ s \notin DOMAIN pl[t].map) THEN "abort" ELSE "ok")
          /\ UNCHANGED hvars
Destroy(e) == /\ Live(e.t) /\ pl[e.t].ro = 0
              /\ pl' = IF e.t = G THEN [pl EXCEPT ![G] = None] ELSE Without(pl, e.t)

Do(e) == CASE e.op = "pfind" -> Find(e)
           [] e.op = "pgrow" -> Grow(e)
           [] e.op = "pfin"  -> Finish(e)
           [] e.op = "pcopy" -> Copy(e)
           [] e.op = "pex"   -> Exists(e)
           [] e.op = "pstat" -> Stats(e)
           [] e.op = "puniq" -> Unique(e)
           [] e.op = "pit"   -> Iterate(e)
           [] e.op = "pro"   -> ReadOnly(e)
           [] e.op = "try"   -> Try(e)
           [] e.op = "pchk"  -> Check(e)
           [] e.op = "pnew"  -> New(e)
           [] e.op = "pdel"  -> Destroy(e)
           [] e.op = "reset" -> pl' = (G :> None)
           [] OTHER -> FALSE
=============================================================================
