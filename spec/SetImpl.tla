------------------------------- MODULE SetImpl -------------------------------
(* How maa/set.c does it: the bucket chains of the hash table without data,
   algebra by enumerating one operand and looking up in the other while that
   one is marked read-only, callback enumeration under a saved mark.  Runs in
   lock step with the abstract system (see HashImpl).                         *)
EXTENDS Set, Json
CONSTANTS Kinds, Tables, Keys, Slots, Ops
VARIABLES ct, cp, lab, bad
vars == <<hvars, ct, cp, lab, bad>>

RECURSIVE NextPrime(_)
NextPrime(n) == IF n % 2 = 1 /\ IsPrime(n) THEN n ELSE NextPrime(n + 1)
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)

HashVal(kind, c) == IF HashOf(kind, c) >= 0 THEN HashOf(kind, c) ELSE 7 * c + 1
Empty(size) == [h \in 0..(size - 1) |-> << >>]
CNew(kind) == [kind |-> kind, size |-> NextPrime(3), b |-> Empty(3), ro |-> 0,
               n |-> 0, rez |-> 0, retr |-> 0, hits |-> 0, miss |-> 0]
H(C, k) == HashVal(C.kind, Cls(C.kind, k)) % C.size
RECURSIVE Cells(_, _)
Cells(C, h) == IF h = C.size THEN << >> ELSE C.b[h] \o Cells(C, h + 1)
Scan(C) == Cells(C, 0)
RECURSIVE Rehash(_, _)
Rehash(C, cells) == IF cells = << >> THEN C
                    ELSE Rehash([C EXCEPT !.b[H(C, Head(cells))] = <<Head(cells)>> \o @], Tail(cells))
Grow(C) == IF 2 * C.n > C.size
           THEN LET s == NextPrime(3 * C.size) IN
                Rehash([C EXCEPT !.size = s, !.b = Empty(s), !.rez = @ + 1], Scan(C))
           ELSE C
Find(C, k) == LET ch == C.b[H(C, k)]
                  S == {j \in 1..Len(ch) : Cls(C.kind, ch[j]) = Cls(C.kind, k)}
              IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
DelAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

\* the C functions on one concrete set
FIns(C, k) == LET G == Grow(C) IN
              IF Find(G, k) # 0 THEN G ELSE [G EXCEPT !.b[H(G, k)] = <<k>> \o @, !.n = @ + 1]
FDel(C, k) == LET j == Find(C, k) IN
              IF j = 0 THEN C ELSE [C EXCEPT !.b[H(C, k)] = DelAt(@, j), !.n = @ - 1]
FMem(C, k) == LET j == Find(C, k)
                  N == [C EXCEPT !.retr = @ + 1, !.hits = IF j = 1 THEN @ + 1 ELSE @, !.miss = IF j = 0 THEN @ + 1 ELSE @]
              IN IF j > 1 /\ C.ro = 0 THEN [N EXCEPT !.b[H(C, k)] = <<@[j]>> \o DelAt(@, j)] ELSE N
RECURSIVE FoldIns(_, _), FoldDel(_, _), FoldMem(_, _)
FoldIns(C, s) == IF s = << >> THEN C ELSE FoldIns(FIns(C, Head(s)), Tail(s))
FoldDel(C, s) == IF s = << >> THEN C ELSE FoldDel(FDel(C, Head(s)), Tail(s))
FoldMem(C, s) == IF s = << >> THEN C ELSE FoldMem(FMem(C, Head(s)), Tail(s))
\* look everything in s up in C marked read-only
Consult(C, s) == [FoldMem([C EXCEPT !.ro = 1], s) EXCEPT !.ro = C.ro]

CIns(t, k) == /\ ct[t].ro = 0
              /\ ct' = [ct EXCEPT ![t] = FIns(@, k)] /\ UNCHANGED cp
              /\ L([op |-> "sins", t |-> t, k |-> k, r |-> IF Find(ct[t], k) # 0 THEN 1 ELSE 0], "sins" \o T2(t) \o T2(k))
CRem(t, k) == /\ ct[t].ro = 0
              /\ ct' = [ct EXCEPT ![t] = FDel(@, k)] /\ UNCHANGED cp
              /\ L([op |-> "srem", t |-> t, k |-> k, r |-> IF Find(ct[t], k) = 0 THEN 1 ELSE 0], "srem" \o T2(t) \o T2(k))
CMem(t, k) == /\ ct' = [ct EXCEPT ![t] = FMem(@, k)] /\ UNCHANGED cp
              /\ L([op |-> "smem", t |-> t, k |-> k, r |-> IF Find(ct[t], k) = 0 THEN 0 ELSE 1], "smem" \o T2(t) \o T2(k))
CCount(t) == UNCHANGED <<ct, cp>> /\ L([op |-> "scount", t |-> t, r |-> ct[t].n], "scount" \o T2(t))
CRO(t, f) == /\ ct' = [ct EXCEPT ![t].ro = f] /\ UNCHANGED cp
             /\ L([op |-> "sro", t |-> t, f |-> f, r |-> ct[t].ro], "sro" \o T2(t) \o T2(f))

CAlg(o, z, a, b) ==
  /\ ct[a].kind = ct[b].kind
  /\ o \in {"+", "-"} => ct[a].ro = 0 /\ z = a
  /\ o \notin {"+", "-"} => z \notin DOMAIN ct \* a new set
  /\ LET A == ct[a]
         B == ct[b]
         N == CNew(A.kind)
         in  == SelectSeq(Scan(A), LAMBDA x : Find(B, x) # 0)
         out == SelectSeq(Scan(A), LAMBDA x : Find(B, x) = 0)
         R == CASE o = "u" -> FoldIns(FoldIns(N, Scan(A)), Scan(B))
                [] o = "i" -> FoldIns(N, in)
                [] o = "d" -> FoldIns(N, out)
                [] o = "+" -> IF a = b THEN A ELSE FoldIns(A, Scan(B))
                [] o = "-" -> FoldDel(A, Scan(B))
         B2 == IF o \in {"i", "d"} THEN Consult(B, Scan(A)) ELSE B
         c2 == (z :> R) @@ (b :> B2) @@ ct
     IN /\ ct' = c2 /\ UNCHANGED cp
        /\ L([op |-> "salg", o |-> o, z |-> z, a |-> a, b |-> b, same |-> IF o \in {"+", "-"} THEN 1 ELSE 0,
              ez |-> Scan(R), cz |-> R.n, mz |-> R.ro,
              ea |-> Scan(c2[a]), ca |-> c2[a].n, ma |-> c2[a].ro,
              eb |-> Scan(c2[b]), cb |-> c2[b].n, mb |-> c2[b].ro],
             "salg " \o o \o T2(z) \o T2(a) \o T2(b))
CEq(a, b) ==
  /\ ct[a].kind = ct[b].kind
  /\ LET s == Scan(ct[a])
         eq == ct[a].n = ct[b].n /\ \A j \in 1..Len(s) : Find(ct[b], s[j]) # 0
     IN /\ ct' = IF ct[a].n = ct[b].n THEN [ct EXCEPT ![b] = Consult(@, s)] ELSE ct
        /\ L([op |-> "seq", a |-> a, b |-> b, r |-> IF eq THEN 1 ELSE 0, ma |-> ct[a].ro, mb |-> ct[b].ro],
             "seq" \o T2(a) \o T2(b))
  /\ UNCHANGED cp
CMismatch(a, b) ==
  /\ ct[a].kind # ct[b].kind
  /\ UNCHANGED <<ct, cp>>
  /\ \E o \in {"u", "i", "d", "+", "-", "="} :
       IF o = "=" THEN L([op |-> "try", cmd |-> "seq", a |-> <<a, b>>, end |-> "exit1"], "!seq" \o T2(a) \o T2(b))
       ELSE L([op |-> "try", cmd |-> "salg", a |-> <<o, 9, a, b>>, end |-> "exit1"], "!salg " \o o \o " 9" \o T2(a) \o T2(b))

CPI(t, p) ==
  LET s == Scan(ct[t])
      lb == "spi" \o T2(t) \o T2(p)
  IN IF s = << >>
     THEN /\ UNCHANGED ct /\ cp' = (p :> -1) @@ cp
          /\ L([op |-> "spi", t |-> t, p |-> p, k |-> -1, ok |-> 0], lb)
     ELSE /\ ct' = [ct EXCEPT ![t].ro = 1] /\ cp' = (p :> s[1]) @@ cp
          /\ L([op |-> "spi", t |-> t, p |-> p, k |-> s[1], ok |-> 1], lb)
CPN(t, p) ==
  /\ PosUsable(p) /\ pos[p].t = t
  /\ LET C == ct[t]
         h == H(C, cp[p])
         rest == DelAt(SubSeq(C.b[h], Find(C, cp[p]), Len(C.b[h])), 1) \o Cells(C, h + 1)
         lb == "spn" \o T2(t) \o T2(p)
     IN IF rest = << >>
        THEN /\ ct' = [ct EXCEPT ![t].ro = 0] /\ cp' = [cp EXCEPT ![p] = -1]
             /\ L([op |-> "spn", t |-> t, p |-> p, k |-> -1, ok |-> 0], lb)
        ELSE /\ UNCHANGED ct /\ cp' = [cp EXCEPT ![p] = rest[1]]
             /\ L([op |-> "spn", t |-> t, p |-> p, k |-> rest[1], ok |-> 1], lb)

(* callback enumeration, stopping at visit stop (0: never); at the first visit the callback
   looks up element m and tries to insert m, remove m and destroy the set *)
CIt(t, stop, m) ==
  /\ LET C == ct[t]
         s == Scan(C)
         n == IF stop > 0 /\ stop <= Len(s) THEN stop ELSE Len(s)
         act == IF n = 0 \/ m < 0 THEN << >>
                ELSE <<<<"m", m, IF Find(C, m) = 0 THEN 0 ELSE 1>>, <<"i", m, 1000>>, <<"r", m, 1000>>, <<"x", 0, 1000>>>>
     IN /\ ct' = IF act = << >> THEN ct ELSE [ct EXCEPT ![t] = Consult(C, <<m>>)]
        /\ L([op |-> "sit", t |-> t, stop |-> stop, r |-> IF stop > 0 /\ stop <= Len(s) THEN 1 ELSE 0,
              k |-> Take(s, n), act |-> act],
             "sit" \o T2(t) \o T2(stop % 2) \o T2(stop)
               \o IF m < 0 THEN "" ELSE " m" \o ToString(m) \o " i" \o ToString(m) \o " r" \o ToString(m) \o " x0")
  /\ UNCHANGED cp

MaxOf(S) == CHOOSE x \in S \cup {0} : \A y \in S : x >= y
CStats(t) ==
  LET C == ct[t]
      used == {h \in 0..(C.size - 1) : C.b[h] # << >>}
  IN /\ UNCHANGED <<ct, cp>>
     /\ L([op |-> "sst", t |-> t, size |-> C.size, rez |-> C.rez, entries |-> C.n,
           used |-> Cardinality(used), single |-> Cardinality({h \in used : Len(C.b[h]) = 1}),
           maxlen |-> MaxOf({Len(C.b[h]) : h \in used}), retr |-> C.retr, hits |-> C.hits, misses |-> C.miss,
           p |-> <<C.rez, C.size, C.n, Cardinality(used), Cardinality({h \in used : Len(C.b[h]) = 1}), MaxOf({Len(C.b[h]) : h \in used})>>
                 \o (IF used = {} THEN << >> ELSE <<(20 * C.n + Cardinality(used)) \div (2 * Cardinality(used))>>)
                 \o <<C.retr, C.hits, C.miss>>],
          "sst" \o T2(t))
CTry(t, cmd) ==
  /\ UNCHANGED <<ct, cp>>
  /\ L([op |-> "try", cmd |-> cmd, a |-> <<t, 0>>, end |-> IF ct[t].ro = 1 /\ cmd # "smem" THEN "abort" ELSE "ok"],
       "!" \o cmd \o T2(t) \o " 0")

Init == HInit /\ bad = FALSE /\ lab = "" /\ ct = << >> /\ cp = << >>
Make(t) == /\ t \notin DOMAIN ct
           /\ \E kind \in Kinds : /\ ct' = (t :> CNew(kind)) @@ ct
                                  /\ L([op |-> "snew", t |-> t, kind |-> kind], "snew" \o T2(t) \o T2(kind))
           /\ UNCHANGED cp
Drop2(t) == /\ ct[t].ro = 0 /\ ct' = Without(ct, t)
            /\ cp' = [p \in {q \in DOMAIN cp : q \in DOMAIN pos /\ pos[q].t # t} |-> cp[p]]
            /\ L([op |-> "sdel", t |-> t], "sdel" \o T2(t))

Next == \/ \E t \in Tables : Make(t)
        \/ \E t \in DOMAIN ct :
             \/ "map" \in Ops /\ \E k \in Keys : CIns(t, k) \/ CRem(t, k)
             \/ "mem" \in Ops /\ (CCount(t) \/ \E k \in Keys : CMem(t, k))
             \/ "del" \in Ops /\ Drop2(t)
             \/ "ro"  \in Ops /\ \E f \in {0, 1} : CRO(t, f)
             \/ "pos" \in Ops /\ \E p \in Slots : CPI(t, p) \/ CPN(t, p)
             \/ "it"  \in Ops /\ \E stop \in 0..2 : \E m \in Keys \cup {-1} : CIt(t, stop, m)
             \/ "st"  \in Ops /\ CStats(t)
             \/ "try" \in Ops /\ \E cmd \in {"sins", "srem", "sdel", "smem"} : CTry(t, cmd)
             \/ "alg" \in Ops /\ \E u \in DOMAIN ct : \/ CEq(t, u)
                                                      \/ CMismatch(t, u)
                                                      \/ \E o \in {"u", "i", "d"}, z \in Tables : CAlg(o, z, t, u)
                                                      \/ \E o \in {"+", "-"} : CAlg(o, t, t, u)
Spec == Init /\ [][Next]_vars

View == <<bad, [t \in DOMAIN ct |-> <<ct[t].kind, ct[t].size, ct[t].b, ct[t].ro>>], cp,
          [p \in DOMAIN pos |-> PosUsable(p)]>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))

Good == ~bad
Shape == \A t \in DOMAIN ct : LET C == ct[t] IN
           /\ C.n = Len(Scan(C))
           /\ \A h \in 0..(C.size - 1) : \A j \in 1..Len(C.b[h]) : H(C, C.b[h][j]) = h
           /\ Distinct([j \in 1..C.n |-> Cls(C.kind, Scan(C)[j])])
=============================================================================
