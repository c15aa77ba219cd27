------------------------------ MODULE HashImpl ------------------------------
(* How maa/hash.c does it: chained buckets, growth to the next prime from
   three times the size, move-to-front lookup, positions that are pointers
   into a chain, one read-only flag.  Every step of this model yields the event
   a caller would observe; Judge lets the abstract system take it in lock
   step.  "bad" is the state in which the abstract system cannot.            *)
EXTENDS Hash, Json
CONSTANTS Kinds,    \* hash functions explored
          Tables,   \* tables
          Keys,     \* key objects
          Slots,    \* position slots
          Ops       \* which operations are explored
VARIABLES ct,   \* table -> concrete state
          cp,   \* slot -> concrete position
          lab, bad

vars == <<hvars, ct, cp, lab, bad>>

RECURSIVE NextPrime(_)
NextPrime(n) == IF n % 2 = 1 /\ IsPrime(n) THEN n ELSE NextPrime(n + 1)

Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE
                             ELSE UNCHANGED hvars /\ bad' = TRUE

HashVal(kind, c) == IF HashOf(kind, c) >= 0 THEN HashOf(kind, c) ELSE 7 * c + 1
Empty(size) == [h \in 0..(size - 1) |-> << >>]
CNew(kind) == [kind |-> kind, size |-> NextPrime(3), b |-> Empty(3), ro |-> 0,
               n |-> 0, rez |-> 0, retr |-> 0, hits |-> 0, miss |-> 0]
H(C, k) == HashVal(C.kind, Cls(C.kind, k)) % C.size

\* all cells in bucket order, as an enumeration walks them
RECURSIVE Cells(_, _)
Cells(C, h) == IF h = C.size THEN << >> ELSE C.b[h] \o Cells(C, h + 1)
Scan(C) == Cells(C, 0)

RECURSIVE Rehash(_, _)
Rehash(C, cells) == IF cells = << >> THEN C
                    ELSE LET x == Head(cells) IN
                         Rehash([C EXCEPT !.b[H(C, x[1])] = <<x>> \o @], Tail(cells))
Grow(C) == IF 2 * C.n > C.size
           THEN LET s == NextPrime(3 * C.size) IN
                Rehash([C EXCEPT !.size = s, !.b = Empty(s), !.rez = @ + 1], Scan(C))
           ELSE C

\* index of the cell with key k in its chain, 0 if absent
Find(C, k) == LET ch == C.b[H(C, k)]
                  S == {j \in 1..Len(ch) : Cls(C.kind, ch[j][1]) = Cls(C.kind, k)}
              IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
DelAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

T2(t) == " " \o ToString(t)
L(e, s) == Judge(e) /\ lab' = s

CIns(t, k, d) ==
  /\ ct[t].ro = 0
  /\ LET G == Grow(ct[t]) IN
     IF Find(G, k) # 0
     THEN ct' = [ct EXCEPT ![t] = G] /\ L([op |-> "hins", t |-> t, k |-> k, d |-> d, r |-> 1], "hins" \o T2(t) \o T2(k) \o T2(d))
     ELSE ct' = [ct EXCEPT ![t] = [G EXCEPT !.b[H(G, k)] = <<<<k, d>>>> \o @, !.n = @ + 1]]
          /\ L([op |-> "hins", t |-> t, k |-> k, d |-> d, r |-> 0], "hins" \o T2(t) \o T2(k) \o T2(d))
  /\ UNCHANGED cp

CRem(t, k) ==
  /\ ct[t].ro = 0
  /\ LET C == ct[t]
         j == Find(C, k)
     IN /\ ct' = IF j = 0 THEN ct ELSE [ct EXCEPT ![t].b[H(C, k)] = DelAt(@, j), ![t].n = @ - 1]
        /\ L([op |-> "hrem", t |-> t, k |-> k, r |-> IF j = 0 THEN 1 ELSE 0], "hrem" \o T2(t) \o T2(k))
  /\ UNCHANGED cp

CGet(t, k) ==
  /\ LET C == ct[t]
         h == H(C, k)
         j == Find(C, k)
         N == [C EXCEPT !.retr = @ + 1, !.hits = IF j = 1 THEN @ + 1 ELSE @, !.miss = IF j = 0 THEN @ + 1 ELSE @]
     IN /\ ct' = [ct EXCEPT ![t] = IF j > 1 /\ C.ro = 0
                                   THEN [N EXCEPT !.b[h] = <<@[j]>> \o DelAt(@, j)] ELSE N]
        /\ L([op |-> "hget", t |-> t, k |-> k, r |-> IF j = 0 THEN 0 ELSE C.b[h][j][2]], "hget" \o T2(t) \o T2(k))
  /\ UNCHANGED cp

CRO(t, f) ==
  /\ ct' = [ct EXCEPT ![t].ro = f] /\ UNCHANGED cp
  /\ L([op |-> "hro", t |-> t, f |-> f, r |-> ct[t].ro], "hro" \o T2(t) \o T2(f))

CPI(t, p) ==
  LET s == Scan(ct[t])
      lb == "hpi" \o T2(t) \o T2(p)
  IN IF s = << >>
     THEN /\ UNCHANGED ct /\ cp' = (p :> -1) @@ cp
          /\ L([op |-> "hpi", t |-> t, p |-> p, k |-> -1, d |-> 0, ok |-> 0], lb)
     ELSE /\ ct' = [ct EXCEPT ![t].ro = 1] /\ cp' = (p :> s[1][1]) @@ cp
          /\ L([op |-> "hpi", t |-> t, p |-> p, k |-> s[1][1], d |-> s[1][2], ok |-> 1], lb)

CPN(t, p) ==
  /\ PosUsable(p) /\ pos[p].t = t
  /\ LET C == ct[t]
         k == cp[p]
         h == H(C, k)
         j == Find(C, k)
         rest == DelAt(SubSeq(C.b[h], j, Len(C.b[h])), 1) \o Cells(C, h + 1)
         lb == "hpn" \o T2(t) \o T2(p)
     IN IF rest = << >>
        THEN /\ ct' = [ct EXCEPT ![t].ro = 0] /\ cp' = [cp EXCEPT ![p] = -1]
             /\ L([op |-> "hpn", t |-> t, p |-> p, k |-> -1, d |-> 0, ok |-> 0], lb)
        ELSE /\ UNCHANGED ct /\ cp' = [cp EXCEPT ![p] = rest[1][1]]
             /\ L([op |-> "hpn", t |-> t, p |-> p, k |-> rest[1][1], d |-> rest[1][2], ok |-> 1], lb)

RECURSIVE DelAll(_, _)
DelAll(C, ks) == IF ks = << >> THEN C
                 ELSE LET j == Find(C, Head(ks)) IN
                      DelAll([C EXCEPT !.b[H(C, Head(ks))] = DelAt(@, j), !.n = @ - 1], Tail(ks))
CIt(t, stop, D) ==
  /\ D # {} => ct[t].ro = 0
  /\ LET s == Scan(ct[t])
         n == IF stop > 0 /\ stop <= Len(s) THEN stop ELSE Len(s)
         k == [j \in 1..n |-> s[j][1]]
         gone == SelectSeq(k, LAMBDA x : x \in D)
         RECURSIVE Str(_)
         Str(S) == IF S = {} THEN "" ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN T2(m) \o Str(S \ {m})
     IN /\ ct' = [ct EXCEPT ![t] = DelAll(@, gone)]
        /\ L([op |-> "hit", t |-> t, stop |-> stop, r |-> IF stop > 0 /\ stop <= Len(s) THEN 1 ELSE 0,
              k |-> k, d |-> [j \in 1..n |-> s[j][2]],
              del |-> IF D = {} THEN << >> ELSE CHOOSE q \in [1..Cardinality(D) -> D] : Rng(q) = D,
              dr |-> [j \in 1..n |-> IF s[j][1] \in D THEN 0 ELSE -1]],
             "hit" \o T2(t) \o T2(stop % 2) \o T2(stop) \o Str(D))
  /\ UNCHANGED cp

MaxOf(S) == CHOOSE x \in S \cup {0} : \A y \in S : x >= y
CStats(t) ==
  LET C == ct[t]
      used == {h \in 0..(C.size - 1) : C.b[h] # << >>}
  IN /\ UNCHANGED <<ct, cp>>
     /\ L([op |-> "hst", t |-> t, size |-> C.size, rez |-> C.rez, entries |-> C.n,
           used |-> Cardinality(used), single |-> Cardinality({h \in used : Len(C.b[h]) = 1}),
           maxlen |-> MaxOf({Len(C.b[h]) : h \in used}), retr |-> C.retr, hits |-> C.hits, misses |-> C.miss,
           p |-> <<C.rez, C.size, C.n, Cardinality(used), Cardinality({h \in used : Len(C.b[h]) = 1}), MaxOf({Len(C.b[h]) : h \in used})>>
                 \o (IF used = {} THEN << >> ELSE <<(20 * C.n + Cardinality(used)) \div (2 * Cardinality(used))>>)
                 \o <<C.retr, C.hits, C.miss>>],
          "hst" \o T2(t))

CTry(t, cmd) ==
  /\ UNCHANGED <<ct, cp>>
  /\ L([op |-> "try", cmd |-> cmd, a |-> <<t, 0, 1>>, end |-> IF ct[t].ro = 1 /\ cmd # "hget" THEN "abort" ELSE "ok"],
       "!" \o cmd \o T2(t) \o " 0 1")

Init == /\ HInit /\ bad = FALSE /\ lab = ""
        /\ ct = << >> /\ cp = << >>
Make(t) == /\ t \notin DOMAIN ct
           /\ \E kind \in Kinds : /\ ct' = (t :> CNew(kind)) @@ ct
                                  /\ L([op |-> "hnew", t |-> t, kind |-> kind], "hnew" \o T2(t) \o T2(kind))
           /\ UNCHANGED cp
Drop2(t) == /\ ct[t].ro = 0 /\ ct' = Without(ct, t)
            /\ cp' = [p \in {q \in DOMAIN cp : q \in DOMAIN pos /\ pos[q].t # t} |-> cp[p]]
            /\ L([op |-> "hdel", t |-> t], "hdel" \o T2(t))

Next == \/ \E t \in Tables : Make(t)
        \/ \E t \in DOMAIN ct :
             \/ "map" \in Ops /\ \E k \in Keys : CIns(t, k, k + 1) \/ CRem(t, k)
             \/ "get" \in Ops /\ \E k \in Keys : CGet(t, k)
             \/ "del" \in Ops /\ Drop2(t)
             \/ "ro"  \in Ops /\ \E f \in {0, 1} : CRO(t, f)
             \/ "pos" \in Ops /\ \E p \in Slots : CPI(t, p) \/ CPN(t, p)
             \/ "it"  \in Ops /\ (\/ \E stop \in 0..2 : CIt(t, stop, {})
                                 \/ \E k \in Keys : CIt(t, 0, {k})
                                 \/ CIt(t, 0, Keys))
             \/ "st"  \in Ops /\ CStats(t)
             \/ "try" \in Ops /\ \E cmd \in {"hins", "hrem", "hdel", "hget"} : CTry(t, cmd)
Spec == Init /\ [][Next]_vars

\* counters are abstracted away; what remains is finite
View == <<bad, [t \in DOMAIN ct |-> <<ct[t].kind, ct[t].size, ct[t].b, ct[t].ro>>], cp,
          [p \in DOMAIN pos |-> PosUsable(p)]>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))

Good == ~bad
\* implementation invariants
Shape == \A t \in DOMAIN ct : LET C == ct[t] IN
           /\ C.n = Len(Scan(C))
           /\ \A h \in 0..(C.size - 1) : \A j \in 1..Len(C.b[h]) : H(C, C.b[h][j][1]) = h
           /\ Distinct([j \in 1..C.n |-> Cls(C.kind, Scan(C)[j][1])])
=============================================================================
