---------------------------- MODULE StrPoolImpl ----------------------------
(* How maa/string.c does it: a hash table of pointers (chains, looked-up entry
   moved to the front) over a string memory; the global pool is created on
   demand; unique names come from one counter that is never reset.            *)
EXTENDS StrPool, Json
CONSTANTS Pools, Strs0, Prefixes, NPtr, MaxGrow, MaxU, Modes, Ops
VARIABLES cp,    \* pool -> [tab: <<chain, chain>> of pointers, grow: text, g: growing?]; G only once created
          heap,  \* pointer -> string
          nxt,   \* next pointer
          uc,    \* the counter of str_unique
          sv,    \* pool -> strings and bytes stored, lookups, of which from the top, failed (not in the view)
          lab, bad
vars == <<hvars, cp, heap, nxt, uc, sv, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
Hx(s) == " " \o (IF s = "" THEN "-" ELSE s)
Fresh == [tab |-> << << >>, << >> >>, grow |-> "", own |-> {}, ro |-> 0]
Hash(s) == ((Len(s) \div 2) % 2) + 1
CLive == DOMAIN cp
Sv0 == [n |-> 0, b |-> 0, look |-> 0, hit |-> 0, miss |-> 0]
SvOf(t) == IF t \in DOMAIN sv THEN sv[t] ELSE Sv0
\* _str_check_global
Cp1(t) == IF t = G /\ G \notin DOMAIN cp THEN (G :> Fresh) @@ cp ELSE cp
Usable == DOMAIN cp \cup {G}
Chain(c, s) == c.tab[Hash(s)]
Found(c, s) == SelectSeq(Chain(c, s), LAMBDA p : heap[p] = s)
Front(c, s) == IF c.ro = 1 THEN c ELSE [c EXCEPT !.tab[Hash(s)] = Found(c, s) \o SelectSeq(@, LAMBDA p : heap[p] # s)]
Enter(c, s, p) == [c EXCEPT !.tab[Hash(s)] = <<p>> \o @, !.own = @ \cup {p}]
Idle(t) == IF t \in DOMAIN cp THEN cp[t].grow = "" ELSE TRUE

\* looking s up in c; storing a string of n bytes and its NUL
Seek(z, c, s) == LET ch == Chain(c, s) IN
  [z EXCEPT !.look = @ + 1, !.hit = @ + (IF ch # << >> /\ heap[ch[1]] = s THEN 1 ELSE 0),
            !.miss = @ + (IF Found(c, s) = << >> THEN 1 ELSE 0)]
Save(z, n) == [z EXCEPT !.n = @ + 1, !.b = @ + n + 1]
Upd(t, z) == sv' = (t :> z) @@ sv

CFind(t, s) ==
  LET c == Cp1(t)[t] IN
  IF Found(c, s) # << >>
  THEN /\ cp' = (t :> Front(c, s)) @@ cp /\ UNCHANGED <<heap, nxt, uc>> /\ Upd(t, Seek(SvOf(t), c, s))
       /\ L([op |-> "pfind", t |-> t, s |-> s, id |-> Found(c, s)[1], out |-> s], "pfind" \o T2(t) \o Hx(s))
  ELSE IF c.ro = 1
  THEN /\ "ro" \in Ops /\ Idle(t) /\ UNCHANGED <<cp, heap, nxt, uc, sv>>
       /\ L([op |-> "try", cmd |-> "pfind", a |-> <<t, s>>, end |-> "abort"], "!pfind" \o T2(t) \o Hx(s))
  ELSE /\ nxt <= NPtr /\ Idle(t)
       /\ cp' = (t :> Enter(c, s, nxt)) @@ cp /\ heap' = (nxt :> s) @@ heap /\ nxt' = nxt + 1 /\ UNCHANGED uc
       /\ Upd(t, Save(Seek(SvOf(t), c, s), Size(s)))
       /\ L([op |-> "pfind", t |-> t, s |-> s, id |-> nxt, out |-> s], "pfind" \o T2(t) \o Hx(s))
CCopy(t, s) == /\ nxt <= NPtr /\ Idle(t) /\ heap' = (nxt :> s) @@ heap /\ nxt' = nxt + 1 /\ UNCHANGED uc
               /\ cp' = (t :> [Cp1(t)[t] EXCEPT !.own = @ \cup {nxt}]) @@ cp /\ Upd(t, Save(SvOf(t), Size(s)))
               /\ L([op |-> "pcopy", t |-> t, s |-> s, id |-> nxt, out |-> s \o "00"], "pcopy" \o T2(t) \o Hx(s))
CExists(t, s) == LET c == Cp1(t)[t] IN
  /\ cp' = (t :> Front(c, s)) @@ cp /\ UNCHANGED <<heap, nxt, uc>> /\ Upd(t, Seek(SvOf(t), c, s))
  /\ L([op |-> "pex", t |-> t, s |-> s, r |-> IF Found(c, s) # << >> THEN 1 ELSE 0], "pex" \o T2(t) \o Hx(s))
CGrow(t, s) == /\ Len(Cp1(t)[t].grow \o s) <= MaxGrow
               /\ cp' = (t :> [Cp1(t)[t] EXCEPT !.grow = @ \o s]) @@ cp /\ UNCHANGED <<heap, nxt, uc, sv>>
               /\ L([op |-> "pgrow", t |-> t, s |-> s], "pgrow" \o T2(t) \o Hx(s))
\* the finished copy is thrown away (kept, but unknown) if the string is there already
CFin(t) == LET c == Cp1(t)[t] s == c.grow IN
  IF c.ro = 1 /\ Found(c, s) = << >>
  THEN UNCHANGED <<cp, heap, nxt, uc, sv>> /\ L([op |-> "try", cmd |-> "pfin", a |-> <<t>>, end |-> "abort"], "!pfin" \o T2(t))
  ELSE
  /\ IF Found(c, s) # << >>
     THEN cp' = (t :> [Front(c, s) EXCEPT !.grow = ""]) @@ cp /\ UNCHANGED <<heap, nxt>>
     ELSE nxt <= NPtr /\ cp' = (t :> [Enter(c, s, nxt) EXCEPT !.grow = ""]) @@ cp /\ heap' = (nxt :> s) @@ heap /\ nxt' = nxt + 1
  /\ UNCHANGED uc /\ Upd(t, Seek(Save(SvOf(t), Size(s) + 1), c, s))
  /\ L([op |-> "pfin", t |-> t, id |-> IF Found(c, s) # << >> THEN Found(c, s)[1] ELSE nxt, out |-> s], "pfin" \o T2(t))
Digits(n) == "3" \o ToString(n)
RECURSIVE Probe(_, _, _)
Probe(c, p, n) == IF Found(c, p \o Digits(n)) # << >> THEN Probe(c, p, n + 1) ELSE n
CUniq(p) == LET c == Cp1(G)[G] n == Probe(c, p, uc) s == p \o Digits(n) IN
  /\ nxt <= NPtr /\ n <= MaxU /\ Idle(G)
  /\ cp' = (G :> Enter(c, s, nxt)) @@ cp /\ heap' = (nxt :> s) @@ heap /\ nxt' = nxt + 1 /\ uc' = n + 1
  /\ Upd(G, Save([SvOf(G) EXCEPT !.look = @ + n - uc + 2, !.miss = @ + 2], Size(s)))
  /\ L([op |-> "puniq", t |-> G, s |-> p, id |-> nxt, out |-> s], "puniq" \o Hx(p))
Entries(t) == cp[t].tab[1] \o cp[t].tab[2]
CIter(t, m, stop) == LET n == Len(Entries(t)) ends == m # 2 /\ stop > 0 /\ stop <= n IN
  /\ UNCHANGED <<cp, heap, nxt, uc, sv>>
  /\ L([op |-> "pit", t |-> t, stop |-> IF m = 2 THEN 0 ELSE stop, r |-> IF ends THEN 1 ELSE 0,
        ids |-> IF ends THEN Take(Entries(t), stop) ELSE Entries(t)], "pit" \o T2(t) \o T2(m) \o T2(stop))
CNew(t) == t \notin DOMAIN cp /\ cp' = (t :> Fresh) @@ cp /\ UNCHANGED <<heap, nxt, uc>> /\ Upd(t, Sv0) /\ L([op |-> "pnew", t |-> t], "pnew" \o T2(t))
CDel(t) == IF t \in DOMAIN cp /\ Cp1(t)[t].ro = 1
           THEN UNCHANGED <<cp, heap, nxt, uc, sv>> /\ L([op |-> "try", cmd |-> "pdel", a |-> <<t>>, end |-> "abort"], "!pdel" \o T2(t))
           ELSE
           /\ cp' = Without(cp, t) /\ UNCHANGED <<nxt, uc>> /\ sv' = Without(sv, t)
           /\ heap' = IF t \in DOMAIN cp THEN [p \in DOMAIN heap \ cp[t].own |-> heap[p]] ELSE heap
           /\ L([op |-> "pdel", t |-> t], "pdel" \o T2(t))
CRo(t, f) == cp' = [cp EXCEPT ![t].ro = f] /\ UNCHANGED <<heap, nxt, uc, sv>>
             /\ L([op |-> "pro", t |-> t, f |-> f, r |-> cp[t].ro], "pro" \o T2(t) \o T2(f))
CChk(t) == LET s == IF t \in DOMAIN cp THEN SelectSeq([j \in 1..NPtr |-> j], LAMBDA p : p \in cp[t].own) ELSE << >> IN
           /\ UNCHANGED <<cp, heap, nxt, uc, sv>>
           /\ L([op |-> "pchk", t |-> t, ids |-> s, val |-> [j \in 1..Len(s) |-> heap[s[j]]]], "pchk" \o T2(t))
\* str_pool_get_stats, str_get_stats: nothing while there is no pool
CStat(t) == LET z == SvOf(t) IN
            /\ Idle(t) /\ UNCHANGED <<cp, heap, nxt, uc, sv>>
            /\ L([op |-> "pstat", t |-> t, count |-> z.n, bytes |-> z.b, retr |-> z.look, hits |-> z.hit, misses |-> z.miss,
                  p |-> <<z.n, z.b, z.look, z.hit, z.miss>>], "pstat" \o T2(t))

Init == HInit /\ sv = << >> /\ cp = << >> /\ heap = << >> /\ nxt = 1 /\ uc = 1 /\ lab = "" /\ bad = FALSE
Targets == (DOMAIN cp \ {G}) \cup (IF "global" \in Ops THEN {G} ELSE {})
Next == \/ \E t \in Pools : CNew(t)
        \/ \E t \in Targets :
             \/ CDel(t) \/ CChk(t) \/ CFin(t) \/ CStat(t)
             \/ \E s \in Strs0 : CFind(t, s) \/ CExists(t, s) \/ CCopy(t, s) \/ CGrow(t, s)
        \/ "ro" \in Ops /\ \E t \in DOMAIN cp \ {G} : \E f \in {0, 1} : CRo(t, f)
        \/ \E t \in {u \in DOMAIN cp \ {G} : cp[u].ro = 0} : \E m \in Modes : \E stop \in 0..(Len(Entries(t)) + 1) : CIter(t, m, stop)
        \/ \E p \in Prefixes : CUniq(p)
Spec == Init /\ [][Next]_vars
View == <<bad, cp, heap, nxt, uc>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == \A t \in DOMAIN cp : /\ Distinct(Entries(t)) /\ Rng(Entries(t)) \subseteq cp[t].own /\ cp[t].own \subseteq DOMAIN heap
                              /\ \A j, k \in 1..Len(Entries(t)) : heap[Entries(t)[j]] = heap[Entries(t)[k]] => j = k
=============================================================================
