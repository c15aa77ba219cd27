-------------------------------- MODULE List --------------------------------
(* Lists (maa/list.c): properties C08, C09.  A list is a sequence of elements;
   an element has an identity (which positions denote) and a datum (0 is the
   NULL pointer).  A position is the identity of an element, or 0 (NULL).     *)
EXTENDS Util

VARIABLES lst,   \* list -> sequence of <<identity, datum>>
          nid,   \* next fresh identity
          pos    \* position slot -> identity, 0 for the NULL position

hvars == <<lst, nid, pos>>

HInit == lst = << >> /\ nid = 1 /\ pos = << >>

Live(t) == t \in DOMAIN lst
B(x) == IF x THEN 1 ELSE 0
Data(t) == [j \in 1..Len(lst[t]) |-> lst[t][j][2]]

Set(t, s) == lst' = [lst EXCEPT ![t] = s]
Same == UNCHANGED hvars

New(e)     == lst' = (e.t :> << >>) @@ lst /\ UNCHANGED <<nid, pos>>
Destroy(e) == Live(e.t) /\ lst' = Without(lst, e.t) /\ UNCHANGED <<nid, pos>>
Append1(e) == Live(e.t) /\ Set(e.t, Append(lst[e.t], <<nid, e.d>>)) /\ nid' = nid + 1 /\ UNCHANGED pos
Push(e)    == Live(e.t) /\ Set(e.t, <<<<nid, e.d>>>> \o lst[e.t]) /\ nid' = nid + 1 /\ UNCHANGED pos
Pop(e)     == /\ Live(e.t)
              /\ IF lst[e.t] = << >> THEN e.r = 0 /\ Same
                 ELSE e.r = Head(lst[e.t])[2] /\ Set(e.t, Tail(lst[e.t])) /\ UNCHANGED <<nid, pos>>
Top(e)     == Live(e.t) /\ e.r = (IF lst[e.t] = << >> THEN 0 ELSE Head(lst[e.t])[2]) /\ Same
Inside(t, n) == n >= 1 /\ n <= Len(lst[t])
Get(e)     == Live(e.t) /\ e.r = (IF Inside(e.t, e.n) THEN lst[e.t][e.n][2] ELSE 0) /\ Same
Put(e)     == Live(e.t) /\ Inside(e.t, e.n) /\ Set(e.t, [lst[e.t] EXCEPT ![e.n][2] = e.d]) /\ UNCHANGED <<nid, pos>>
Member(e)  == Live(e.t) /\ e.r = B(\E j \in 1..Len(lst[e.t]) : lst[e.t][j][2] = e.d) /\ Same
Length(e)  == Live(e.t) /\ e.r = Len(lst[e.t]) /\ Same

(* enumeration: in order, each once, until the callback's non-zero answer at visit stop *)
Iter(e) == /\ Live(e.t)
           /\ LET n == Len(lst[e.t])
                  ends == e.stop > 0 /\ e.stop <= n
              IN e.v = Take(Data(e.t), IF ends THEN e.stop ELSE n) /\ e.r = B(ends)
           /\ Same
Iter2(e) == /\ Live(e.a) /\ Live(e.b)
            /\ LET n == Min(Len(lst[e.a]), Len(lst[e.b])) IN
               e.x = Take(Data(e.a), n) /\ e.y = Take(Data(e.b), n)
            /\ Same

\* the dump prints every datum, in order, a line each
Dump(e) == Live(e.t) /\ e.v = Data(e.t) /\ e.bad = 0 /\ Same

Trunc(e) == /\ Live(e.t)
            /\ Set(e.t, IF e.n >= Len(lst[e.t]) THEN lst[e.t] ELSE Take(lst[e.t], e.n))
            /\ UNCHANGED <<nid, pos>>

(* positions *)
Where(t, id) == {j \in 1..Len(lst[t]) : lst[t][j][1] = id}
Holder(id)   == {t \in DOMAIN lst : Where(t, id) # {}}
Usable(p)    == p \in DOMAIN pos /\ (pos[p] = 0 \/ Holder(pos[p]) # {})
HolderOf(p)  == CHOOSE t \in Holder(pos[p]) : TRUE
IndexOf(p)   == CHOOSE j \in Where(HolderOf(p), pos[p]) : TRUE
\* slot q now denotes element j of list t (or NULL); the event shows it
Denote(e, q, t, j) ==
  IF j >= 1 /\ j <= Len(lst[t])
  THEN e.ok = 1 /\ e.d = lst[t][j][2] /\ pos' = (q :> lst[t][j][1]) @@ pos
  ELSE e.ok = 0 /\ e.d = 0 /\ pos' = (q :> 0) @@ pos
First(e)   == Live(e.t) /\ Denote(e, e.p, e.t, 1) /\ UNCHANGED <<lst, nid>>
Last(e)    == Live(e.t) /\ Denote(e, e.p, e.t, Len(lst[e.t])) /\ UNCHANGED <<lst, nid>>
Nth(e)     == Live(e.t) /\ Denote(e, e.p, e.t, e.n) /\ UNCHANGED <<lst, nid>>
Succ(e)    == /\ Usable(e.p)
              /\ IF pos[e.p] = 0 THEN e.ok = 0 /\ e.d = 0 /\ pos' = (e.q :> 0) @@ pos
                 ELSE Denote(e, e.q, HolderOf(e.p), IndexOf(e.p) + 1)
              /\ UNCHANGED <<lst, nid>>
Read(e)    == Usable(e.p) /\ e.r = (IF pos[e.p] = 0 THEN 0 ELSE lst[HolderOf(e.p)][IndexOf(e.p)][2]) /\ Same
Write(e)   == /\ Usable(e.p)
              /\ IF pos[e.p] = 0 THEN Same
                 ELSE lst' = [lst EXCEPT ![HolderOf(e.p)][IndexOf(e.p)][2] = e.d] /\ UNCHANGED <<nid, pos>>
TruncPos(e) == /\ Live(e.t)
               /\ IF e.p < 0 \/ pos[e.p] = 0 THEN Set(e.t, << >>)
                  ELSE pos[e.p] > 0 /\ Where(e.t, pos[e.p]) # {} /\ Set(e.t, Take(lst[e.t], IndexOf(e.p)))
               /\ UNCHANGED <<nid, pos>>

Try(e) == /\ e.end = IF e.cmd = "lset" /\ ~Inside(e.a[1], e.a[2]) THEN "exit1" ELSE "ok"
          /\ Same

Reset == lst' = << >> /\ nid' = 1 /\ pos' = << >>

Do(e) == CASE e.op = "lapp"   -> Append1(e)
           [] e.op = "lpush"  -> Push(e)
           [] e.op = "lpop"   -> Pop(e)
           [] e.op = "ltop"   -> Top(e)
           [] e.op = "lget"   -> Get(e)
           [] e.op = "lset"   -> Put(e)
           [] e.op = "lmem"   -> Member(e)
           [] e.op = "llen"   -> Length(e)
           [] e.op = "liter"  -> Iter(e)
           [] e.op = "lit2"   -> Iter2(e)
           [] e.op = "ldump"  -> Dump(e)
           [] e.op = "ltot"   -> Same        \* ListTotal says what it is
           [] e.op = "ltrunc" -> Trunc(e)
           [] e.op = "ltp"    -> TruncPos(e)
           [] e.op = "lpi"    -> First(e)
           [] e.op = "lpl"    -> Last(e)
           [] e.op = "lpt"    -> Nth(e)
           [] e.op = "lpn"    -> Succ(e)
           [] e.op = "lpg"    -> Read(e)
           [] e.op = "lps"    -> Write(e)
           [] e.op = "lnew"   -> New(e)
           [] e.op = "ldel"   -> Destroy(e)
           [] e.op = "try"    -> Try(e)
           [] e.op = "reset"  -> Reset
           [] OTHER           -> FALSE

LTypeOK == \A t, u \in DOMAIN lst : \A j \in 1..Len(lst[t]), k \in 1..Len(lst[u]) :
             lst[t][j][1] = lst[u][k][1] => t = u /\ j = k    \* identities are unique
=============================================================================
