------------------------------- MODULE ProcImpl -------------------------------
(* How maa/pr.c does it: the kernel's descriptor tables (lowest free number,
   fork copies the table), a table from descriptor to child id, the order in
   which the child connects and closes, and what then keeps pipes open.       *)
EXTENDS Proc, Json
CONSTANTS NKid, Modes, Ops, Closed     \* Closed: standard descriptors the caller does not have
VARIABLES ptab,   \* the caller's table: descriptor -> [o, m]
          trk,    \* _pr_objects
          kids,   \* child -> [tab, st, code]; st: "run", "told", "zomb", "gone"
          slot,   \* the driver's names for descriptors
          np, ask,
          lab, bad
vars == <<hvars, ptab, trk, kids, slot, np, ask, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
CloseAll(T, S) == [fd \in DOMAIN T \ S |-> T[fd]]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Tab(T) == SeqOf({<<fd, T[fd].o, T[fd].m>> : fd \in DOMAIN T})
Std == CloseAll((0 :> [o |-> "/i", m |-> "r"]) @@ (1 :> [o |-> "/o", m |-> "w"]) @@ (2 :> [o |-> "/e", m |-> "w"]), Closed)
\* once the caller has raised its limit and taken the descriptors below for itself (marked by slot 63), new ones are higher than any before
Lowest == IF 63 \in DOMAIN slot THEN 30 ELSE 3
Free(T) == CHOOSE x \in Lowest..50 : x \notin DOMAIN T /\ \A y \in Lowest..(x - 1) : y \in DOMAIN T
Pipe(n) == "pipe:[" \o ToString(n)
Kstates == SeqOf({<<c, IF kids[c].st = "gone" THEN "gone" ELSE IF kids[c].st = "zomb" THEN "ended" ELSE "run">> : c \in DOMAIN kids})
KstatesOf(K) == SeqOf({<<c, IF K[c].st = "gone" THEN "gone" ELSE IF K[c].st = "zomb" THEN "ended" ELSE "run">> : c \in DOMAIN K})
Ch(m, j) == SubSeq(m, j, j)
\* the pipes: sequence of [t: table, p: stream -> <<read end, write end>>]
RECURSIVE MkPipes(_, _, _, _, _)
MkPipes(T, P, n, m, j) ==
  IF j > 3 THEN [t |-> T, p |-> P, n |-> n]
  ELSE IF Ch(m, j) # "c" THEN MkPipes(T, P, n, m, j + 1)
  ELSE LET r == Free(T) T1 == (r :> [o |-> Pipe(n), m |-> "r"]) @@ T
           w == Free(T1) T2 == (w :> [o |-> Pipe(n), m |-> "w"]) @@ T1 IN
       MkPipes(T2, (j :> <<r, w>>) @@ P, n + 1, m, j + 1)
Cl(T, fd) == Without(T, fd)
Dup2(T, a, b) == IF a \in DOMAIN T THEN (b :> T[a]) @@ T ELSE T
\* the child's side, stream by stream; g: stream -> descriptor given
RECURSIVE ChildStreams(_, _, _, _, _)
ChildStreams(T, P, m, g, j) ==
  IF j > 3 THEN T
  ELSE LET x == Ch(m, j)
           T1 == CASE x = "c" -> LET mine == IF j = 1 THEN P[j][1] ELSE P[j][2]
                                     other == IF j = 1 THEN P[j][2] ELSE P[j][1] IN
                                 Cl(Dup2(Cl(T, other), mine, j - 1), mine)
                   [] x = "u" -> Dup2(T, g[j], j - 1)
                   [] x \in {"n", "z"} -> ((j - 1) :> [o |-> "/dev/null", m |-> IF j = 1 THEN "r" ELSE "w"]) @@ T
                   [] OTHER -> T IN
       ChildStreams(T1, P, m, g, j + 1)
\* a standard descriptor given is copied out of the way first
RECURSIVE Aside(_, _, _, _)
Aside(T, m, g, j) == IF j > 3 THEN [t |-> T, g |-> g]
                     ELSE IF Ch(m, j) = "u" /\ g[j] <= 2 THEN LET n == Free(T) IN Aside((n :> T[g[j]]) @@ T, m, [g EXCEPT ![j] = n], j + 1)
                     ELSE Aside(T, m, g, j + 1)
Child(T0, P, m, g0) ==
  LET A == Aside(T0, m, g0, 1) T == A.t g == A.g
      T1 == ChildStreams(T, P, m, g, 1)
      T2 == CloseAll(T1, {g[j] : j \in {k \in 1..3 : Ch(m, k) = "u"}})
      T3 == IF Ch(m, 3) = "o" THEN Dup2(T2, 1, 2) ELSE T2 IN
  CloseAll(T3, DOMAIN trk)
NoSlot == 0
COpen(m, s) ==          \* s: stream -> slot given
  LET c == Cardinality(DOMAIN kids) + 1
      U == {j \in 1..3 : Ch(m, j) = "u"}
      M == {j \in 1..3 : Ch(m, j) = "c"}
      g == [j \in 1..3 |-> IF j \in U THEN slot[s[j]] ELSE -1]
      k == MkPipes(ptab, << >>, np, m, 1)
      ct == Child(k.t, k.p, m, g)
      mine == [j \in M |-> IF j = 1 THEN k.p[j][2] ELSE k.p[j][1]]
      theirs == {IF j = 1 THEN k.p[j][1] ELSE k.p[j][2] : j \in M}
      T == CloseAll(CloseAll(k.t, theirs), {g[j] : j \in U})
      sl(j) == IF j \in M THEN 3 * c + j ELSE IF j \in U THEN s[j] ELSE 0 IN
  /\ c <= NKid
  /\ ptab' = T /\ np' = k.n /\ UNCHANGED ask
  /\ trk' = [fd \in (DOMAIN trk \ {g[j] : j \in U}) \cup {mine[j] : j \in M} |-> IF fd \in {mine[j] : j \in M} THEN c ELSE trk[fd]]
  /\ kids' = (c :> [tab |-> ct, st |-> "run", code |-> 0]) @@ kids
  /\ slot' = [x \in (DOMAIN slot \ {s[j] : j \in U}) \cup {3 * c + j : j \in M} |-> IF x \in {3 * c + j : j \in M} THEN mine[x - 3 * c] ELSE slot[x]]
  /\ L([op |-> "popen", c |-> c, pid |-> 1, m |-> [j \in 1..3 |-> Ch(m, j)], in |-> [j \in 1..3 |-> IF j \in U THEN g[j] ELSE -1],
        out |-> [j \in 1..3 |-> IF j \in M THEN mine[j] ELSE -1], pt |-> Tab(T), ct |-> Tab(ct), cb |-> 0, wantcb |-> 0],
       "popen " \o ToString(c) \o " " \o Ch(m, 1) \o " " \o Ch(m, 2) \o " " \o Ch(m, 3) \o " " \o ToString(sl(1)) \o " " \o ToString(sl(2)) \o " " \o ToString(sl(3)) \o " 0")
CFile == LET fd == Free(ptab) T == (fd :> [o |-> "/f", m |-> "rw"]) @@ ptab IN
  /\ 40 \notin DOMAIN slot /\ ptab' = T /\ slot' = (40 :> fd) @@ slot /\ UNCHANGED <<trk, kids, np, ask>>
  /\ L([op |-> "pfile", fd |-> fd, o |-> "/f", mode |-> "rw", pt |-> Tab(T)], "pfile 40 a")
Keep == UNCHANGED <<ptab, trk, kids, slot, np, ask>>
CTell(c, k, n) == /\ kids[c].st = "run" /\ kids' = [kids EXCEPT ![c].st = "told", ![c].code = Code(k, n)] /\ UNCHANGED <<ptab, trk, slot, np, ask>>
                  /\ L([op |-> "pctl", c |-> c, k |-> k, n |-> n], "pctl " \o ToString(c) \o " " \o k \o " " \o ToString(n))
CPend(c) == /\ kids[c].st = "told" /\ kids' = [kids EXCEPT ![c].st = "zomb"] /\ UNCHANGED <<ptab, trk, slot, np, ask>>
            /\ L([op |-> "pend", c |-> c, s |-> 1], "pend " \o ToString(c))
\* waitpid
Reap(c) == [kids EXCEPT ![c].st = "gone"]
Status(c) == IF kids[c].st = "gone" THEN 0 ELSE kids[c].code
CWait(c) == /\ kids[c].st # "run" /\ kids' = Reap(c) /\ UNCHANGED <<ptab, trk, slot, np, ask>>
            /\ L([op |-> "pwait", c |-> c, r |-> Status(c), dup |-> 0, st |-> KstatesOf(Reap(c))], "pwait " \o ToString(c))
CClose(x) == LET fd == slot[x] c == trk[fd] T == Cl(ptab, fd) IN
  /\ fd \in DOMAIN trk /\ kids[c].st # "run"
  /\ ptab' = T /\ trk' = Without(trk, fd) /\ kids' = Reap(c) /\ slot' = Without(slot, x) /\ UNCHANGED <<np, ask>>
  /\ L([op |-> "pclose", fd |-> fd, r |-> Status(c), pt |-> Tab(T), dup |-> 0, st |-> KstatesOf(Reap(c))], "pclose " \o ToString(x))
CNoWait(x) == LET fd == slot[x] T == Cl(ptab, fd) IN
  /\ fd \in DOMAIN trk
  /\ ptab' = T /\ trk' = Without(trk, fd) /\ slot' = Without(slot, x) /\ UNCHANGED <<kids, np, ask>>
  /\ L([op |-> "pnowait", fd |-> fd, r |-> trk[fd], pt |-> Tab(T), dup |-> 0, st |-> Kstates], "pnowait " \o ToString(x))
\* who really keeps a pipe's end open
Alive(c) == kids[c].st \in {"run", "told"}
Holds(o, mode) == (\E fd \in DOMAIN ptab : ptab[fd] = [o |-> o, m |-> mode])
                  \/ \E c \in DOMAIN kids : Alive(c) /\ \E fd \in DOMAIN kids[c].tab : kids[c].tab[fd] = [o |-> o, m |-> mode]
CAsk(c, k) == LET f == IF k = "r" THEN 0 ELSE 1 o == IF f \in DOMAIN kids[c].tab THEN kids[c].tab[f].o ELSE "" IN
  /\ kids[c].st = "run" /\ IsPipe(o)
  /\ IF k = "r" THEN Writers(o) = {} /\ ~CallerWrites(o) ELSE Readers(o) = {} /\ ~CallerReads(o)
  /\ ask' = <<c, k>> /\ UNCHANGED <<ptab, trk, kids, slot, np>>
  /\ L([op |-> "pctl", c |-> c, k |-> k, n |-> 0], "pctl " \o ToString(c) \o " " \o k \o " 0")
CSaw == LET c == ask[1] k == ask[2] o == kids[c].tab[IF k = "r" THEN 0 ELSE 1].o IN
  /\ ask' = <<0, "">> /\ UNCHANGED <<ptab, trk, kids, slot, np>>
  /\ L([op |-> "prep", c |-> c, k |-> k, n |-> IF k = "r" THEN (IF Holds(o, "w") THEN -1 ELSE 0) ELSE (IF Holds(o, "r") THEN -1 ELSE 1)],
       "prep " \o ToString(c) \o " " \o k)
CRead(x) == LET fd == slot[x] o == ptab[fd].o IN
  /\ fd \in DOMAIN ptab /\ IsPipe(o) /\ ptab[fd].m = "r" /\ Writers(o) = {} /\ ~CallerWrites(o)
  /\ Keep
  /\ L([op |-> "pread", fd |-> fd, n |-> 0, eof |-> IF Holds(o, "w") THEN 0 ELSE 1], "pread " \o ToString(x))
CSpawnT == /\ Keep /\ L([op |-> "pspawnt", r |-> 0, pt |-> Tab(ptab), ct |-> Tab(CloseAll(ptab, DOMAIN trk))], "pspawnt")
CShut == LET A == {trk[fd] : fd \in DOMAIN trk}
             K == [c \in DOMAIN kids |-> IF c \in A THEN [kids[c] EXCEPT !.st = "gone"] ELSE kids[c]] IN
  /\ DOMAIN trk # {} /\ trk' = << >> /\ kids' = K /\ slot' = [x \in {y \in DOMAIN slot : y \in {40, 61, 62, 63}} |-> slot[x]] /\ UNCHANGED <<ptab, np, ask>>
  /\ L([op |-> "pshut", kills |-> SeqOf({<<c, 9>> : c \in {d \in A : Alive(d)}}), dup |-> 0, st |-> KstatesOf(K), pt |-> Tab(ptab)], "pshut")
CLimit == /\ 63 \notin DOMAIN slot /\ slot' = (63 :> 99) @@ slot /\ UNCHANGED <<ptab, trk, kids, np, ask>>
          /\ L([op |-> "plimit", pt |-> Tab(ptab)], "plimit 2500 600")
Slots == DOMAIN slot
Init == /\ pt = {<<fd, Std[fd].o, Std[fd].m>> : fd \in DOMAIN Std} /\ own = << >> /\ kid = << >> /\ flow = << >>
        /\ ptab = Std /\ trk = << >> /\ kids = << >> /\ np = 1
        /\ slot = [x \in {61, 62} \cap (IF "std" \in Ops THEN {60 + fd : fd \in DOMAIN Std} ELSE {}) |-> x - 60] /\ ask = <<0, "">> /\ lab = "" /\ bad = FALSE
Next == IF ask[1] # 0 THEN CSaw
        ELSE \/ \E m \in Modes, a, b, d \in Slots \cup {0} :
                  /\ (Ch(m, 1) = "u") = (a # 0) /\ (Ch(m, 2) = "u") = (b # 0) /\ (Ch(m, 3) = "u") = (d # 0)
                  /\ (a # 0 => slot[a] \in DOMAIN ptab /\ ptab[slot[a]].m # "w") /\ (b # 0 => slot[b] \in DOMAIN ptab /\ ptab[slot[b]].m # "r") /\ (d # 0 => slot[d] \in DOMAIN ptab /\ ptab[slot[d]].m # "r")
                  /\ COpen(m, <<a, b, d>>)
             \/ ("file" \in Ops /\ CFile)
             \/ (\E c \in DOMAIN kids : CTell(c, "x", 3) \/ ("sig" \in Ops /\ CTell(c, "k", 9)) \/ CPend(c) \/ CWait(c)
                                        \/ CAsk(c, "r") \/ ("brk" \in Ops /\ CAsk(c, "b")))
             \/ (\E x \in Slots : CClose(x) \/ CNoWait(x) \/ CRead(x))
             \/ CSpawnT
             \/ ("limit" \in Ops /\ CLimit)
             \/ ("shut" \in Ops /\ CShut)
Spec == Init /\ [][Next]_vars
View == <<bad, ptab, trk, kids, slot, np, ask>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
\* every tracked descriptor is open and every pipe has exactly the ends that are meant
Shape == /\ DOMAIN trk \subseteq DOMAIN ptab
         /\ \A c \in DOMAIN kids : \A fd \in DOMAIN kids[c].tab : (fd > 2 /\ IsPipe(kids[c].tab[fd].o)) =>
              fd \in DOMAIN ptab \ DOMAIN trk /\ ptab[fd] = kids[c].tab[fd]   \* left open by a shutdown
=============================================================================
