------------------------------ MODULE ScaleImpl ------------------------------
(* How it is done: loops and heap.  An operation on n elements is n rounds of a
   loop whose frame stays the same; a structure that must be copied before it
   is walked is copied to the heap; hash tables grow by doubling.  Depth counts
   the frames alive at a time, and is what the library's choice keeps at 1
   (were a walk recursive, or its copy on the stack, Stack would grow with n). *)
EXTENDS Scale, Json, Naturals
CONSTANTS Kinds, Units, Texts
VARIABLES made, slots, lab, bad
vars == <<hvars, made, slots, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(x) == " " \o ToString(x)
Has(f, e) == f \in DOMAIN e
\* frames of a loop over n elements, kB
RECURSIVE Loop(_, _)
Loop(n, frame) == IF n = 0 THEN frame ELSE Loop(n - 1, frame)
Stack(k) == Loop(Len2(k), 1)
\* what a hash table of n units has room for: doubled while more than half full
RECURSIVE Room(_, _)
Room(s, n) == IF s >= 2 * n THEN s ELSE Room(2 * s, n)
CAdd(k, m) == /\ hi[k] + m <= Units
              /\ made' = made \cup {k} /\ slots' = [slots EXCEPT ![k] = Room(IF k \in made THEN @ ELSE 1, Len2(k) + m)]
              /\ \E odd \in (IF k \in {"skip", "strs"} THEN {0, 1} ELSE {0}) :
                   L([op |-> "zadd", k |-> k, m |-> m, n |-> N(k, lo[k], hi[k] + m), stk |-> Stack(k)], "zadd " \o k \o T2(m) \o T2(odd))
Cut(k, m, end) == L([op |-> "zcut", k |-> k, m |-> m, from |-> IF k = "stack" THEN 1 ELSE end, stk |-> Stack(k),
                     runs |-> IF k = "stack" THEN Down(hi[k] - m, hi[k]) ELSE IF end = 1 THEN << >> ELSE Run(lo[k], lo[k] + m),
                     n |-> N(k, lo[k] + m, hi[k])], "zcut " \o k \o T2(m) \o T2(end))
CCut(k, m) == /\ k \in made /\ m <= Len2(k) /\ k \in {"hash", "set", "list", "skip", "stack", "objs"}
              /\ (Cut(k, m, 0) \/ (k = "list" /\ Cut(k, m, 1)))
              /\ UNCHANGED <<made, slots>>
Ways(k) == IF k \in {"hash", "set", "list"} THEN 0..2 ELSE IF k \in {"skip", "args"} THEN 0..1 ELSE {0}
CWalk(k) == /\ k \in made
            /\ LET r == IF k = "stack" THEN Top(k) ELSE Run(lo[k], hi[k])
                   n == IF k = "stack" THEN Len(r) ELSE Len2(k) * u IN
               \E w \in Ways(k) : L([op |-> "zwalk", k |-> k, runs |-> r, n |-> n, visits |-> n, twice |-> 0, stk |-> Stack(k)], "zwalk " \o k \o T2(w))
            /\ UNCHANGED <<made, slots>>
CFind(k) == /\ k \in made \cap {"hash", "set", "list", "skip", "pool", "glob", "prs"}
            /\ LET n == Len2(k) * u IN
               L([op |-> "zfind", k |-> k, runs |-> IF k = "list" THEN << >> ELSE Run(lo[k], hi[k]), stk |-> Stack(k),
                  at |-> IF k # "list" THEN << >> ELSE IF n = 0 THEN [j \in 1..5 |-> -9] ELSE <<0, 1, n \div 2 - 1, n - 2, n - 1>>] @@
                  [x \in {"in"} |-> IF k # "list" THEN << >> ELSE IF n = 0 THEN <<0, 0, 0>> ELSE <<1, 1, 0>>], "zfind " \o k)
            /\ UNCHANGED <<made, slots>>
CDrop(k) == k \in made /\ made' = made \ {k} /\ slots' = [slots EXCEPT ![k] = 1] /\ L([op |-> "zdrop", k |-> k, stk |-> Stack(k)], "zdrop " \o k)
\* element by element, as the sources do it
Range(a, b) == a..(b - 1)
ToRun(S) == IF S = {} THEN <<0, 0>> ELSE <<CHOOSE x \in S : \A y \in S : x <= y, 1 + CHOOSE x \in S : \A y \in S : x >= y>>
CSet(f, m) ==
  /\ "set" \in made /\ m <= Len2("set") /\ (f = "add" => hi["set"] + m <= Units)
  /\ LET A == Range(lo["set"], hi["set"])
         B == Range(lo["set"] + m, hi["set"] + m)
         S == CASE f \in {"union", "add"} -> A \cup B [] f = "inter" -> {x \in A : x \in B} [] f \in {"diff", "del"} -> {x \in A : x \notin B} [] OTHER -> A
         r == ToRun(S) n == Cardinality(S) * u IN
     L([op |-> "zset", f |-> f, m |-> m, r |-> IF f # "equal" THEN -1 ELSE IF A = B THEN 1 ELSE 0, runs |-> Run(r[1], r[2]), n |-> n, visits |-> n, twice |-> 0,
        stk |-> 1], "zset " \o f \o T2(m))
  /\ UNCHANGED <<made, slots>>
CText(f, n, x) == /\ L([op |-> "ztext", f |-> f, u |-> n, x |-> x, len |-> n * t + x, same |-> 1, stk |-> 1], "ztext " \o f \o T2(n) \o T2(x))
                  /\ UNCHANGED <<made, slots>>
Init == /\ u = 2 /\ t = 1 /\ lo = Zero /\ hi = Zero
        /\ made = {} /\ slots = [k \in Ks |-> 1] /\ lab = "" /\ bad = FALSE
\* one object at a time
Next == \/ \E k \in {x \in Kinds : made \subseteq {x}} : CWalk(k) \/ CFind(k) \/ CDrop(k) \/ \E m \in 1..2 : CAdd(k, m) \/ CCut(k, m)
        \/ "set" \in Kinds /\ made = {"set"} /\ \E f \in {"union", "inter", "diff", "add", "del", "equal"}, m \in 0..2 : CSet(f, m)
        \/ \E f \in Texts, n \in 0..2, x \in 0..1 : CText(f, n, x)
Spec == Init /\ [][Next]_vars
View == <<[k \in Kinds |-> <<lo[k], hi[k], k \in made>>], bad>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == \A k \in Ks : lo[k] <= hi[k] /\ hi[k] <= Units /\ (Len2(k) > 0 => k \in made) /\ slots[k] >= 2 * Len2(k) - 1
=============================================================================
