------------------------------ MODULE CostImpl ------------------------------
(* Why it stays cheap.  A table's chains are no longer than its elements over
   its slots, rounded up; it gets three times the slots when more than half
   full, and stored hash values are used then.  A skip list's search passes a
   few elements on each level, and there are as many levels as keep halving
   the elements.  What is given back is used again.  With Growing, Levels or
   Reuse FALSE the same machine breaks the specification (C40).                *)
EXTENDS Cost, Json
CONSTANTS Kinds, U, Units, Uses, Growing, Levels, Reuse
VARIABLES slots, high, waste, lab, bad
vars == <<hvars, slots, high, waste, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(x) == " " \o ToString(x)
Chain(s, x) == (x + s - 1) \div s
\* slots once x elements are in, and the comparisons made while m were added to x
RECURSIVE Fill(_, _, _, _)
Fill(s, x, m, c) == IF m = 0 THEN <<s, c>>
  ELSE LET s2 == IF Growing /\ 2 * x > s THEN 3 * s + 2 ELSE s IN Fill(s2, x + 1, m - 1, c + Chain(s2, x))
\* a search among x elements on h levels
Path(h, x) == 2 * h + x \div (2 ^ h) + 1
Rise(x) == IF Levels THEN Max(1, Min(16, Log2(x + 1))) ELSE 1
RECURSIVE Climb(_, _, _)
Climb(x, m, c) == IF m = 0 THEN c ELSE Climb(x + 1, m - 1, c + Path(Rise(x), x))
Held(k, s, x, w) == ((IF k \in Tables THEN s * 32 ELSE 0) + (x + w) * 64) \div 1024
Ev(f, k, m, hit, c, h, s, x, w) == [op |-> "cost", f |-> f, k |-> k, m |-> m, hit |-> hit, cmps |-> c, hashes |-> h, kb |-> Held(k, s, x, w),
  alien |-> 0, more |-> IF f = "turn" /\ ~Reuse THEN (m * 64) \div 1024 ELSE 0]
H(k, m) == IF k \in Tables THEN m ELSE 0
One(k) == CASE k \in Tables -> Chain(slots[k], n[k]) [] k = "skip" -> Path(high[k], n[k]) [] OTHER -> 0
\* freed elements are kept for the next when they are to be used again
CAdd(k, m, how) ==
  LET s0 == IF k \in up THEN slots[k] ELSE 11
      fl == Fill(s0, n[k], m, 0)
      c == CASE k \in Tables -> fl[2] [] k = "skip" -> Climb(n[k], m, 0) [] OTHER -> 0
      w == IF Reuse THEN Max(0, waste[k] - m) ELSE waste[k] IN
  /\ n[k] + m <= U * Units
  /\ slots' = [slots EXCEPT ![k] = fl[1]] /\ high' = [high EXCEPT ![k] = Max(@, Rise(n[k] + m))] /\ waste' = [waste EXCEPT ![k] = w]
  /\ L(Ev("add", k, m, m, c, H(k, m), fl[1], n[k] + m, w), "cadd " \o k \o T2(m \div U) \o T2(how))
CCut(k, m, how) ==
  /\ k \in up \ {"pool", "glob", "strs", "args"} /\ m <= n[k]
  /\ waste' = [waste EXCEPT ![k] = @ + m] /\ UNCHANGED <<slots, high>>
  /\ L(Ev("cut", k, m, m, m * One(k), H(k, m), slots[k], n[k] - m, waste[k] + m), "ccut " \o k \o T2(m \div U) \o T2(how))
CFind(k, how) ==
  /\ k \in up \cap (Tables \cup {"skip"}) /\ UNCHANGED <<slots, high, waste>>
  /\ L(Ev("find", k, n[k], n[k], 2 * n[k] * One(k), H(k, 2 * n[k]), slots[k], n[k], waste[k]), "cfind " \o k \o T2(how))
CTurn(k, how) ==
  LET m == 2 * U  w == IF Reuse THEN Max(1, waste[k]) ELSE waste[k] + 40 * m IN
  /\ k \in up \ {"strs", "args"} /\ waste' = [waste EXCEPT ![k] = w] /\ UNCHANGED <<slots, high>>
  /\ L(Ev("turn", k, m, m, 2 * m * One(k), H(k, 2 * m), slots[k], n[k], w), "cturn " \o k \o " 2" \o T2(how))
CLife(k) ==
  LET m == U IN
  /\ k \in up \ {"glob"} /\ UNCHANGED <<slots, high, waste>>
  /\ L(Ev("life", k, m, 3 * m, IF k \in Tables THEN 3 * m ELSE IF k = "skip" THEN 9 * m ELSE 0, H(k, 3 * m), slots[k], n[k], waste[k]), "clife " \o k \o " 1")
CAlg(k, f, m) ==
  LET x == n[k] l == IF f = "union" THEN "union" ELSE f
      hit == CASE f \in {"union", "sadd"} -> x + m [] f = "inter" -> x - m [] f \in {"diff", "sdel"} -> m [] OTHER -> IF m = 0 THEN x ELSE -1 IN
  /\ k \in up \cap Sets /\ m <= x /\ UNCHANGED <<slots, high, waste>>
  /\ L(Ev(f, k, m, hit, 2 * x * One(k), 3 * x, slots[k], x, waste[k]), "calg " \o k \o " " \o l \o T2(m \div U))
CDrop(k) ==
  /\ k \in up /\ slots' = [slots EXCEPT ![k] = 11] /\ high' = [high EXCEPT ![k] = 1] /\ waste' = [waste EXCEPT ![k] = 0]
  /\ L(Ev("drop", k, 0, 0, 0, 0, 0, 0, 0), "cdrop " \o k)
CUse(f) == L([op |-> "cuse", f |-> f, m |-> U, hit |-> U, kb |-> 0], "cuse " \o f \o " 1") /\ UNCHANGED <<slots, high, waste>>
Init == HInit /\ slots = [k \in Ks |-> 11] /\ high = [k \in Ks |-> 1] /\ waste = [k \in Ks |-> 0] /\ lab = "" /\ bad = FALSE
\* one object at a time
Next == \/ \E k \in {x \in Kinds : up \subseteq {x}} :
             \/ CDrop(k) \/ CLife(k)
             \/ \E m \in {U, 2 * U} : CAdd(k, m, (m \div U) + (n[k] \div U) - 1 - 3 * (((m \div U) + (n[k] \div U) - 1) \div 3)) \/ CCut(k, m, m \div U)
             \/ \E how \in 0..2 : CFind(k, how)
             \/ \E how \in 0..1 : CTurn(k, how)
             \/ \E f \in {"union", "inter", "diff", "sadd", "sdel", "equal"}, m \in {0, U} : CAlg(k, f, m)
        \/ up = {} /\ \E f \in Uses : CUse(f)
Spec == Init /\ [][Next]_vars
View == <<[k \in Kinds |-> <<n[k] \div U, hw[k] \div U, k \in up>>], bad>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == \A k \in Ks : n[k] <= hw[k] /\ (n[k] > 0 => k \in up) /\ (Growing => slots[k] * 2 >= n[k])
=============================================================================
