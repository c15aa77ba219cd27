-------------------------------- MODULE Cost --------------------------------
(* What is asked of the caller's functions and of the heap (C40).  n[k] is the
   number of elements of the object of kind k, hw[k] the most it ever had.
   However many there are, and whatever was done before, an operation on a
   table or pool needs a handful of comparisons and hash values, one on a skip
   list some times the logarithm of the number of elements; algebra needs a
   handful for each element; and memory stays in proportion to the most that
   was ever held: coming and going, and doing the same again, adds nothing.
   e.alien counts hash values computed of keys no operation was about.          *)
EXTENDS Util
VARIABLES n, hw, up                  \* up: kinds whose object exists
hvars == <<n, hw, up>>
Tables == {"hash", "hstr", "hptr", "set", "sstr", "sptr", "pool", "glob"}
Ks == Tables \cup {"skip", "list", "stack", "objs", "strs", "args"}
Sets == {"set", "sstr", "sptr"}
HInit == n = [k \in Ks |-> 0] /\ hw = [k \in Ks |-> 0] /\ up = {}
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(x \div 2)
\* comparisons that m operations on up to x elements may need
Cmps(k, m, x) == CASE k \in Tables -> 3 * m + 16
                   [] k = "skip" -> m * (4 * Log2(x + 1) + 24)
                   [] OTHER -> 0
Hashes(k, m) == IF k \in Tables THEN 4 * m + 4 ELSE 0
\* kB that an object that had up to x elements may hold; e.more is what was kept by doing the same again
Room(x) == 64 + x
Cheap(e, m, x) == /\ e.cmps <= Cmps(e.k, m, x) /\ e.hashes <= Hashes(e.k, m) /\ e.kb <= Room(x) /\ e.more <= 16 /\ e.alien = 0
Grow(e) == LET k == e.k x == n[k] + e.m IN
  /\ n' = [n EXCEPT ![k] = x] /\ hw' = [hw EXCEPT ![k] = Max(@, x)] /\ up' = up \cup {k}
  /\ e.hit = e.m /\ Cheap(e, e.m, Max(hw[k], x))
Cut(e) == LET k == e.k IN
  /\ k \in up \ {"pool", "glob", "strs", "args"} /\ e.m <= n[k] /\ n' = [n EXCEPT ![k] = @ - e.m] /\ e.hit = e.m /\ Cheap(e, e.m, hw[k]) /\ UNCHANGED <<hw, up>>
\* what is there is found, as much that is not there is not
Find(e) == LET k == e.k IN k \in up \cap (Tables \cup {"skip"}) /\ e.m = n[k] /\ e.hit = e.m /\ Cheap(e, 2 * e.m, hw[k]) /\ UNCHANGED hvars
\* an element comes and goes
Turn(e) == LET k == e.k IN
  /\ k \in up \ {"strs", "args"} /\ e.hit = e.m /\ Cheap(e, 2 * e.m, hw[k] + 1)
  /\ hw' = [hw EXCEPT ![k] = Max(@, n[k] + 1)] /\ UNCHANGED <<n, up>>
\* another object with three elements comes and goes
Life(e) == LET k == e.k IN k \in up \ {"glob"} /\ e.hit = 3 * e.m /\ Cheap(e, 3 * e.m, hw[k] + 3) /\ UNCHANGED hvars
\* the set 0..x-1 and the one m further up
Alg(e) == LET k == e.k x == n[k] IN
  /\ k \in up \cap Sets /\ e.m <= x
  /\ e.hit = (CASE e.f \in {"union", "sadd"} -> x + e.m [] e.f = "inter" -> x - e.m [] e.f \in {"diff", "sdel"} -> e.m
                [] OTHER -> IF e.m = 0 THEN x ELSE -1)
  /\ Cheap(e, 2 * x, hw[k]) /\ UNCHANGED hvars
DropIt(e) == LET k == e.k IN k \in up /\ e.cmps = 0 /\ e.kb <= 64 /\ n' = [n EXCEPT ![k] = 0] /\ hw' = [hw EXCEPT ![k] = 0] /\ up' = up \ {k}
\* the same done m times more
Use(e) == e.hit = e.m /\ e.kb <= 16 /\ UNCHANGED hvars
Do(e) == CASE e.op = "reset" -> n' = [k \in Ks |-> 0] /\ hw' = [k \in Ks |-> 0] /\ up' = {}
           [] e.op = "cunit" -> UNCHANGED hvars
           [] e.op = "cuse" -> Use(e)
           [] e.op = "cost" -> CASE e.f = "add" -> Grow(e) [] e.f = "cut" -> Cut(e) [] e.f = "find" -> Find(e) [] e.f = "turn" -> Turn(e)
                                 [] e.f = "life" -> Life(e) [] e.f = "drop" -> DropIt(e)
                                 [] e.f \in {"union", "inter", "diff", "sadd", "sdel", "equal"} -> Alg(e) [] OTHER -> FALSE
           [] OTHER -> FALSE
=============================================================================
