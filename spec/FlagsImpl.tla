------------------------------ MODULE FlagsImpl ------------------------------
(* How maa/debug.c and maa/flags.c do it: four words per facility, into which
   whole flag values (group bits 30 and 31 included) are or'ed and from which
   they are masked; the TEST macro shifts the group bits out of an int.       *)
EXTENDS Flags, Json
CONSTANTS W, Flags0, Ops
VARIABLES hash,  \* name -> flag; "off" while not created
          sets, used,   \* 0..3 -> set of bits 0..31
          lab, bad
vars == <<hvars, hash, sets, used, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
\* flags are given as numbers 100 * group + bit
Gr(f) == f \div 100
Bt(f) == f % 100
GBits(g) == (IF g % 2 = 1 THEN {30} ELSE {}) \cup (IF g >= 2 THEN {31} ELSE {})
Val(f) == {Bt(f)} \cup GBits(Gr(f))
Index(v) == (IF 30 \in v THEN 1 ELSE 0) + (IF 31 \in v THEN 2 ELSE 0)
TEST(v, w) == {b + 2 : b \in (w[Index(v)] \cap v)} \cap (0..31) # {}
NameOf(f) == "n" \o ToString(f)
Zero == [g \in 0..3 |-> {}]
Keep == UNCHANGED <<hash, sets, used>>
CReg(f, user) ==
  LET refuse == (user = 1 /\ {30, 31} \subseteq Val(f)) \/ TEST(Val(f), used)
      a == <<W, user, Gr(f), Bt(f), -1, NameOf(f)>>
      s == " " \o W \o T2(user) \o T2(Gr(f)) \o T2(Bt(f)) \o " -1 " \o NameOf(f) IN
  IF refuse THEN Keep /\ L([op |-> "try", cmd |-> "freg", a |-> a, end |-> "exit1"], "!freg" \o s)
  ELSE /\ hash' = (NameOf(f) :> f) @@ hash /\ used' = [used EXCEPT ![Index(Val(f))] = @ \cup Val(f)] /\ UNCHANGED sets
       /\ L([op |-> "freg", w |-> W, user |-> user, g |-> Gr(f), b |-> Bt(f), b2 |-> -1, name |-> NameOf(f)], "freg" \o s)
\* retrieval of the name, else of the name after its sign
CSet(n, bare, sign) ==
  LET k == IF n \in DOMAIN hash THEN n ELSE IF sign # "" /\ bare \in DOMAIN hash THEN bare ELSE ""
      v == IF k = "" THEN {} ELSE Val(hash[k])
      s == " " \o W \o " " \o n IN
  CASE hash = << >> -> Keep /\ L([op |-> "try", cmd |-> "fset", a |-> <<W, n>>, end |-> "exit1"], "!fset" \o s)
    [] hash # << >> /\ n = "none" -> sets' = Zero /\ UNCHANGED <<hash, used>> /\ L([op |-> "fset", w |-> W, name |-> n], "fset" \o s)
    [] hash # << >> /\ n = "all" -> sets' = [g \in 0..3 |-> 0..31] /\ UNCHANGED <<hash, used>> /\ L([op |-> "fset", w |-> W, name |-> n], "fset" \o s)
    [] OTHER ->
       IF k = "" THEN Keep /\ L([op |-> "try", cmd |-> "fset", a |-> <<W, n>>, end |-> "exit1"], "!fset" \o s)
       ELSE /\ sets' = [sets EXCEPT ![Index(v)] = IF k # n /\ sign = "-" THEN @ \ v ELSE @ \cup v] /\ UNCHANGED <<hash, used>>
            /\ L([op |-> "fset", w |-> W, name |-> n], "fset" \o s)
CSet1(f, x) == LET v == Val(f) IN
  /\ sets' = [sets EXCEPT ![Index(v)] = IF x = 1 THEN @ \cup v ELSE @ \ v] /\ UNCHANGED <<hash, used>>
  /\ L([op |-> "fset1", w |-> W, g |-> Gr(f), b |-> Bt(f), v |-> x], "fset1 " \o W \o T2(Gr(f)) \o T2(Bt(f)) \o T2(x))
CAll == /\ Keep
        /\ L([op |-> "fall", w |-> W, on |-> LET S == {100 * g + b : g \in 0..3, b \in 0..29}
                                                 T == {f \in S : TEST(Val(f), sets)}
                                                 q == SelectSeq([j \in 1..430 |-> j - 1], LAMBDA f : f \in T)
                                             IN [j \in 1..Len(q) |-> <<Gr(q[j]), Bt(q[j])>>]], "fall " \o W)
CName(f) == LET H == {n \in DOMAIN hash : hash[n] = f} IN
  /\ hash # << >> /\ Keep
  /\ L([op |-> "fname", w |-> W, g |-> Gr(f), b |-> Bt(f), name |-> IF H = {} THEN "unknown flag" ELSE CHOOSE n \in H : TRUE],
       "fname " \o W \o T2(Gr(f)) \o T2(Bt(f)))
CDel == hash' = << >> /\ sets' = Zero /\ used' = Zero /\ L([op |-> "fdel", w |-> W], "fdel " \o W)
Init == HInit /\ hash = << >> /\ sets = Zero /\ used = Zero /\ lab = "" /\ bad = FALSE
Next == \/ \E f \in Flags0 : \/ \E u \in (IF W = "d" THEN {0, 1} ELSE {0}) : CReg(f, u)
                             \/ CSet(NameOf(f), "", "") \/ CSet("+" \o NameOf(f), NameOf(f), "+") \/ CSet("-" \o NameOf(f), NameOf(f), "-")
                             \/ W = "d" /\ \E x \in {0, 1} : CSet1(f, x)
                             \/ W = "f" /\ CName(f)
        \/ CSet("none", "", "") \/ CSet("all", "", "") \/ CSet("-zz", "zz", "-") \/ CSet("zz", "", "") \/ CSet("-", "", "-")
        \/ CAll \/ CDel
Spec == Init /\ [][Next]_vars
View == <<bad, hash, sets, used>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
\* used bits only hold registered flags
Shape == \A g \in 0..3 : used[g] \cap (0..29) = {Bt(hash[n]) : n \in {m \in DOMAIN hash : Gr(hash[m]) = g}}
=============================================================================
