-------------------------------- MODULE Util --------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
(* Ok(p): evaluate p as one value.  In an action TLC explores the disjuncts
   of a disjunction (and the witnesses of an existential) as alternatives;
   inside Ok they are only a condition.                                      *)
Ok(p) == p = TRUE
Rng(s) == {s[j] : j \in 1..Len(s)}
Distinct(s) == Cardinality(Rng(s)) = Len(s)
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE SumOf(_, _, _)
SumOf(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a] ELSE LET m == (a + b) \div 2 IN SumOf(s, a, m) + SumOf(s, m + 1, b)
Sum(s) == SumOf(s, 1, Len(s))
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* the bytes of a text of printable ASCII characters
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, k, k) : k \in 1..Len(Ascii)} |-> 31 + CHOOSE k \in 1..Len(Ascii) : SubSeq(Ascii, k, k) = c]
Txt(s) == [j \in 1..Len(s) |-> CodeOf[SubSeq(s, j, j)]]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
NL == <<10>>
=============================================================================
