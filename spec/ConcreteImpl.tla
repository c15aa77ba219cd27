----------------------------- MODULE ConcreteImpl -----------------------------
(* How maa/source.c rewrites a parser message: one pass with a moving pointer,
   looking ahead for the two forms of quotation and copying anything else.
   All messages over Alphabet up to MaxLen are tried.                         *)
EXTENDS Source
CONSTANTS Alphabet, MaxLen
VARIABLES m, pt, out, lab, bad
vars == <<hvars, m, pt, out, lab, bad>>
Reg == (<<84, 95>> :> <<43>>) @@ (<<84, 95, 97>> :> <<84, 95, 39>>)      \* T_ is "+", T_a is "T_'"
Ch(i) == IF i <= Len(m) THEN m[i] ELSE 0
Strchr(i) == LET S == {j \in i..Len(m) : m[j] = AP} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
Init == /\ src = Src0 /\ conc \in {<< >>, Reg}
        /\ m \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ pt = 1 /\ out = << >> /\ lab = "" /\ bad = FALSE
Put(s, p) == out' = out \o s /\ pt' = p
Step == /\ pt <= Len(m)
        /\ IF Ch(pt) = BQ
           THEN IF Ch(pt + 1) = BQ /\ Ch(pt + 2) # 0 /\ Ch(pt + 3) = AP /\ Ch(pt + 4) = AP THEN Put(<<BQ, Ch(pt + 2), AP>>, pt + 5)
                ELSE LET end == Strchr(pt) IN
                     IF Ch(pt + 1) = 84 /\ Ch(pt + 2) = 95 /\ end # 0
                     THEN LET s == SubSeq(m, pt + 1, end - 1) IN
                          Put(<<BQ>> \o (IF s \in DOMAIN conc THEN conc[s] ELSE s) \o <<AP>>, end + 1)
                     ELSE Put(<<Ch(pt)>>, pt + 1)
           ELSE Put(<<Ch(pt)>>, pt + 1)
        /\ bad' = (pt' > Len(m) /\ out' # Massage(conc, m, 1))
        /\ UNCHANGED <<hvars, m, lab>>
Next == Step
Spec == Init /\ [][Next]_vars
Good == ~bad
Inside == pt <= Len(m) + 1
=============================================================================
