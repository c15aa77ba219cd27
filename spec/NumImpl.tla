------------------------------- MODULE NumImpl -------------------------------
(* The algorithms of base26.c, base64.c, bit.c, prime.c and text.c, checked
   against the definitions in Num for every value of a bounded domain.  What
   selects the algorithm; one step of the state graph is one call.           *)
EXTENDS Num, Bitwise, Json
CONSTANTS What, Bound, Alphabet
VARIABLES x,        \* the input of the latest call
          result,   \* its result
          prev      \* base26.c's static variables: <<previous, text>>
vars == <<st, x, result, prev>>

\* b26_encode: seven digits into a static buffer unless the value is the previous one
RECURSIVE Fill26(_, _)
Fill26(v, i) == IF i = 0 THEN << >> ELSE Append(Fill26(v \div 26, i - 1), 97 + (v % 26))
RECURSIVE Skip(_, _)
Skip(s, z) == IF Len(s) > 1 /\ s[1] = z THEN Skip(Tail(s), z) ELSE s
Enc26(v) == LET b == IF prev[1] # v THEN Fill26(v, 7) ELSE prev[2] IN /\ prev' = <<v, b>> /\ result' = Skip(b, 97)
Enc64(v) == /\ UNCHANGED prev
            /\ result' = Skip([j \in 1..6 |-> Chr64[shiftR(v, 6 * (6 - j)) & 63]], 65)
\* decoding from the last digit
RECURSIVE Dec26(_, _, _)
Dec26(s, i, off) == IF i = 0 THEN 0 ELSE (s[i] - 97) * off + Dec26(s, i - 1, IF i > 1 THEN off * 26 ELSE off)

\* bit_cnt on 16-bit words
Cnt(w) == LET a == (shiftR(w, 1) & 21845) + (w & 21845)
              b == (shiftR(a, 2) & 13107) + (a & 13107)
              c == (shiftR(b, 4) + b) & 3855
          IN ((shiftR(c, 8) + c) & 255) & 255
BitsOf(w) == {j \in 0..15 : shiftR(w, j) % 2 = 1}

\* prm_is_prime's loop: squares advance by 4 d + 4 in two halves
RECURSIVE Loop(_, _, _)
Loop(v, d, s) == IF s < v /\ v % d # 0 THEN Loop(v, d + 2, s + 4 * (d + 1)) ELSE d
IsP(v) == IF v = 1 THEN 0 ELSE IF v = 2 \/ v = 3 THEN 1 ELSE IF v % 2 = 0 THEN 0
          ELSE IF v % Loop(v, 3, 9) # 0 THEN 1 ELSE IF v = Loop(v, 3, 9) THEN 0 ELSE 0
RECURSIVE NextP(_)
NextP(v) == IF IsP(v) = 1 THEN v ELSE NextP(v + 2)
Divides(d, n) == n % d = 0
Prime(n) == n > 1 /\ \A d \in 2..(n - 1) : ~Divides(d, n)

\* txt_soundex2's loop over the string: <<code so far, previous digit>>
RECURSIVE SLoop(_, _, _)
SLoop(s, code, p) ==
  IF s = << >> \/ Len(code) = 4 THEN code
  ELSE LET c == Upper(Head(s)) IN
       IF c \in 65..90
       THEN SLoop(Tail(s), IF code = << >> THEN <<c>> ELSE IF Digit(c) # 0 /\ Digit(c) # p THEN Append(code, 48 + Digit(c)) ELSE code, Digit(c))
       ELSE SLoop(Tail(s), code, p)
Pad(c) == IF c = << >> THEN <<90, 48, 48, 48>> ELSE c \o [j \in 1..(4 - Len(c)) |-> 48]

Init == st = 0 /\ result = << >> /\ prev = <<0, [j \in 1..7 |-> 97]>> /\ x = IF What = "soundex" THEN << >> ELSE -1
Next == /\ UNCHANGED st
        /\ CASE What = "b26" -> \E v \in Bound : x' = v /\ Enc26(v)
             [] What = "b64" -> \E v \in Bound : x' = v /\ Enc64(v)
             [] What \in {"bits", "prime"} -> \E v \in Bound : x = -1 /\ x' = v /\ UNCHANGED <<result, prev>>
             [] What = "soundex" -> \E c \in Alphabet : Len(x) < Cardinality(Bound) /\ x' = Append(x, c) /\ UNCHANGED <<result, prev>>
Spec == Init /\ [][Next]_vars
Good ==
  CASE What = "b26" -> x >= 0 => /\ result = Encode(Two(x), 26) /\ Dec26(result, Len(result), 1) = x
                                 /\ Len(result) <= 5 => Dec26(<<97, 97>> \o result, Len(result) + 2, 1) = x
    [] What = "b64" -> x >= 0 => result = Encode(Two(x), 64)
    [] What = "bits" -> x >= 0 => Cnt(x) = Cardinality(BitsOf(x))
    [] What = "prime" -> x >= 0 => /\ (IsP(x) = 1) = Prime(x) /\ IsPrime(Two(x)) = Prime(x)
                                   /\ LET n == NextP(IF x % 2 = 1 THEN x ELSE x + 1) IN
                                      Two(n) = Next2(Two(IF x % 2 = 1 THEN x ELSE x + 1)) /\ Prime(n) /\ \A m \in x..(n - 1) : ~Prime(m) \/ m = 2
    [] What = "soundex" -> Pad(SLoop(x, << >>, 0)) = Soundex(x)
=============================================================================
