--------------------------------- MODULE Num ---------------------------------
(* Numbers and codes: base 26 and 64 (maa/base26.c, base64.c: C31), bits of a
   word (bit.c: C32), primes (prime.c: C33), Soundex (text.c: C34).  These are
   functions: the specification has no state.  TLC's integers have 32 bits, so
   a number below 2^32 is a pair <<hi, lo>> of 16-bit halves.                 *)
EXTENDS Util
VARIABLE st
hvars == st
HInit == st = 0
H == 65536

---- (* C31 *)
Chr26 == [d \in 0..25 |-> 97 + d]
Chr64 == [d \in 0..63 |-> IF d < 26 THEN 65 + d ELSE IF d < 52 THEN 97 + d - 26 ELSE IF d < 62 THEN 48 + d - 52 ELSE IF d = 62 THEN 43 ELSE 47]
Chr(base) == IF base = 26 THEN Chr26 ELSE Chr64
\* quotient and remainder of <<hi, lo>> by a small number
Div(v, m) == <<v[1] \div m, ((v[1] % m) * H + v[2]) \div m>>
Mod(v, m) == ((v[1] % m) * H + v[2]) % m
RECURSIVE Digits(_, _)
Digits(v, base) == IF v = <<0, 0>> THEN << >> ELSE Append(Digits(Div(v, base), base), Mod(v, base))
Encode(v, base) == LET d == IF v = <<0, 0>> THEN <<0>> ELSE Digits(v, base) IN [j \in 1..Len(d) |-> Chr(base)[d[j]]]
RECURSIVE Strip(_, _)
Strip(s, z) == IF Len(s) > 1 /\ s[1] = z THEN Strip(Tail(s), z) ELSE s
IsText(s, base) == Rng(s) \subseteq {Chr(base)[d] : d \in DOMAIN Chr(base)}
BEnc(e) == e.s = Encode(e.v, e.base) /\ UNCHANGED st
BDec(e) == IsText(e.s, e.base) /\ Strip(e.s, Chr(e.base)[0]) = Encode(e.v, e.base) /\ UNCHANGED st
\* refused: some character is not a digit.  The text is "x" and hex digits.
HexD == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"} |->
         CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
           [] c = "8" -> 8 [] c = "9" -> 9 [] c = "a" -> 10 [] c = "b" -> 11 [] c = "c" -> 12 [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]
Bytes(x) == [j \in 1..((Len(x) - 1) \div 2) |-> 16 * HexD[SubSeq(x, 2 * j, 2 * j)] + HexD[SubSeq(x, 2 * j + 1, 2 * j + 1)]]
Try(e) == e.cmd = "bdec" /\ e.end = (IF IsText(Bytes(e.a[3]), e.a[1]) THEN "ok" ELSE "abort") /\ UNCHANGED st

---- (* C32 *)
Bits(e) == LET W == Rng(e.w) IN
  /\ Ok(\A j \in 0..63 : /\ Rng(e.set[j + 1]) = W \cup {j} /\ Rng(e.clr[j + 1]) = W \ {j}
                         /\ e.tst[j + 1] = IF j \in W THEN 1 ELSE 0)
  /\ e.cnt = Cardinality(W) /\ Rng(e.after) = W /\ UNCHANGED st
RECURSIVE BitHist(_, _)
BitHist(h, W) == IF h = << >> THEN TRUE
                 ELSE LET o == Head(h) IN
                      CASE o[1] = "s" -> BitHist(Tail(h), W \cup {o[2]})
                        [] o[1] = "c" -> BitHist(Tail(h), W \ {o[2]})
                        [] o[1] = "t" -> o[3] = (IF o[2] \in W THEN 1 ELSE 0) /\ BitHist(Tail(h), W)
                        [] o[1] = "n" -> o[3] = Cardinality(W) /\ BitHist(Tail(h), W)
BitV(e) == Ok(BitHist(e.h, {})) /\ UNCHANGED st

---- (* C33 *)
\* remainder of <<hi, lo>> by m < 65536 without overflow: byte by byte
ModM(v, m) == LET a == v[1] % m
                  b == (a * 256 + v[2] \div 256) % m
              IN (b * 256 + (v[2] % 256)) % m
\* d * d <= v
Geq(v, w) == v[1] > w[1] \/ (v[1] = w[1] /\ v[2] >= w[2])
Sq(d) == LET q == d \div 256
             r == d % 256
             mid == 2 * q * r                            \* d^2 = q^2 2^16 + mid 2^8 + r^2
             low == (mid % 256) * 256 + r * r
         IN <<q * q + mid \div 256 + low \div H, low % H>>
\* the largest r < 65536 whose square is at most v, by bisection
RECURSIVE Bisect(_, _, _)
Bisect(v, a, b) == IF b - a <= 1 THEN a
                   ELSE LET m == (a + b) \div 2 IN IF Geq(v, Sq(m)) THEN Bisect(v, m, b) ELSE Bisect(v, a, m)
Root(v) == Bisect(v, 0, H)
\* no odd d >= 3 with d * d <= v divides v
NoDiv(v) == LET r == (Root(v) - 1) \div 2 IN
            IF v[1] < 32768 THEN LET n == v[1] * H + v[2] IN \A k \in 1..r : n % (2 * k + 1) # 0
            ELSE \A k \in 1..r : ModM(v, 2 * k + 1) # 0
IsPrime(v) == IF v[1] = 0 /\ v[2] < 4 THEN v[2] \in {2, 3} ELSE v[2] % 2 = 1 /\ NoDiv(v)
Two(n) == <<n \div H, n % H>>
PRange(e) == Ok(Rng(e.p) = {n \in e.from..e.to : IsPrime(Two(n))}) /\ Distinct(e.p) /\ UNCHANGED st
PIs(e) == e.r = (IF IsPrime(e.v) THEN 1 ELSE 0) /\ UNCHANGED st
Add2(v, k) == <<v[1] + (v[2] + k) \div H, (v[2] + k) % H>>
RECURSIVE Next2(_)
Next2(v) == IF IsPrime(v) THEN v ELSE Next2(Add2(v, 2))
PNext(e) == e.r = Next2(IF e.v[2] % 2 = 1 THEN e.v ELSE Add2(e.v, 1)) /\ UNCHANGED st

---- (* C34 *)
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
\* digit of a letter, 0 for vowels, H, W and Y
Digit(c) == CASE c \in {66, 70, 80, 86} -> 1
              [] c \in {67, 71, 74, 75, 81, 83, 88, 90} -> 2
              [] c \in {68, 84} -> 3
              [] c = 76 -> 4
              [] c \in {77, 78} -> 5
              [] c = 82 -> 6
              [] OTHER -> 0
Letters(s) == SelectSeq([j \in 1..Len(s) |-> Upper(s[j])], LAMBDA c : c \in 65..90)
Soundex(s) ==
  LET a == Letters(s)
      d == [j \in 1..Len(a) |-> Digit(a[j])]
      keep == SelectSeq([j \in 1..Len(a) |-> j], LAMBDA j : j > 1 /\ d[j] # 0 /\ d[j] # d[j - 1])
      digits == [j \in 1..Min(3, Len(keep)) |-> 48 + d[keep[j]]]
      full == [j \in 1..3 |-> IF j <= Len(digits) THEN digits[j] ELSE 48]
  IN IF a = << >> THEN <<90, 48, 48, 48>> ELSE <<a[1]>> \o full
Sdx(e) == e.r = Append(Soundex(e.s), 0) /\ e.q = Soundex(e.s) /\ UNCHANGED st
SdxAll(e) == Ok(\A j \in 1..Len(e.cases) : e.cases[j][2] = Soundex(e.cases[j][1])) /\ UNCHANGED st

Do(e) == CASE e.op = "bend" -> BEnc(e)
           [] e.op = "bdec" -> BDec(e)
           [] e.op = "bits" -> Bits(e)
           [] e.op = "bitv" -> BitV(e)
           [] e.op = "prange" -> PRange(e)
           [] e.op = "pis" -> PIs(e)
           [] e.op = "pnext" -> PNext(e)
           [] e.op = "sdx" -> Sdx(e)
           [] e.op = "sdxall" -> SdxAll(e)
           [] e.op = "try" -> Try(e)
           [] e.op = "reset" -> UNCHANGED st
           [] OTHER -> FALSE
=============================================================================
