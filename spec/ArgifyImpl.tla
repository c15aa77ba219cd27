----------------------------- MODULE ArgifyImpl -----------------------------
(* arg_argify's automaton (maa/arggram.txt and the loop in maa/arg.c), fed with
   every string over Alphabet up to MaxLen, against the grammar in Arg: the
   state is the string so far and the automaton's state, the words it has
   finished, the piece it is growing and where the pending piece begins.      *)
EXTENDS Arg, Json
CONSTANTS Alphabet, MaxLen
VARIABLES s, style, st, last, grow, words, lab
vars == <<al, s, style, st, last, grow, words, lab>>
Type(c) == CASE c = DQ -> IF NoQuote(style) THEN "OTHER" ELSE "DQ"
             [] c = SQ -> IF NoQuote(style) THEN "OTHER" ELSE "SQ"
             [] c = BS -> IF NoEscape(style) THEN "OTHER" ELSE "BS"
             [] c \in SP -> "SPACE"
             [] c = 0 -> "NULL"
             [] OTHER -> "OTHER"
\* <<action, next state>>
Arc(q, y) ==
  CASE q \in {"SPACES", "TOK"} ->
         (CASE y = "DQ" -> <<"SKIP", "INDQ">> [] y = "SQ" -> <<"SKIP", "INSQ">> [] y = "OTHER" -> <<"INCLUDE", "TOK">>
            [] y = "BS" -> <<"SKIP", "TOKBS">> [] y = "NULL" -> <<"FINISH", "EXIT">> [] y = "SPACE" -> <<"FINISH", "SPACES">>)
    [] q = "TOKBS" -> IF y = "NULL" THEN <<"FINISH", "ERROR">> ELSE <<"INCLUDE", "TOK">>
    [] q = "INDQ" -> (CASE y = "DQ" -> <<"SKIP", "SPACES">> [] y = "NULL" -> <<"FINISH", "ERROR">> [] OTHER -> <<"INCLUDE", "INDQ">>)
    [] q = "INSQ" -> (CASE y = "SQ" -> <<"SKIP", "SPACES">> [] y = "NULL" -> <<"FINISH", "ERROR">> [] OTHER -> <<"INCLUDE", "INSQ">>)
\* one round of the loop for character c at position pt of t; last = 0: NULL
Step(t, pt, c, x) ==
  LET a == Arc(x.st, Type(c)) IN
  CASE a[1] = "INCLUDE" -> [x EXCEPT !.st = a[2], !.last = IF @ = 0 THEN pt ELSE @]
    [] a[1] = "SKIP" -> [x EXCEPT !.st = a[2], !.last = pt + 1, !.grow = IF x.last # 0 THEN @ \o SubSeq(t, x.last, pt - 1) ELSE @]
    [] a[1] = "FINISH" -> IF x.last # 0 THEN [x EXCEPT !.st = a[2], !.last = 0, !.grow = << >>,
                                               !.words = Append(@, x.grow \o SubSeq(t, x.last, pt - 1))]
                          ELSE [x EXCEPT !.st = a[2]]
X == [st |-> st, last |-> last, grow |-> grow, words |-> words]
Init == HInit /\ s = << >> /\ style \in 0..3 /\ st = "SPACES" /\ last = 0 /\ grow = << >> /\ words = << >> /\ lab = ""
Next == \E c \in Alphabet :
          /\ Len(s) < MaxLen
          /\ LET y == Step(s, Len(s) + 1, c, X) IN
             st' = y.st /\ last' = y.last /\ grow' = y.grow /\ words' = y.words
          /\ s' = Append(s, c) /\ UNCHANGED <<al, style, lab>>
Spec == Init /\ [][Next]_vars
Result == LET y == Step(s, Len(s) + 1, 0, X) IN y.words
Good == Result = Split(s, style)
\* the style flags change nothing else: without quotes and backslashes they
\* do not matter, and words never hold unquoted white space
Plain == (\A j \in 1..Len(s) : s[j] \notin {DQ, SQ, BS}) => Split(s, style) = Split(s, 0)
=============================================================================
