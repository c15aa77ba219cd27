--------------------------------- MODULE Arg ---------------------------------
(* Argument lists and the splitting of command lines (maa/arg.c): C17, C18.
   Items are hexadecimal texts.                                              *)
EXTENDS Util, SequencesExt
VARIABLE al      \* list -> [v: sequence of items, grow]
hvars == al
HInit == al = << >>
Live(t) == t \in DOMAIN al
New(e) == al' = (e.t :> [v |-> << >>, grow |-> ""]) @@ al
Destroy(e) == Live(e.t) /\ al' = Without(al, e.t)
Add(e) == Live(e.t) /\ e.same = 1 /\ al' = [al EXCEPT ![e.t].v = Append(@, e.s)]
Grow(e) == Live(e.t) /\ al' = [al EXCEPT ![e.t].grow = @ \o e.s]
Finish(e) == Live(e.t) /\ e.same = 1 /\ al' = [al EXCEPT ![e.t] = [v |-> Append(@.v, @.grow), grow |-> ""]]
Count(e) == Live(e.t) /\ e.r = Len(al[e.t].v) /\ UNCHANGED al
Get(e) == Live(e.t) /\ e.n \in 0..(Len(al[e.t].v) - 1) /\ e.out = al[e.t].v[e.n + 1] \o "00" /\ UNCHANGED al
Vector(e) == /\ Live(e.t) /\ e.n = Len(al[e.t].v) /\ e.end = 1 /\ Len(e.items) = e.n
             /\ Ok(\A j \in 1..e.n : e.items[j] = al[e.t].v[j] \o "00") /\ UNCHANGED al
Try(e) == /\ Live(e.a[1]) /\ e.cmd = "aget"
          /\ e.end = (IF e.a[2] \in 0..(Len(al[e.a[1]].v) - 1) THEN "ok" ELSE "abort") /\ UNCHANGED al

---- (* the grammar *)
SP == {32, 9, 13, 11, 10}
DQ == 34
SQ == 39
BS == 92
NoEscape(style) == style % 2 = 1
NoQuote(style) == (style \div 2) % 2 = 1
\* One character after the other.  mode: 0 between words, 1 in a word, DQ or SQ within such quotes,
\* BS after a backslash; w: what the word holds so far; out: the words before it
Char(a, c, style) ==
  LET quote == c \in {DQ, SQ} /\ ~NoQuote(style)
      esc == c = BS /\ ~NoEscape(style)
      add == [a EXCEPT !.mode = 1, !.w = Append(@, c)]
  IN CASE a.mode = BS -> add
       [] a.mode \in {DQ, SQ} -> IF c = a.mode THEN [a EXCEPT !.mode = 1] ELSE [a EXCEPT !.w = Append(@, c)]
       [] quote -> [a EXCEPT !.mode = c]
       [] esc -> [a EXCEPT !.mode = BS]
       [] c \in SP -> IF a.mode = 0 THEN a ELSE [mode |-> 0, w |-> << >>, out |-> Append(a.out, a.w)]
       [] OTHER -> add
Split(s, style) == LET a == FoldLeft(LAMBDA x, c : Char(x, c, style), [mode |-> 0, w |-> << >>, out |-> << >>], s)
                   IN IF a.mode = 0 THEN a.out ELSE Append(a.out, a.w)
Argify(e) == e.w = Split(e.s, e.style) /\ e.n = Len(e.w) /\ e.end = 1 /\ UNCHANGED al
ArgAll(e) == Ok(\A j \in 1..Len(e.cases) : LET x == e.cases[j] IN x[2] = Split(x[1], e.style) /\ x[3] = 1) /\ UNCHANGED al

Do(e) == CASE e.op = "aadd" -> Add(e)
           [] e.op = "agrow" -> Grow(e)
           [] e.op = "afin" -> Finish(e)
           [] e.op = "acnt" -> Count(e)
           [] e.op = "aget" -> Get(e)
           [] e.op = "avec" -> Vector(e)
           [] e.op = "anew" -> New(e)
           [] e.op = "adel" -> Destroy(e)
           [] e.op = "argify" -> Argify(e)
           [] e.op = "argall" -> ArgAll(e)
           [] e.op = "try" -> Try(e)
           [] e.op = "reset" -> al' = << >>
           [] OTHER -> FALSE
=============================================================================
