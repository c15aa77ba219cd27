------------------------------- MODULE Source -------------------------------
(* The source manager (maa/source.c) and concrete symbol names
   (maa/parse-concrete.c): C27, C28.  Text is a sequence of byte values.      *)
EXTENDS Util
VARIABLES src,   \* [on, file, line, off, lines, toks]: where the lexer is, the stored lines, the tokens
          conc   \* symbol -> concrete form first registered
hvars == <<src, conc>>
NoFile == <<0>>
Src0 == [on |-> FALSE, file |-> NoFile, line |-> 0, off |-> 0, lines |-> << >>, toks |-> << >>]
HInit == src = Src0 /\ conc = << >>
Untab(s) == [j \in 1..Len(s) |-> IF s[j] = 9 THEN 32 ELSE s[j]]

StoreLine(e) == /\ e.r = Untab(e.s)
                /\ src' = [src EXCEPT !.on = TRUE, !.lines = Append(@, Untab(e.s)), !.line = @ + 1, !.off = 0]
                /\ UNCHANGED conc
\* the same line many times over
Fill1(e) == /\ e.runs = <<<<e.n, Untab(e.s)>>>>
            /\ src' = [src EXCEPT !.on = TRUE, !.lines = @ \o [j \in 1..e.n |-> Untab(e.s)], !.line = @ + e.n, !.off = 0]
            /\ UNCHANGED conc
NewFile(e) == src' = [src EXCEPT !.file = e.f] /\ UNCHANGED conc
NewLine(e) == src' = [src EXCEPT !.line = e.n] /\ UNCHANGED conc
Advance(e) == src' = [src EXCEPT !.off = @ + e.n] /\ UNCHANGED conc
\* a marker "# n" or "# n file" announces the number (and file) of the line that follows
Marker(e) == /\ src' = [src EXCEPT !.line = e.n - 1, !.file = IF e.form = 0 THEN @ ELSE e.f]
             /\ UNCHANGED conc
\* the text of the current line is that of the last one stored
Get(e) == /\ src.on /\ e.isnull = 0 /\ e.id = Len(src.toks) + 1
          /\ src' = [src EXCEPT !.toks = Append(@, [f |-> src.file, n |-> src.line, off |-> src.off, len |-> e.len, ix |-> Len(src.lines)]),
                                !.off = @ + e.len]
          /\ UNCHANGED conc
Text(t) == src.lines[t.ix]
Token(e) == /\ src.on
            /\ IF e.id = 0 THEN e.f = << >> /\ e.n = 0 /\ e.off = 0 /\ e.len = 0 /\ e.l = << >>
               ELSE LET t == src.toks[e.id] IN e.f = t.f /\ e.n = t.n /\ e.off = t.off /\ e.len = t.len /\ e.l = Text(t)
            /\ UNCHANGED hvars
Stats(e) == /\ e.lines = Len(src.lines) /\ e.tokens = Len(src.toks) /\ e.reused = 0
            /\ e.bytes = Sum([j \in 1..Len(src.lines) |-> Len(src.lines[j]) + 1])
            /\ IF src.on THEN e.alloc >= e.lines /\ e.size > 0 ELSE e.alloc = 0 /\ e.size = 0
            /\ e.p = <<e.lines, e.bytes, e.alloc, e.tokens, e.tokens * e.size, e.reused>>
            /\ UNCHANGED hvars
Delete(e) == src' = Src0 /\ UNCHANGED conc
Create(e) == ~src.on /\ src' = [src EXCEPT !.on = TRUE] /\ UNCHANGED conc
Try(e) == /\ e.end = (CASE e.cmd = "qacc" -> IF e.a[1] = "c" THEN (IF src.on THEN "exit1" ELSE "ok") ELSE (IF src.on THEN "ok" ELSE "exit1"))
          /\ UNCHANGED hvars

(* ---- diagnostics ---- *)
Fill(n, c) == [j \in 1..n |-> c]
Where(t) == t.f \o <<58>> \o Dec(t.n) \o <<58, 32>>
Nowhere == Txt("?:?: ")
NotAvailable == Txt("<source line not available>") \o NL
Here(id) == IF id = 0 THEN Nowhere ELSE Where(src.toks[id])
SourceLine(id) == IF id = 0 THEN Nowhere \o NotAvailable ELSE Here(id) \o Text(src.toks[id])
Carets(id) == Here(id) \o (IF id = 0 THEN << >> ELSE Fill(src.toks[id].off, 32) \o Fill(src.toks[id].len, 94)) \o NL

(* A message of the parser: BQ T_name ' and BQ BQ c ' ' are quotations.      *)
BQ == 96
AP == 39
At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
IsChar(m, i) == At(m, i) = BQ /\ At(m, i + 1) = BQ /\ At(m, i + 2) # 0 /\ At(m, i + 3) = AP /\ At(m, i + 4) = AP
Close(m, i) == {j \in (i + 3)..Len(m) : m[j] = AP /\ \A k \in (i + 3)..(j - 1) : m[k] # AP}
IsName(m, i) == At(m, i) = BQ /\ At(m, i + 1) = 84 /\ At(m, i + 2) = 95 /\ Close(m, i) # {}
Concrete(C, s) == IF s \in DOMAIN C THEN C[s] ELSE s
RECURSIVE Massage(_, _, _)
Massage(C, m, i) ==
  IF i > Len(m) THEN << >>
  ELSE IF IsChar(m, i) THEN <<BQ, m[i + 2], AP>> \o Massage(C, m, i + 5)
  ELSE IF IsName(m, i) THEN LET j == CHOOSE x \in Close(m, i) : TRUE IN
                            <<BQ>> \o Concrete(C, SubSeq(m, i + 1, j - 1)) \o <<AP>> \o Massage(C, m, j + 1)
  ELSE <<m[i]>> \o Massage(C, m, i + 1)
Message(e) == CASE e.k = "p" -> Massage(conc, e.m, 1)
                [] e.k = "d" -> <<60>> \o Dec(Len(e.m)) \o <<124>> \o e.m \o <<62>>
                [] OTHER -> e.m
Diag(e) == /\ e.o = (CASE e.k \in {"p", "e", "d"} -> Here(e.id) \o Message(e) \o NL \o SourceLine(e.id) \o Carets(e.id)
                       [] e.k = "E" -> SourceLine(e.id) \o Carets(e.id)
                       [] e.k = "m" -> Here(e.id) \o Message(e) \o NL
                       [] e.k = "M" -> << >>
                       [] e.k = "l" -> SourceLine(e.id))
           /\ UNCHANGED hvars
Register(e) == conc' = (IF e.s \in DOMAIN conc THEN conc ELSE (e.s :> e.v) @@ conc) /\ UNCHANGED src
Lookup(e) == /\ IF e.s \in DOMAIN conc THEN e.null = 0 /\ e.r = conc[e.s] ELSE e.null = 1
             /\ UNCHANGED hvars
Do(e) == CASE e.op = "qtok"  -> Token(e)
           [] e.op = "qget"  -> Get(e)
           [] e.op = "qline" -> StoreLine(e)
           [] e.op = "qfill" -> Fill1(e)
           [] e.op = "qfile" -> NewFile(e)
           [] e.op = "qnl"   -> NewLine(e)
           [] e.op = "qadv"  -> Advance(e)
           [] e.op = "qcpp"  -> Marker(e)
           [] e.op = "qstat" -> Stats(e)
           [] e.op = "qdiag" -> Diag(e)
           [] e.op = "preg"  -> Register(e)
           [] e.op = "pconc" -> Lookup(e)
           [] e.op = "qdel"  -> Delete(e)
           [] e.op = "qnew"  -> Create(e)
           [] e.op = "try"   -> Try(e)
           [] e.op = "reset" -> src' = Src0 /\ conc' = << >>
           [] OTHER -> FALSE
=============================================================================
