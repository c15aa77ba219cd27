------------------------------ MODULE SourceImpl ------------------------------
(* How maa/source.c does it: one record Info of the current place whose index
   points into a table of lines that is moved when it grows, and tokens that
   are snapshots of Info.                                                     *)
EXTENDS Source, Json
CONSTANTS LineIx, Files, Incr, NLine, NTok, Lens, Ops
LineTab == << <<97, 9, 98, 10>>, <<9, 10>>, << >> >>
FileTab == << <<102>>, <<103, 46, 99>> >>
FileHex == <<"f", "g.c">>
LineHex == <<"6109620a", "090a", "-">>
VARIABLES on, tab, cnt, used, inf, tk,   \* Lines, Count, Used, Info, the tokens handed out
          lab, bad
vars == <<hvars, on, tab, cnt, used, inf, tk, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
Z == [file |-> NoFile, line |-> 0, off |-> 0, len |-> 0, ix |-> 0]
Own == <<on, tab, cnt, used, inf, tk>>
\* growing moves the table; only the first used entries are copied
Grow(t, n) == [j \in 0..(n - 1) |-> IF j \in DOMAIN t THEN t[j] ELSE <<-1>>]
CLine(x) ==
  LET t0 == IF on THEN tab ELSE [j \in 0..(Incr - 1) |-> <<-1>>]
      c0 == IF on THEN cnt ELSE Incr
      t1 == [t0 EXCEPT ![used] = Untab(LineTab[x])] IN
  /\ used < NLine
  /\ on' = TRUE /\ used' = used + 1
  /\ inf' = [inf EXCEPT !.line = @ + 1, !.ix = used, !.off = 0]
  /\ cnt' = (IF used + 1 >= c0 THEN c0 + Incr ELSE c0) /\ tab' = (IF used + 1 >= c0 THEN Grow(t1, c0 + Incr) ELSE t1)
  /\ UNCHANGED tk
  /\ L([op |-> "qline", s |-> LineTab[x], r |-> t1[used]], "qline " \o LineHex[x])
CFile(x) == /\ inf' = [inf EXCEPT !.file = FileTab[x]] /\ UNCHANGED <<on, tab, cnt, used, tk>>
            /\ L([op |-> "qfile", f |-> FileTab[x]], "qfile " \o FileHex[x])
CNl(n) == /\ inf' = [inf EXCEPT !.line = n] /\ UNCHANGED <<on, tab, cnt, used, tk>>
          /\ L([op |-> "qnl", n |-> n], "qnl " \o ToString(n))
CAdv(n) == /\ inf.off + n <= 2 /\ inf' = [inf EXCEPT !.off = @ + n] /\ UNCHANGED <<on, tab, cnt, used, tk>>
           /\ L([op |-> "qadv", n |-> n], "qadv " \o ToString(n))
CCpp(n, x, form) ==
  /\ inf' = [inf EXCEPT !.line = IF n > 0 THEN n - 1 ELSE 1, !.file = IF form = 0 THEN @ ELSE FileTab[x]] /\ UNCHANGED <<on, tab, cnt, used, tk>>
  /\ L([op |-> "qcpp", n |-> n, form |-> form, f |-> FileTab[x]], "qcpp " \o ToString(n) \o " " \o FileHex[x] \o " " \o ToString(form))
CGet(n) == IF ~on THEN UNCHANGED Own /\ L([op |-> "try", cmd |-> "qacc", a |-> <<"g">>, end |-> "exit1"], "!qacc g")
  ELSE /\ used > 0 /\ Len(tk) < NTok /\ inf.off + n <= 2
       /\ inf' = [inf EXCEPT !.len = n, !.off = @ + n] /\ tk' = Append(tk, [inf EXCEPT !.len = n])
       /\ UNCHANGED <<on, tab, cnt, used>>
       /\ L([op |-> "qget", len |-> n, id |-> Len(tk) + 1, isnull |-> 0], "qget " \o ToString(n))
CTok(i) == /\ i <= Len(tk) /\ used > 0
           /\ UNCHANGED Own
           /\ L([op |-> "qtok", id |-> i, f |-> tk[i].file, n |-> tk[i].line, off |-> tk[i].off, len |-> tk[i].len, l |-> tab[tk[i].ix]], "qtok " \o ToString(i))
CAcc(w) == UNCHANGED Own /\ (w # "c" \/ on) /\ L([op |-> "try", cmd |-> "qacc", a |-> <<w>>, end |-> IF on = (w = "c") THEN "exit1" ELSE "ok"], "!qacc " \o w)
CStat == LET b == Sum([j \in 1..used |-> Len(tab[j - 1]) + 1]) IN UNCHANGED Own
  /\ L([op |-> "qstat", lines |-> used, alloc |-> IF on THEN cnt ELSE 0, bytes |-> b, tokens |-> Len(tk), reused |-> 0, size |-> IF on THEN 32 ELSE 0,
        p |-> <<used, b, IF on THEN cnt ELSE 0, Len(tk), Len(tk) * (IF on THEN 32 ELSE 0), 0>>], "qstat")
CDel == /\ IF on THEN on' = FALSE /\ tab' = << >> /\ cnt' = 0 /\ used' = 0 /\ inf' = Z /\ tk' = << >> ELSE UNCHANGED Own
        /\ (on \/ inf = Z)
        /\ L([op |-> "qdel"], "qdel")
CNew == /\ ~on /\ on' = TRUE /\ cnt' = Incr /\ tab' = [j \in 0..(Incr - 1) |-> <<-1>>] /\ UNCHANGED <<used, inf, tk>>
        /\ L([op |-> "qnew"], "qnew")
Init == HInit /\ on = FALSE /\ tab = << >> /\ cnt = 0 /\ used = 0 /\ inf = Z /\ tk = << >> /\ lab = "" /\ bad = FALSE
Next == \/ \E x \in LineIx : CLine(x)
        \/ \E n \in Lens : CGet(n)
        \/ \E i \in 1..NTok : CTok(i)
        \/ "place" \in Ops /\ (CFile(1) \/ CFile(Files) \/ CNl(7) \/ CAdv(1) \/ CCpp(1, 1, 0) \/ CCpp(5, Files, 1))
        \/ "acc" \in Ops /\ \E w \in {"f", "n", "o", "l", "s", "c"} : CAcc(w)
        \/ CDel \/ CNew \/ CStat
Spec == Init /\ [][Next]_vars
View == <<bad, on, tab, cnt, used, inf, tk>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == (on => used < cnt) /\ used = Len(src.lines)
=============================================================================
