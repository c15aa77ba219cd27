--------------------------------- MODULE Log ---------------------------------
(* The log (maa/log.c) and error reports (maa/error.c): C24, C25, C26.
   Text is a sequence of byte values; time is in seconds since 1970, UTC.     *)
EXTENDS Util
VARIABLES lg    \* [file: open pattern, stream, sys, short, fac, id, now, host, pid, prog]
hvars == lg
No == <<>>
Log0 == [file |-> No, stream |-> No, sys |-> No, short |-> FALSE, fac |-> "user", id |-> << >>, now |-> 0, host |-> << >>, pid |-> << >>, prog |-> No]
HInit == lg = Log0
\* an optional value is << >> or <<value>>
Some(x) == <<x>>
Is(o) == o # No
The(o) == o[1]

(* ---- calendar ---- *)
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Civil(t) ==
  LET days == t \div 86400
      z == days + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
      leap == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
      cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
      d == doy - ((153 * mp + 2) \div 5) + 1
      s == t % 86400 IN
  [y |-> y, m |-> m, d |-> d, H |-> s \div 3600, M |-> (s \div 60) % 60, S |-> s % 60, w |-> (days + 4) % 7,
   j |-> cum[m] + d + (IF leap /\ m > 2 THEN 1 ELSE 0)]
DayName == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonName == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
LongDay == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
LongMon == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Padded(n) == IF n < 10 THEN <<32, 48 + n>> ELSE Two(n)
Stamp(t) == LET c == Civil(t) IN
  Txt(DayName[c.w + 1]) \o <<32>> \o Txt(MonName[c.m]) \o <<32>> \o Padded(c.d) \o <<32>>
  \o Two(c.H) \o <<58>> \o Two(c.M) \o <<58>> \o Two(c.S) \o <<32>> \o Dec(c.y)
\* time directives in a file name
Directive(x, t) == LET c == Civil(t) IN
  CASE x = 89 -> Dec(c.y)                              \* %Y
    [] x = 121 -> Two(c.y % 100)                       \* %y
    [] x = 109 -> Two(c.m) [] x = 100 -> Two(c.d)      \* %m %d
    [] x = 72 -> Two(c.H) [] x = 77 -> Two(c.M) [] x = 83 -> Two(c.S)    \* %H %M %S
    [] x = 106 -> <<48 + (c.j \div 100)>> \o Two(c.j % 100)              \* %j
    [] x = 97 -> Txt(DayName[c.w + 1]) [] x = 98 -> Txt(MonName[c.m])        \* %a %b
    [] x = 37 -> <<37>>
    [] x = 101 -> Padded(c.d)                                                \* %e
    [] x = 67 -> Two(c.y \div 100) [] x = 119 -> Dec(c.w) [] x = 117 -> Dec(IF c.w = 0 THEN 7 ELSE c.w)   \* %C %w %u
    [] x = 65 -> Txt(LongDay[c.w + 1]) [] x = 66 -> Txt(LongMon[c.m])        \* %A %B
    [] x = 68 -> Two(c.m) \o <<47>> \o Two(c.d) \o <<47>> \o Two(c.y % 100) \* %D
    [] x = 70 -> Dec(c.y) \o <<45>> \o Two(c.m) \o <<45>> \o Two(c.d)       \* %F
    [] x = 82 -> Two(c.H) \o <<58>> \o Two(c.M)                              \* %R
    [] x = 84 -> Two(c.H) \o <<58>> \o Two(c.M) \o <<58>> \o Two(c.S)       \* %T
    [] x = 99 -> Stamp(t)                                                    \* %c
RECURSIVE Expand(_, _, _)
Expand(p, t, i) == IF i > Len(p) THEN << >>
                   ELSE IF p[i] = 37 /\ i < Len(p) THEN Directive(p[i + 1], t) \o Expand(p, t, i + 2)
                   ELSE <<p[i]>> \o Expand(p, t, i + 1)
Path == Expand(The(lg.file), lg.now, 1)

(* ---- what a message puts where ---- *)
Clip(s, n) == IF Len(s) > n THEN Take(s, n) ELSE s
Preamble(pid) == IF lg.short THEN << >>
  ELSE Stamp(lg.now) \o <<32>> \o Clip(lg.host, 64) \o <<32>> \o lg.id \o <<91>> \o pid \o <<93, 58, 32>>
FullLine(x) == Preamble(x.pid) \o (IF x.rt = No THEN << >> ELSE <<40>> \o The(x.rt) \o <<41, 32>>) \o x.m \o NL
\* the texts a sequence of messages puts into the file named p; a message is [m, rt, err, pid]
RECURSIVE Texts(_, _, _)
Texts(ms, p, order) ==
  IF ms = << >> THEN << >>
  ELSE LET f == IF Is(lg.file) /\ Path = p THEN FullLine(Head(ms)) ELSE << >>
           s == IF ~Is(lg.stream) \/ The(lg.stream).n # p THEN << >>
                ELSE IF The(lg.stream).std = 1 THEN Head(ms).m ELSE FullLine(Head(ms)) IN
       (IF order THEN f \o s ELSE s \o f) \o Texts(Tail(ms), p, order)
Dests(skip) == (IF Is(lg.file) THEN {Path} ELSE {}) \cup (IF Is(lg.stream) /\ ~(skip /\ The(lg.stream).std = 1) THEN {The(lg.stream).n} ELSE {})
\* chg: <<file, whether its former contents are still there, what was added>>
Written(chg, ms, skip) ==
  LET W == {p \in Dests(skip) : Texts(ms, p, TRUE) # << >>}
      C == {j \in 1..Len(chg) : chg[j][2] = 0 \/ chg[j][3] # << >>} IN
  /\ {chg[j][1] : j \in C} = W
  /\ \A j \in C : chg[j][2] = 1 /\ (chg[j][3] = Texts(ms, chg[j][1], TRUE) \/ chg[j][3] = Texts(ms, chg[j][1], FALSE))
Nothing(chg) == \A j \in 1..Len(chg) : chg[j][2] = 1 /\ chg[j][3] = << >>
FacTab == [auth |-> 32, authpriv |-> 80, cron |-> 72, daemon |-> 24, ftp |-> 88, lpr |-> 48, mail |-> 16, news |-> 56,
           syslog |-> 40, user |-> 8, uucp |-> 64, local0 |-> 128, local1 |-> 136, local2 |-> 144, local3 |-> 152,
           local4 |-> 160, local5 |-> 168, local6 |-> 176, local7 |-> 184]
Slogged(sys, ms) == IF ~Is(lg.sys) THEN sys = << >>
  ELSE /\ Len(sys) = Len(ms)
       /\ \A j \in 1..Len(ms) : /\ sys[j][1] = "m" /\ sys[j][4] = ms[j].m /\ sys[j][5] = The(lg.sys).id
                                /\ sys[j][2] % 8 = (IF ms[j].err THEN 3 ELSE 6) /\ sys[j][2] - (sys[j][2] % 8) \in {0, The(lg.sys).fac}
Fmt(m, form) == IF form = 1 THEN Txt("42:") \o m \o Txt(":z%") ELSE m
Rt(e) == IF e.nort = 1 THEN No ELSE Some(e.rt)
LogMsg(e) == LET ms == <<[m |-> Fmt(e.m, e.form), rt |-> IF e.k \in {"i", "I"} THEN No ELSE Rt(e), err |-> e.k \in {"e", "E"}, pid |-> lg.pid]>> IN
  Ok(Written(e.chg, ms, FALSE)) /\ Ok(Slogged(e.sys, ms)) /\ UNCHANGED lg

(* ---- opening and closing ---- *)
OpenFile(e) == /\ ~Is(lg.file) /\ Ok(Nothing(e.chg)) /\ e.sys = << >>
               /\ lg' = [lg EXCEPT !.file = Some(e.p), !.id = e.id]
OpenStream(e) == /\ ~Is(lg.stream) /\ Ok(Nothing(e.chg)) /\ e.sys = << >>
                 /\ lg' = [lg EXCEPT !.stream = Some([n |-> e.n, std |-> e.std]), !.id = e.id]
OpenSyslog(e) == /\ ~Is(lg.sys) /\ Ok(Nothing(e.chg))
                 /\ Len(e.sys) = 1 /\ e.sys[1][1] = "o" /\ e.sys[1][2] = FacTab[lg.fac] /\ e.sys[1][3] % 2 = 1 /\ e.sys[1][4] = e.id
                 /\ lg' = [lg EXCEPT !.sys = Some([fac |-> FacTab[lg.fac], id |-> e.id])]
Closes(k, what) == k \in (CASE what = "file" -> {"f", "g", "F", "a"} [] what = "stream" -> {"s", "S", "t", "a"} [] what = "sys" -> {"y", "a"})
CloseLog(e) == /\ Ok(Nothing(e.chg))
               /\ IF Closes(e.k, "sys") /\ Is(lg.sys) THEN Len(e.sys) = 1 /\ e.sys[1][1] = "c" ELSE e.sys = << >>
               /\ lg' = [lg EXCEPT !.file = IF Closes(e.k, "file") THEN No ELSE @,
                                   !.stream = IF Closes(e.k, "stream") THEN No ELSE @,
                                   !.sys = IF Closes(e.k, "sys") THEN No ELSE @]
Facility(e) == e.f \in DOMAIN FacTab /\ e.g = e.f /\ lg' = [lg EXCEPT !.fac = e.f]
GetFacility(e) == e.g = lg.fac /\ UNCHANGED lg
LTry(e) == e.end = (CASE e.cmd = "lbad" -> IF Is(lg.file) THEN "abort" ELSE "exit1"
                      [] e.cmd = "lfile" -> IF Is(lg.file) THEN "abort" ELSE "ok"
                      [] e.cmd = "lstream" -> IF Is(lg.stream) THEN "abort" ELSE "ok"
                      [] e.cmd = "lsys" -> IF Is(lg.sys) THEN "abort" ELSE "ok"
                      [] e.cmd = "lfac" -> IF e.a[1] \in DOMAIN FacTab THEN "ok" ELSE "exit1")
           /\ UNCHANGED lg

(* ---- errors ---- *)
RECURSIVE Base(_, _)
Base(p, i) == IF i = 0 \/ p[i] = 47 THEN Drop(p, i) ELSE Base(p, i - 1)
SetProgram(e) == LET b == IF e.null = 1 THEN No ELSE Some(Base(e.p, Len(e.p))) IN
  /\ IF b = No THEN e.rnull = 1 ELSE e.rnull = 0 /\ e.r = The(b)
  /\ lg' = [lg EXCEPT !.prog = b]
Cat3(a, b, c) == a \o b \o c
\* what a text makes a standard stream used as log show in between
Inserted(m) == IF Is(lg.stream) /\ The(lg.stream).std = 1 THEN m ELSE << >>
Report(e) ==
  LET m == Fmt(e.m, e.form)
      rt == Rt(e)
      who == IF Is(lg.prog) THEN (IF Is(rt) THEN The(lg.prog) \o Txt(" (") \o The(rt) \o Txt("): ") ELSE The(lg.prog) \o Txt(": "))
             ELSE (IF Is(rt) THEN The(rt) \o Txt(": ") ELSE << >>)
      cause == (IF Is(rt) THEN The(rt) ELSE Txt("(null)")) \o Txt(": ") \o e.se
      L1 == [m |-> m, rt |-> rt, err |-> TRUE, pid |-> e.pid]
      L2 == [m |-> cause, rt |-> rt, err |-> TRUE, pid |-> e.pid]
      logged == IF e.k = "n" THEN <<L1, L2>> ELSE <<L1>>
      text == CASE e.k \in {"w", "f"} -> Cat3(who \o m, NL, Inserted(m))
                [] e.k = "n" -> Cat3(who \o m \o Inserted(m), <<32>> \o cause \o NL, Inserted(cause))
                [] e.k = "i" -> Cat3(who \o Txt("Internal error") \o NL \o Txt("     ") \o m, NL, Inserted(m))
                                \o Txt("Aborting") \o (IF Is(lg.prog) THEN <<32>> \o The(lg.prog) ELSE << >>) \o Txt("...") \o NL IN
  /\ e.end = (CASE e.k = "w" -> "exit77" [] e.k \in {"f", "n"} -> "exit1" [] e.k = "i" -> "abort")
  /\ e.o = e.pend \o text
  /\ Ok(Written(e.chg, logged, TRUE)) /\ Ok(Slogged(e.sys, logged))
  /\ UNCHANGED lg

Do(e) == CASE e.op = "lmsg"    -> LogMsg(e)
           [] e.op = "lnow"    -> lg' = [lg EXCEPT !.now = e.t]
           [] e.op = "lfile"   -> OpenFile(e)
           [] e.op = "lstream" -> OpenStream(e)
           [] e.op = "lsys"    -> OpenSyslog(e)
           [] e.op = "lclose"  -> CloseLog(e)
           [] e.op = "lopt"    -> lg' = [lg EXCEPT !.short = (e.short = 1)]
           [] e.op = "lfac"    -> Facility(e)
           [] e.op = "lgetf"   -> GetFacility(e)
           [] e.op \in {"lscan", "lstd"} -> UNCHANGED lg
           [] e.op = "lfork"   -> lg' = [lg EXCEPT !.pid = e.pid]
           [] e.op = "eprog"   -> SetProgram(e)
           [] e.op = "eerr"    -> Report(e)
           [] e.op = "try"     -> LTry(e)
           [] e.op = "linit"   -> lg' = [lg EXCEPT !.host = e.host, !.pid = e.pid, !.now = 0]
           [] e.op = "reset"   -> lg' = Log0
           [] OTHER -> FALSE
=============================================================================
