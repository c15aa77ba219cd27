------------------------------- MODULE LogImpl -------------------------------
(* How maa/log.c does it: a descriptor that is open or not, the expanded name
   it was opened under, a user stream, a system log flag, a count of open
   destinations that gates everything, one identifier for file and stream.    *)
EXTENDS Log, Json
CONSTANTS PatIx, TimeIx, Ops
PatTab == << <<97>>, <<100, 47, 37, 72, 46, 37, 77>>, <<37, 89, 47, 37, 109, 47, 37, 100>> >>       \* a   d/%H.%M   %Y/%m/%d
PatHex == <<"61", "642f25482e254d", "25592f256d2f2564">>
TimeTab == <<0, 59, 60, 3600, 86399, 86400, 951782399, 951868799, 951868800>>
VARIABLES fd,      \* path the descriptor writes to, or No
          fname,   \* logFilename, or No while there is none
          orig, us, sy, nopen, inh, fac, ident, t,
          lab, bad
vars == <<hvars, fd, fname, orig, us, sy, nopen, inh, fac, ident, t, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
Keep == UNCHANGED <<fd, fname, orig, us, sy, nopen, inh, fac, ident, t>>
\* _log_check_filename: reopens iff the expansion differs from the name in use
Check(p, o, f) == LET n == Expand(o, t, 1) IN IF f # n THEN [fd |-> Some(n), fname |-> n] ELSE [fd |-> p, fname |-> f]
CNow(x) == /\ t # TimeTab[x] /\ t' = TimeTab[x] /\ UNCHANGED <<fd, fname, orig, us, sy, nopen, inh, fac, ident>>
           /\ L([op |-> "lnow", t |-> TimeTab[x]], "lnow " \o ToString(TimeTab[x]))
Refused(cmd, s, z) == Keep /\ L([op |-> "try", cmd |-> cmd, a |-> << >>, end |-> "abort"], "!" \o cmd \o " " \o s)
CFile(x) == IF Is(fd) THEN Refused("lfile", "i1 " \o PatHex[x], 0)
  ELSE LET c == Check(No, PatTab[x], << >>) IN
       /\ fd' = c.fd /\ fname' = c.fname /\ orig' = PatTab[x] /\ ident' = <<105, 48 + x>> /\ nopen' = nopen + 1
       /\ UNCHANGED <<us, sy, inh, fac, t>>
       /\ L([op |-> "lfile", id |-> <<105, 48 + x>>, p |-> PatTab[x], chg |-> <<>>, sys |-> <<>>], "lfile i" \o ToString(x) \o " " \o PatHex[x])
CStream(n, std) == IF Is(us) THEN Refused("lstream", "j " \o n \o " a", 0)
  ELSE /\ us' = Some([n |-> Txt(n), std |-> std]) /\ ident' = <<106>> /\ nopen' = nopen + 1
       /\ UNCHANGED <<fd, fname, orig, sy, inh, fac, t>>
       /\ L([op |-> "lstream", id |-> <<106>>, n |-> Txt(n), std |-> std, chg |-> <<>>, sys |-> <<>>], "lstream j " \o n \o " a")
CSys == IF sy = 1 THEN Refused("lsys", "k", 0)
  ELSE /\ sy' = 1 /\ nopen' = nopen + 1 /\ UNCHANGED <<fd, fname, orig, us, inh, fac, ident, t>>
       /\ L([op |-> "lsys", id |-> <<107>>, chg |-> <<>>, sys |-> << <<"o", FacTab[fac], 3, <<107>>, << >> >> >>], "lsys k")
ClFile == fd' = No /\ fname' = (IF Is(fd) THEN << >> ELSE fname) /\ UNCHANGED <<orig, inh, fac, ident, t>>
CClose(k) ==
  LET f == k \in {"f", "F", "a"} s == k \in {"s", "a"} y == k \in {"y", "a"} IN
  /\ fd' = (IF f THEN No ELSE fd) /\ fname' = (IF f /\ Is(fd) THEN << >> ELSE fname)
  /\ us' = (IF s THEN No ELSE us) /\ sy' = (IF y THEN 0 ELSE sy)
  /\ nopen' = nopen - (IF f /\ Is(fd) THEN 1 ELSE 0) - (IF s /\ Is(us) THEN 1 ELSE 0) - (IF y THEN sy ELSE 0)
  /\ UNCHANGED <<orig, inh, fac, ident, t>>
  /\ L([op |-> "lclose", k |-> k, chg |-> <<>>, sys |-> IF y /\ sy = 1 THEN << <<"c", 0, 0, << >>, << >> >> >> ELSE <<>>], "lclose " \o k)
COpt == /\ inh' = 1 - inh /\ UNCHANGED <<fd, fname, orig, us, sy, nopen, fac, ident, t>>
        /\ L([op |-> "lopt", short |-> 1 - inh], "lopt " \o ToString(1 - inh))
CFac(f) == /\ fac' = f /\ UNCHANGED <<fd, fname, orig, us, sy, nopen, inh, ident, t>>
           /\ L([op |-> "lfac", f |-> f, g |-> f], "lfac " \o f)
M0 == <<109>>
Line0(rt) == (IF inh = 1 THEN << >> ELSE Stamp(t) \o <<32>> \o Clip(lg.host, 64) \o <<32>> \o ident \o <<91>> \o lg.pid \o <<93, 58, 32>>)
             \o (IF rt = "@" THEN << >> ELSE <<40>> \o Txt(rt) \o <<41, 32>>) \o M0 \o NL
CMsg(k, rt) ==
  LET c == IF Is(fd) THEN Check(fd, orig, fname) ELSE [fd |-> fd, fname |-> fname]
      go == nopen > 0
      rr == IF k = "i" THEN "@" ELSE rt
      a == IF go /\ Is(fd) THEN << <<The(c.fd), 1, Line0(rr)>> >> ELSE << >>
      b == IF go /\ Is(us) THEN << <<The(us).n, 1, IF The(us).std = 1 THEN M0 ELSE Line0(rr)>> >> ELSE << >>
      y == IF go /\ sy = 1 THEN << <<"m", IF k = "i" THEN 6 ELSE 3, 0, M0, <<107>> >> >> ELSE << >> IN
  /\ (IF go /\ Is(fd) THEN fd' = c.fd /\ fname' = c.fname ELSE UNCHANGED <<fd, fname>>)
  /\ UNCHANGED <<orig, us, sy, nopen, inh, fac, ident, t>>
  /\ L([op |-> "lmsg", k |-> k, rt |-> IF rt = "@" THEN << >> ELSE Txt(rt), nort |-> IF rt = "@" THEN 1 ELSE 0, m |-> M0, form |-> 0, chg |-> a \o b, sys |-> y],
       "lmsg " \o k \o " " \o rt \o " 6d")
Init == /\ lg = [Log0 EXCEPT !.host = <<104>>, !.pid = <<49>>] /\ fd = No /\ fname = << >> /\ orig = << >> /\ us = No /\ sy = 0 /\ nopen = 0
        /\ inh = 0 /\ fac = "user" /\ ident = << >> /\ t = 0 /\ lab = "" /\ bad = FALSE
Next == \/ \E x \in PatIx : CFile(x)
        \/ \E x \in TimeIx : CNow(x)
        \/ CMsg("i", "@") \/ CMsg("e", "r")
        \/ CClose("f")
        \/ "stream" \in Ops /\ (CStream("s", 0) \/ CStream("stdout", 1) \/ CClose("s"))
        \/ "sys" \in Ops /\ (CSys \/ CClose("y"))
        \/ "opt" \in Ops /\ (COpt \/ CFac("local3") \/ CFac("user"))
        \/ CClose("a")
Spec == Init /\ [][Next]_vars
View == <<bad, fd, fname, orig, us, sy, lg.sys, nopen, inh, fac, ident, t>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == /\ nopen = (IF Is(fd) THEN 1 ELSE 0) + (IF Is(us) THEN 1 ELSE 0) + sy
         /\ Is(fd) = Is(lg.file) /\ Is(us) = Is(lg.stream) /\ (sy = 1) = Is(lg.sys)
=============================================================================
