---------------------------- MODULE LifecycleImpl ----------------------------
(* How the library keeps what it needs globally, and gives it back: every
   facility is a static pointer to a block that is made at the facility's
   first use; maa_shutdown() (maa/maa.c) destroys the blocks in an order of
   its own.  A pointer is "nil", "live" or "dangling"; blocks hold pointers
   into other blocks (names of concrete symbols into the string pool), which
   dangle when those go.                                                      *)
EXTENDS Maa, Json
CONSTANTS Ops, Cycles    \* facilities used, number of initialisations
VARIABLES ptr,     \* facility -> "nil" | "live" | "dangling"
          cont,    \* facility -> what its block holds: name -> value
          strok,   \* are the strings that the concrete symbols point to there?
          cyc, lab, bad
vars == <<hvars, ptr, cont, strok, cyc, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
Facilities == {"str", "prs", "dbg", "flg", "tim", "lst"}
Crash(s) == L([op |-> "crash"], s)
Stay == UNCHANGED <<ptr, cont, strok, cyc>>
\* first use makes the block
Touch(f) == IF ptr[f] = "nil" THEN [ptr EXCEPT ![f] = "live"] ELSE ptr
In(f) == IF ptr[f] = "nil" THEN << >> ELSE cont[f]
Put(f, k, v) == [cont EXCEPT ![f] = (k :> v) @@ In(f)]
PutNew(f, k, v) == [cont EXCEPT ![f] = In(f) @@ (k :> v)]
Dangling(f) == ptr[f] = "dangling"
Use(f, s, act) == IF Dangling(f) THEN Stay /\ Crash(s) ELSE act

\* ---- the facilities ----
CFind(x) == LET old == In("str") IN
  Use("str", "pfind 99 " \o x,
      /\ ptr' = Touch("str") /\ cont' = PutNew("str", x, Cardinality(DOMAIN old) + 1) /\ UNCHANGED <<strok, cyc>>
      /\ L([op |-> "pfind", t |-> 99, s |-> x, out |-> x, id |-> IF x \in DOMAIN old THEN old[x] ELSE Cardinality(DOMAIN old) + 1], "pfind 99 " \o x))
CExists(x) == Use("str", "pex 99 " \o x,
      /\ ptr' = Touch("str") /\ cont' = [cont EXCEPT !["str"] = In("str")] /\ UNCHANGED <<strok, cyc>>
      /\ L([op |-> "pex", t |-> 99, s |-> x, r |-> IF x \in DOMAIN In("str") THEN 1 ELSE 0], "pex 99 " \o x))
\* registering stores both names in the string pool
CReg(v) == LET s == "preg 545f61 " \o (IF v = 1 THEN "6161" ELSE "6262") IN
  IF Dangling("prs") \/ Dangling("str") \/ (In("prs") # << >> /\ ~strok) THEN Stay /\ Crash(s)
  ELSE /\ ptr' = [Touch("prs") EXCEPT !["str"] = "live"]
       /\ cont' = [PutNew("prs", "T_a", v) EXCEPT !["str"] = In("str")]   \* their names are no strings of this model
       /\ strok' = TRUE /\ UNCHANGED cyc
       /\ L([op |-> "preg", s |-> Txt("T_a"), v |-> IF v = 1 THEN Txt("aa") ELSE Txt("bb")], s)
CLook == IF Dangling("prs") \/ (In("prs") # << >> /\ ~strok) THEN Stay /\ Crash("pconc 545f61")
  ELSE /\ Stay
       /\ L(IF In("prs") = << >> THEN [op |-> "pconc", s |-> Txt("T_a"), null |-> 1, r |-> << >>]
            ELSE [op |-> "pconc", s |-> Txt("T_a"), null |-> 0, r |-> IF In("prs")["T_a"] = 1 THEN Txt("aa") ELSE Txt("bb")], "pconc 545f61")
Fac(w) == IF w = "d" THEN "dbg" ELSE "flg"
CFReg(w) == LET f == Fac(w) s == "freg " \o w \o " 0 1 7 -1 u" IN
  Use(f, s,
    IF "u" \in DOMAIN In(f) THEN Stay /\ L([op |-> "try", cmd |-> "freg", a |-> <<w, 0, 1, 7, -1, "u">>, end |-> "exit1"], "!" \o s)
    ELSE /\ ptr' = Touch(f) /\ cont' = Put(f, "u", 0) /\ UNCHANGED <<strok, cyc>>
         /\ L([op |-> "freg", w |-> w, user |-> 0, g |-> 1, b |-> 7, b2 |-> -1, name |-> "u"], s))
CFSet(w, n) == LET f == Fac(w) s == "fset " \o w \o " " \o n IN
  Use(f, s,
    IF n \in DOMAIN In(f)
    THEN /\ cont' = Put(f, n, 1) /\ UNCHANGED <<ptr, strok, cyc>> /\ L([op |-> "fset", w |-> w, name |-> n], s)
    ELSE Stay /\ L([op |-> "try", cmd |-> "fset", a |-> <<w, n>>, end |-> "exit1"], "!" \o s))
On(f) == IF "u" \in DOMAIN In(f) /\ In(f)["u"] = 1 THEN <<<<1, 7>>>> ELSE << >>
BuiltOn == LET q == SelectSeq(<<".parse", ".sl", ".pr", ".time", ".memory">>, LAMBDA n : n \in DOMAIN In("dbg") /\ In("dbg")[n] = 1) IN [j \in 1..Len(q) |-> BuiltIn[q[j]]]
CFAll(w) == Use(Fac(w), "fall " \o w, Stay /\ L([op |-> "fall", w |-> w, on |-> On(Fac(w)) \o (IF w = "d" THEN BuiltOn ELSE << >>)], "fall " \o w))
CTStart == Use("tim", "tstart a", /\ ptr' = Touch("tim") /\ cont' = PutNew("tim", "a", 0) /\ UNCHANGED <<strok, cyc>>
                                  /\ L([op |-> "tstart", n |-> "a"], "tstart a"))
CTGet == Use("tim", "tget a",
    /\ Stay
    /\ IF "a" \in DOMAIN In("tim") THEN L([op |-> "tget", n |-> "a", r |-> 0, u |-> 0, s |-> 0], "tget a")
       ELSE L([op |-> "try", cmd |-> "tget1", a |-> <<"a", "r">>, end |-> "abort"], "!tget1 a r"))
CLNew == Use("lst", "lnew 0", /\ ptr' = Touch("lst") /\ cont' = [cont EXCEPT !["lst"] = << >>] /\ UNCHANGED <<strok, cyc>>
                              /\ L([op |-> "lnew", t |-> 0], "lnew 0"))
CLApp == Use("lst", "lapp 0 1", /\ cont' = [cont EXCEPT !["lst"] = ("n" :> 1)] /\ UNCHANGED <<ptr, strok, cyc>>
                                /\ L([op |-> "lapp", t |-> 0, d |-> 1], "lapp 0 1"))
CLLen == Use("lst", "llen 0", Stay /\ L([op |-> "llen", t |-> 0, r |-> Cardinality(DOMAIN In("lst"))], "llen 0"))

\* ---- initialisation and shutdown ----
CInit == LET B == [n \in DOMAIN BuiltIn |-> 0]  clash == DOMAIN In("dbg") \cap DOMAIN BuiltIn # {} IN
  /\ up = 0 /\ cyc < Cycles
  /\ cyc' = cyc + 1
  /\ IF Dangling("tim") \/ Dangling("dbg") \/ clash THEN UNCHANGED <<ptr, cont, strok>> /\ Crash("minit 70")
     ELSE /\ ptr' = [ptr EXCEPT !["tim"] = "live", !["dbg"] = "live"]
          /\ cont' = [PutNew("tim", "total", 0) EXCEPT !["dbg"] = B @@ In("dbg")]
          /\ UNCHANGED strok
          /\ L([op |-> "minit", name |-> Txt("p"), r |-> Txt("p")], "minit 70")
\* _pr_shutdown, _prs_shutdown, str_destroy, _lst_shutdown, _sl_shutdown, timers, flags: each destroys its block, if any, and clears its pointer
Sets(n) == n \in DOMAIN In("dbg") /\ In("dbg")[n] = 1
CShut ==
  /\ up = 1 /\ UNCHANGED cyc
  /\ IF \E f \in Facilities : Dangling(f) THEN UNCHANGED <<ptr, cont, strok>> /\ Crash("mshut")
     ELSE /\ ptr' = [f \in Facilities |-> "nil"] /\ cont' = [f \in Facilities |-> << >>]
          /\ strok' = FALSE
          /\ LET q == SelectSeq(<<"a", "total">>, LAMBDA n : n \in DOMAIN In("tim")) IN
             L([op |-> "mshut", proc |-> 0, kills |-> << >>, ver |-> IF Sets(".memory") \/ Sets(".time") THEN 1 ELSE 0, stats |-> IF Sets(".memory") THEN 1 ELSE 0,
                l |-> IF Sets(".time") THEN [j \in 1..Len(q) |-> <<q[j], 0, 0, 0>>] ELSE << >>], "mshut")
Live1 == "list" \in Ops /\ 0 \in DOMAIN lst
Init == HInit /\ ptr = [f \in Facilities |-> "nil"] /\ cont = [f \in Facilities |-> << >>] /\ strok = FALSE /\ cyc = 0 /\ lab = "" /\ bad = FALSE
Next == \/ CInit \/ CShut
        \/ "str" \in Ops /\ \E x \in {"61", "78"} : CFind(x) \/ CExists(x)
        \/ "prs" \in Ops /\ (CLook \/ \E v \in {1, 2} : CReg(v))
        \/ "dbg" \in Ops /\ (CFReg("d") \/ CFAll("d") \/ \E n \in {"u", ".time", ".memory"} : CFSet("d", n))
        \/ "flg" \in Ops /\ (CFReg("f") \/ CFAll("f") \/ CFSet("f", "u"))
        \/ "tim" \in Ops /\ (CTStart \/ CTGet)
        \/ "list" \in Ops /\ (CLNew \/ (Live1 /\ DOMAIN In("lst") = {} /\ CLApp) \/ (Live1 /\ CLLen))
Spec == Init /\ [][Next]_vars
View == <<bad, ptr, cont, strok, cyc, up, DOMAIN lst>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
\* no pointer dangles, and what is live outside a cycle was made there
Shape == (\A f \in Facilities : ptr[f] # "dangling") /\ (In("prs") # << >> => strok)
=============================================================================
