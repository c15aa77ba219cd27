------------------------------ MODULE LentImpl ------------------------------
(* The library's view of the caller's memory.  A thing that is given lies in a
   cell; what the library holds is either its own copy or the cell itself.
   The caller takes a cell back after the call when the kind is one that must
   be copied, or with the container.  With a kind in NoCopy, Writes or Peeks
   the same machine touches what it must not (C41).                           *)
EXTENDS Lent, Json
CONSTANTS Kinds, Reads, Max1, Together, NoCopy, Writes, Peeks
VARIABLES cell, lib, lab, bad    \* cell[k]: what became of each cell; lib[k]: "own" or the cell's number
vars == <<lvars, cell, lib, lab, bad>>
Judge(e) == IF ENABLED LDo(e) THEN LDo(e) /\ bad' = FALSE ELSE UNCHANGED lvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
Crash(s) == L([op |-> "crash"], s)
Touch(k, r) == IF r = 0 THEN "ok" ELSE IF cell[k][r] = "gone" \/ (k \in Address /\ k \in Peeks) THEN "crash" ELSE "ok"
Give(k) ==
  LET s == "lgive " \o k
      mine == k \in Copied /\ k \notin NoCopy IN
  /\ Len(cell[k]) < Max1
  /\ IF k \in Writes THEN Crash(s) /\ UNCHANGED <<cell, lib>>
     ELSE /\ L([op |-> "lgive", k |-> k, r |-> 1], s)
          /\ cell' = [cell EXCEPT ![k] = Append(@, IF k \in Copied THEN "gone" ELSE "lent")]
          /\ lib' = [lib EXCEPT ![k] = Append(@, IF mine THEN 0 ELSE Len(cell[k]) + 1)]
Look(k) ==
  /\ lib[k] # << >> /\ UNCHANGED <<cell, lib>>
  /\ IF \E i \in DOMAIN lib[k] : Touch(k, lib[k][i]) = "crash" THEN Crash("luse " \o k)
     ELSE L([op |-> "luse", k |-> k, n |-> Len(lib[k]), good |-> Len(lib[k])], "luse " \o k)
DropAll(k) ==
  /\ lib[k] # << >> /\ cell' = [cell EXCEPT ![k] = << >>] /\ lib' = [lib EXCEPT ![k] = << >>]
  /\ L([op |-> "ldrop", k |-> k], "ldrop " \o k)
Read(f) == UNCHANGED <<cell, lib>> /\ IF f \in Writes THEN Crash("lread " \o f) ELSE L([op |-> "lread", f |-> f, r |-> 1], "lread " \o f)
Init == LInit /\ cell = [k \in Kinds |-> << >>] /\ lib = [k \in Kinds |-> << >>] /\ lab = "" /\ bad = FALSE
Others1(k) == {x \in Kinds \ {k} : lib[x] # << >>}
Next == \/ \E k \in Kinds : Cardinality(Others1(k)) < Together /\ (Give(k) \/ Look(k) \/ DropAll(k))
        \/ \E f \in Reads : (\A k \in Kinds : lib[k] = << >>) /\ Read(f)
Spec == Init /\ [][Next]_vars
View == <<lib, bad>>
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
\* the library holds nothing that is gone, and only cells of what it is to hold
Shape == \A k \in Kinds : \A i \in DOMAIN lib[k] : lib[k][i] # 0 => k \notin Copied /\ cell[k][lib[k][i]] = "lent"
=============================================================================
