------------------------------- MODULE Memory -------------------------------
(* Object memory and string memory (maa/memory.c): properties C13, C14.
   Addresses are numbers given out in order of first appearance; byte strings
   are run-length coded: <<<<byte, count>>, ...>>.                           *)
EXTENDS Util

VARIABLES om,    \* object manager -> [size, total, reused, use, free]
          oc,    \* object in use -> content (a fill byte) or -1: unspecified
          oid,   \* addresses of objects seen so far
          sm     \* string manager -> [str: address -> bytes, grow, count, bytes]
hvars == <<om, oc, oid, sm>>
HInit == om = << >> /\ oc = << >> /\ oid = 0 /\ sm = << >>

---- (* objects *)
OLive(t) == t \in DOMAIN om
ONew(e) == om' = (e.t :> [size |-> e.size, total |-> 0, reused |-> 0, use |-> {}, free |-> {}]) @@ om /\ UNCHANGED <<oc, oid, sm>>
ODel(e) == /\ OLive(e.t) /\ om' = Without(om, e.t)
           /\ oc' = [x \in DOMAIN oc \ om[e.t].use |-> oc[x]] /\ UNCHANGED <<oid, sm>>
\* whatever is obtained is not in use and overlaps nothing in use; freed
\* objects come first
OGet(e) == /\ OLive(e.t) /\ e.over = 0
           /\ e.z = 1 => e.val = 0
           /\ IF om[e.t].free # {}
              THEN /\ e.id \in om[e.t].free /\ UNCHANGED oid
                   /\ om' = [om EXCEPT ![e.t].free = @ \ {e.id}, ![e.t].use = @ \cup {e.id}, ![e.t].reused = @ + 1]
              ELSE /\ e.id = oid + 1 /\ oid' = e.id
                   /\ om' = [om EXCEPT ![e.t].total = @ + 1, ![e.t].use = @ \cup {e.id}]
           /\ oc' = (e.id :> IF e.z = 1 THEN 0 ELSE -1) @@ oc
           /\ UNCHANGED sm
OFree(e) == /\ OLive(e.t) /\ e.id \in om[e.t].use
            /\ om' = [om EXCEPT ![e.t].use = @ \ {e.id}, ![e.t].free = @ \cup {e.id}]
            /\ oc' = Without(oc, e.id) /\ UNCHANGED <<oid, sm>>
OFill(e) == OLive(e.t) /\ e.id \in om[e.t].use /\ oc' = [oc EXCEPT ![e.id] = e.v] /\ UNCHANGED <<om, oid, sm>>
OChk(e) == /\ OLive(e.t) /\ Rng(e.ids) = om[e.t].use /\ Distinct(e.ids) /\ Len(e.val) = Len(e.ids)
           /\ Ok(\A j \in 1..Len(e.ids) : oc[e.ids[j]] \in {-1, e.val[j]})
           /\ UNCHANGED hvars
OStat(e) == /\ OLive(e.t) /\ e.total = om[e.t].total /\ e.reused = om[e.t].reused
            /\ e.used = Cardinality(om[e.t].use) /\ e.size = om[e.t].size
            /\ e.p = <<e.total, e.used, e.reused>> /\ UNCHANGED hvars

---- (* strings *)
SLive(t) == t \in DOMAIN sm
Cat(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
             ELSE IF a[Len(a)][1] = b[1][1]
                  THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
                  ELSE a \o b
NUL == <<<<0, 1>>>>
RECURSIVE RLen(_)
RLen(a) == IF a = << >> THEN 0 ELSE a[1][2] + RLen(Tail(a))
Put(T, id, s) == [T EXCEPT !.str = (id :> Cat(s, NUL)) @@ @, !.count = @ + 1, !.bytes = @ + RLen(s) + 1, !.grow = << >>]
\* a new copy: at an address of its own (or one holding those very bytes)
CanPut(T, id, s, out) == out = Cat(s, NUL) /\ (id \in DOMAIN T.str => T.str[id] = out)
MNew(e) == sm' = (e.t :> [str |-> << >>, grow |-> << >>, count |-> 0, bytes |-> 0]) @@ sm /\ UNCHANGED <<om, oc, oid>>
MDel(e) == SLive(e.t) /\ sm' = Without(sm, e.t) /\ UNCHANGED <<om, oc, oid>>
MPut(e) == /\ SLive(e.t) /\ Ok(CanPut(sm[e.t], e.id, e.in, e.out))
           /\ sm' = [sm EXCEPT ![e.t] = Put(@, e.id, e.in)] /\ UNCHANGED <<om, oc, oid>>
MGrow(e) == SLive(e.t) /\ sm' = [sm EXCEPT ![e.t].grow = Cat(@, e.in)] /\ UNCHANGED <<om, oc, oid>>
MFin(e) == /\ SLive(e.t) /\ Ok(CanPut(sm[e.t], e.id, sm[e.t].grow, e.out))
           /\ sm' = [sm EXCEPT ![e.t] = Put(@, e.id, sm[e.t].grow)] /\ UNCHANGED <<om, oc, oid>>
MChk(e) == /\ SLive(e.t) /\ Rng(e.ids) = DOMAIN sm[e.t].str
           /\ Ok(\A j \in 1..Len(e.ids) : sm[e.t].str[e.ids[j]] = e.val[j]) /\ UNCHANGED hvars
MStat(e) == SLive(e.t) /\ e.count = sm[e.t].count /\ e.bytes = sm[e.t].bytes /\ e.p = <<e.count, e.bytes>> /\ UNCHANGED hvars

Do(e) == CASE e.op = "oget" -> OGet(e)
           [] e.op = "ofree" -> OFree(e)
           [] e.op = "ofill" -> OFill(e)
           [] e.op = "ochk" -> OChk(e)
           [] e.op = "ostat" -> OStat(e)
           [] e.op = "onew" -> ONew(e)
           [] e.op = "odel" -> ODel(e)
           [] e.op = "mput" -> MPut(e)
           [] e.op = "mgrow" -> MGrow(e)
           [] e.op = "mfin" -> MFin(e)
           [] e.op = "mchk" -> MChk(e)
           [] e.op = "mstat" -> MStat(e)
           [] e.op = "mnew" -> MNew(e)
           [] e.op = "mdel" -> MDel(e)
           [] e.op = "reset" -> om' = << >> /\ oc' = << >> /\ oid' = 0 /\ sm' = << >>
           [] OTHER -> FALSE
=============================================================================
