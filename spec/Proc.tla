-------------------------------- MODULE Proc ---------------------------------
(* Child processes (maa/pr.c): C21, C22.  A descriptor is <<number, object,
   mode>>; an object is a pipe, a file or a device.                           *)
EXTENDS Util
VARIABLES pt,    \* the caller's descriptors (its standard streams included)
          own,   \* descriptor the caller got from opening a child -> that child
          kid,   \* child -> [in, out, err: objects, told: it was made to end, ended: it certainly has, code, gone: waited for]
          flow   \* object -> bytes written into it
hvars == <<pt, own, kid, flow>>
HInit == pt = {} /\ own = << >> /\ kid = << >> /\ flow = << >>
Fds(T) == {x[1] : x \in T}
Entry(T, fd) == CHOOSE x \in T : x[1] = fd
Obj(T, fd) == Entry(T, fd)[2]
NoObj == "none"
ObjIn(T, fd) == IF fd \in Fds(T) THEN Obj(T, fd) ELSE NoObj
IsPipe(o) == Len(o) > 6 /\ SubSeq(o, 1, 6) = "pipe:["
KidOf(c) == c \in DOMAIN kid
Running(c) == ~kid[c].told
Flow(o) == IF o \in DOMAIN flow THEN flow[o] ELSE 0
Conflict(bits) == \/ \E k \in 0..2 : {k, k + 3} \subseteq bits
                  \/ 6 \in bits /\ (2 \in bits \/ 5 \in bits)
                  \/ 7 \in bits

(* ---- starting a child ---- *)
Given(e) == {e.in[j] : j \in {k \in 1..3 : e.m[k] = "u"}}
Made(e) == {j \in 1..3 : e.m[j] = "c"}
\* what the child's stream j - 1 must be, its standard output (for j = 3) being so
Connected(e, T, j, x, so) ==
  CASE e.m[j] = "-" -> (j - 1) \in Fds(pt) /\ x[2] = Obj(pt, j - 1)
    [] e.m[j] = "u" -> x[2] = Obj(pt, e.in[j])
    [] e.m[j] \in {"n", "z"} -> x[2] = "/dev/null" /\ x[3] \in {"rw", IF j = 1 THEN "r" ELSE "w"}
    [] e.m[j] = "c" -> x[2] = Obj(T, e.out[j]) /\ x[3] = (IF j = 1 THEN "r" ELSE "w")
    [] e.m[j] = "o" -> x[2] = so
\* what the caller does not have the child does not get (standard error, to a standard output there is not: whatever it was)
Nowhere(e, j, C) == (e.m[j] = "-" /\ (j - 1) \notin Fds(pt)) \/ (e.m[j] = "o" /\ 1 \notin Fds(C))
Open(e) ==
  LET T == Rng(e.pt) C == Rng(e.ct)
      new == {e.out[j] : j \in Made(e)}
      untouched == {x \in pt : x[1] \notin Given(e)} IN
  /\ e.pid = 1 /\ ~KidOf(e.c) /\ Given(e) \subseteq Fds(pt)
  \* the caller holds its own ends of the new pipes and has closed what it handed over
  /\ Cardinality(new) = Cardinality(Made(e)) /\ new \subseteq Fds(T) /\ Cardinality(T) = Cardinality(Fds(T))
  /\ T = untouched \cup {Entry(T, fd) : fd \in new} /\ Cardinality(T) = Cardinality(untouched) + Cardinality(new)
  /\ Ok(\A j \in Made(e) : LET x == Entry(T, e.out[j]) IN
          IsPipe(x[2]) /\ x[3] = (IF j = 1 THEN "w" ELSE "r") /\ (\A y \in untouched : y[2] # x[2])
          /\ \A k \in Made(e) \ {j} : Obj(T, e.out[k]) # x[2])
  \* the child has the streams asked for, and otherwise at most the caller's private descriptors
  /\ Cardinality(C) = Cardinality(Fds(C)) /\ new \cap 0..2 = {}
  /\ Ok(\A j \in 1..3 : IF Nowhere(e, j, C) THEN e.m[j] = "o" \/ (j - 1) \notin Fds(C)
                         ELSE (j - 1) \in Fds(C) /\ Connected(e, T, j, Entry(C, j - 1), IF 1 \in Fds(C) THEN Obj(C, 1) ELSE NoObj))
  /\ {x \in C : x[1] > 2} \subseteq {x \in untouched : x[1] \notin DOMAIN own}
  /\ e.cb = e.wantcb
  /\ pt' = T
  /\ own' = [fd \in (DOMAIN own \ Given(e)) \cup new |-> IF fd \in new THEN e.c ELSE own[fd]]
  /\ kid' = (e.c :> [in |-> ObjIn(C, 0), out |-> ObjIn(C, 1), err |-> ObjIn(C, 2), told |-> FALSE, ended |-> FALSE, code |-> 0, gone |-> FALSE]) @@ kid
  /\ UNCHANGED flow
File(e) == /\ Rng(e.pt) = pt \cup {<<e.fd, e.o, e.mode>>} /\ e.fd \notin Fds(pt)
           /\ pt' = Rng(e.pt) /\ UNCHANGED <<own, kid, flow>>
\* a child whose command does not exist
NotFound(e) == /\ ~KidOf(e.c) /\ Cardinality(Rng(e.pt)) = Cardinality(pt) + 1 /\ pt \subseteq Rng(e.pt) /\ e.fd \in Fds(Rng(e.pt)) \ Fds(pt)
               /\ Ok(LET x == Entry(Rng(e.pt), e.fd) IN IsPipe(x[2]) /\ x[3] = "r" /\ \A y \in pt : y[2] # x[2])
               /\ pt' = Rng(e.pt) /\ own' = (e.fd :> e.c) @@ own
               /\ kid' = (e.c :> [in |-> NoObj, out |-> NoObj, err |-> NoObj, told |-> TRUE, ended |-> FALSE, code |-> 127, gone |-> FALSE]) @@ kid
               /\ UNCHANGED flow

(* ---- what children are told to do ---- *)
Code(k, n) == IF k = "x" THEN n % 256 ELSE IF n = 13 THEN 0 ELSE 128 + n
Tell(e) == /\ KidOf(e.c) /\ Running(e.c)
           /\ kid' = (IF e.k \in {"x", "k"} THEN [kid EXCEPT ![e.c].told = TRUE, ![e.c].code = Code(e.k, e.n)] ELSE kid)
           /\ flow' = (IF e.k = "W" THEN (kid[e.c].out :> Flow(kid[e.c].out) + e.n) @@ flow ELSE flow)
           /\ UNCHANGED <<pt, own>>
Ended(e) == /\ KidOf(e.c) /\ kid[e.c].told /\ e.s = (IF kid[e.c].gone THEN 2 ELSE 1)
            /\ kid' = [kid EXCEPT ![e.c].ended = TRUE] /\ UNCHANGED <<pt, own, flow>>
\* who should still be able to write into (read from) an object
Writers(o) == {c \in DOMAIN kid : ~kid[c].ended /\ ~kid[c].gone /\ o \in {kid[c].out, kid[c].err}}
Readers(o) == {c \in DOMAIN kid : ~kid[c].ended /\ ~kid[c].gone /\ kid[c].in = o}
CallerWrites(o) == \E x \in pt : x[2] = o /\ x[3] # "r"
CallerReads(o) == \E x \in pt : x[2] = o /\ x[3] # "w"
\* a child's report: it read up to end-of-file ("r"), its pipe broke ("b")
Saw(e) == /\ KidOf(e.c)
          /\ IF e.k = "r" THEN Writers(kid[e.c].in) = {} /\ ~CallerWrites(kid[e.c].in) /\ e.n = Flow(kid[e.c].in)
             ELSE Readers(kid[e.c].out) = {} /\ ~CallerReads(kid[e.c].out) /\ e.n = 1
          /\ UNCHANGED hvars
\* the caller reads up to end-of-file
Read(e) == /\ e.fd \in Fds(pt) /\ e.eof = 1 /\ e.n = Flow(Obj(pt, e.fd)) /\ UNCHANGED hvars
Write(e) == LET o == Obj(pt, e.fd) IN
  /\ e.fd \in Fds(pt)
  /\ IF Readers(o) = {} THEN e.broken = 1
     ELSE IF \E c \in Readers(o) : Running(c) THEN e.r = e.n ELSE e.broken = 1 \/ e.r = e.n
  /\ flow' = (IF e.broken = 1 THEN flow ELSE (o :> Flow(o) + e.n) @@ flow) /\ UNCHANGED <<pt, own, kid>>

(* ---- waiting ---- *)
\* st: <<child, "run" | "ended" | "gone">>
States(e, K) == LET st == e.st IN
              /\ e.dup = 0         \* no exit handler of the caller's ran in a process made for it
              /\ {st[j][1] : j \in 1..Len(st)} = DOMAIN K
                 /\ \A j \in 1..Len(st) : LET k == K[st[j][1]] IN
                      /\ k.gone = (st[j][2] = "gone")
                      /\ ~k.told => st[j][2] = "run"
                      /\ (k.ended /\ ~k.gone) => st[j][2] = "ended"
Waited(c) == [kid EXCEPT ![c].gone = TRUE, ![c].ended = TRUE]
Result(c) == IF kid[c].gone THEN 0 ELSE kid[c].code
Wait(e) == /\ KidOf(e.c) /\ kid[e.c].told /\ e.r = Result(e.c)
           /\ kid' = Waited(e.c) /\ Ok(States(e, Waited(e.c))) /\ UNCHANGED <<pt, own, flow>>
Close1(e) == /\ e.fd \in DOMAIN own /\ own' = Without(own, e.fd)
             /\ pt' = {x \in pt : x[1] # e.fd} /\ Rng(e.pt) = {x \in pt : x[1] # e.fd} /\ UNCHANGED flow
Close(e) == /\ Close1(e) /\ LET c == own[e.fd] IN
               kid[c].told /\ e.r = Result(c) /\ kid' = Waited(c) /\ Ok(States(e, Waited(c)))
CloseNoWait(e) == Close1(e) /\ e.r = own[e.fd] /\ Ok(States(e, kid)) /\ UNCHANGED kid
Spawn(e) == /\ e.r = (IF e.k = "-" THEN 127 ELSE Code(e.k, e.n))
            /\ Rng(e.pt) = pt /\ e.z = 0 /\ Ok(States(e, kid)) /\ UNCHANGED hvars
\* the spawned command has the caller's streams and none of its pipes to children
SpawnTable(e) == LET C == Rng(e.ct) IN
  /\ e.r = 0 /\ Rng(e.pt) = pt
  /\ Ok(\A fd \in 0..2 : ObjIn(C, fd) = ObjIn(pt, fd))
  /\ {x \in C : x[1] > 2} \subseteq {x \in pt : x[1] \notin DOMAIN own}
  /\ UNCHANGED hvars
Shutdown(e) ==
  LET A == {own[fd] : fd \in DOMAIN own}
      K == [c \in DOMAIN kid |-> IF c \in A THEN [kid[c] EXCEPT !.told = TRUE, !.ended = TRUE, !.gone = TRUE] ELSE kid[c]] IN
  /\ Ok(\A j \in 1..Len(e.kills) : e.kills[j][1] \in A /\ ~kid[e.kills[j][1]].gone)
  /\ Ok(States(e, K))
  /\ Rng(e.pt) \subseteq pt /\ {x \in pt : x[1] \notin DOMAIN own} \subseteq Rng(e.pt)
  /\ pt' = Rng(e.pt) /\ own' = << >> /\ kid' = K /\ UNCHANGED flow
Try(e) == /\ e.end = (CASE e.cmd = "pbad" -> IF Conflict(Rng(e.a)) THEN "abort" ELSE "ok"
                        [] e.cmd \in {"pcfd", "pnfd"} -> IF e.a[1] \in DOMAIN own THEN "ok" ELSE "abort")
          /\ UNCHANGED hvars
Do(e) == CASE e.op = "pctl"    -> Tell(e)
           [] e.op = "pend"    -> Ended(e)
           [] e.op = "popen"   -> Open(e)
           [] e.op = "pfile"   -> File(e)
           [] e.op = "pnot"    -> NotFound(e)
           [] e.op = "prep"    -> Saw(e)
           [] e.op = "pread"   -> Read(e)
           [] e.op = "pwrite"  -> Write(e)
           [] e.op = "pwait"   -> Wait(e)
           [] e.op = "pclose"  -> Close(e)
           [] e.op = "pnowait" -> CloseNoWait(e)
           [] e.op = "pspawn"  -> Spawn(e)
           [] e.op = "pspawnt" -> SpawnTable(e)
           [] e.op = "pshut"   -> Shutdown(e)
           [] e.op \in {"peintr", "pinit"} -> UNCHANGED hvars
           [] e.op = "try"     -> Try(e)
           [] e.op = "plimit"  -> Rng(e.pt) = pt /\ UNCHANGED hvars      \* the caller may have more descriptors, and uses more
           [] e.op = "pbase"   -> pt' = Rng(e.pt) /\ UNCHANGED <<own, kid, flow>>
           [] e.op = "reset"   -> pt' = {} /\ own' = << >> /\ kid' = << >> /\ flow' = << >>
           [] OTHER -> FALSE
=============================================================================
