------------------------------- MODULE Filter --------------------------------
(* Passing a buffer through a child (maa/pr.c): C23.  Bytes are described as
   arithmetic runs <<first, step, length>> (mod 256); the input is the run
   <<5, 3, n>>, what a filter makes up itself the run <<1, 7, p>>.            *)
EXTENDS Util
VARIABLES pt       \* the caller's descriptors
hvars == <<pt>>
HInit == pt = {}
Run(f, s, n) == IF n = 0 THEN << >> ELSE IF n = 1 THEN <<<<f, 0, 1>>>> ELSE <<<<f, s, n>>>>
In(n) == Run(5, 3, n)
Own(n) == Run(1, 7, n)
\* what a filter of each kind makes of n bytes of input: pieces, each a run
Piece(r) == IF r = << >> THEN << >> ELSE <<r>>
Output(k, p, n) == CASE k \in {"cat", "late"} -> Piece(In(n))
                     [] k = "dup" -> Piece(In(n)) \o Piece(In(n))
                     [] k \in {"pre", "post", "slow"} -> Piece(Own(p))
                     [] k = "mix" -> Piece(Own(p)) \o Piece(In(n))
                     [] k = "sink" -> << >>
Size(k, p, n) == CASE k \in {"cat", "late"} -> n
                   [] k = "dup" -> 2 * n
                   [] k \in {"pre", "post", "slow"} -> p
                   [] k = "mix" -> p + n
                   [] k = "sink" -> 0
Clean(e) == Rng(e.pt) = pt /\ e.z = 0
Filter(e) == /\ Size(e.k, e.p, e.n) <= e.max
             /\ e.r = Size(e.k, e.p, e.n) /\ e.out = Output(e.k, e.p, e.n) /\ Clean(e) /\ UNCHANGED hvars
\* the same against simulated ends: tot bytes of output are produced
Simulated(e) == /\ e.tot <= e.max
                /\ e.prod = e.tot /\ e.r = e.tot /\ e.acc = In(e.n) /\ e.out = Own(e.tot) /\ Clean(e) /\ UNCHANGED hvars
Try(e) == /\ e.end = (CASE e.cmd = "pflt" -> IF Size(e.a[1], e.a[2], e.a[4]) > e.a[5] THEN "exit1" ELSE "ok"
                        [] e.cmd = "psim" -> IF e.a[6] > e.a[2] THEN "exit1" ELSE "ok")
          /\ UNCHANGED hvars
Do(e) == CASE e.op = "pflt"  -> Filter(e)
           [] e.op = "psim"  -> Simulated(e)
           [] e.op = "try"   -> Try(e)
           [] e.op = "pbase" -> pt' = Rng(e.pt)
           [] e.op = "peintr" -> UNCHANGED hvars
           [] e.op = "reset" -> pt' = {}
           [] OTHER -> FALSE
=============================================================================
