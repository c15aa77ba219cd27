-------------------------------- MODULE Lent --------------------------------
(* What the caller hands to the library lies in memory that can only be read
   (the things held by address only, in memory that cannot even be read), and
   is gone as soon as the operation returns, unless a container is to hold it
   (C41).  given[k] is how many things of kind k were given and not dropped.
   A write to what was lent, a look at what is held by address only, and a
   look at what is gone end the process: the event "crash", which nothing
   accepts.                                                                  *)
EXTENDS Maa
VARIABLES given
lvars == <<hvars, given>>
\* the library must have a copy: the caller's text is gone after the call
Copied == {"strs", "strn", "pool", "pooln", "glob", "globn", "grown", "arg", "argn", "argify", "dflag", "flag", "timer", "line", "file", "cpp", "symbol", "concrete"}
\* the caller keeps it as long as the container holds it
Held == {"hash", "hstr", "set", "sstr", "skip", "progname"}
\* ... and it is not even looked at
Address == {"hptr", "hdatum", "sptr", "list", "stack", "skipd", "sarg"}
Kinds0 == Copied \cup Held \cup Address
\* functions that only read what they are given
Readers == {"soundex", "b26", "b64", "hashes", "dbgset", "flgset", "loginfo", "logerror", "warning", "srcerror", "srcmsg", "parse", "cppline", "exists", "argify", "argquote",
            "spawn", "filter", "concrete", "retrieve", "member", "find", "facility", "timers", "bits"}
LInit == HInit /\ given = [k \in Kinds0 |-> 0]
LDo(e) == CASE e.op = "lend" -> UNCHANGED lvars
            [] e.op = "lgive" -> e.k \in Kinds0 /\ given' = [given EXCEPT ![e.k] = @ + 1] /\ e.r = 1 /\ UNCHANGED hvars
            \* everything is still there, as it was given
            [] e.op = "luse" -> e.k \in Kinds0 /\ e.n = given[e.k] /\ e.good = e.n /\ UNCHANGED lvars
            [] e.op = "ldrop" -> e.k \in Kinds0 /\ given' = [given EXCEPT ![e.k] = 0] /\ UNCHANGED hvars
            [] e.op = "lread" -> e.f \in Readers /\ e.r = 1 /\ UNCHANGED lvars
            [] e.op = "reset" -> Do(e) /\ given' = [k \in Kinds0 |-> 0]
            [] OTHER -> Do(e) /\ UNCHANGED given
=============================================================================
