----------------------------- MODULE FaultsImpl -----------------------------
(* How the library does it: everything goes through xmalloc and its kin, which
   report and exit.  Need(f, n) is the account of what each operation asks for
   on an object built by n insertions; Alloc runs through it step by step.
   The same for descriptors: pr_open makes its pipes one after the other.     *)
EXTENDS Faults, Json, Naturals
CONSTANTS Sizes, Families
VARIABLES lab, bad
vars == <<hvars, lab, bad>>
Judge(e) == IF ENABLED Do(e) THEN Do(e) /\ bad' = FALSE ELSE UNCHANGED hvars /\ bad' = TRUE
L(e, s) == Judge(e) /\ lab' = s
T2(t) == " " \o ToString(t)
\* a hash table doubles beyond: sizes before which an insertion finds it more than half full
Tight == {2, 6, 15, 36, 87}           \* (first sizes of the prime sequence; what is really asked for decides)
Hashed(n) == IF n \in Tight THEN 2 + n + 1 ELSE 1
Need(f, n) ==
  CASE f \in {"stk_create", "stk_push", "hsh_get_stats", "set_get_stats", "mem_get_object_stats", "mem_get_string_stats", "xmalloc", "xcalloc", "xrealloc", "xstrdup",
              "lst_pop", "mem_free_object", "sl_insert", "sl_iterate", "sl_destroy", "str_pool_get_stats"} -> 1
    [] f \in {"hsh_create", "set_create", "mem_get_object", "mem_get_empty_object", "mem_strcpy", "mem_strncpy", "str_pool_copy", "str_pool_copyn", "mem_create_strings", "src_get"} -> 2
    [] f \in {"mem_create_objects", "lst_append", "lst_push"} -> 3
    [] f \in {"lst_create", "sl_create"} -> 6
    [] f \in {"hsh_insert", "set_insert"} -> Hashed(n)
    [] f \in {"str_pool_find", "str_find", "str_findn", "src_line", "arg_add", "arg_addn"} -> 2 + Hashed(n)
    [] OTHER -> 6
\* the k-th is refused (mode 1: all from there on): the first refusal ends it
RECURSIVE Alloc(_, _, _, _)
Alloc(i, need, k, mode) == IF i > need THEN "ok" ELSE IF i = k \/ (mode = 1 /\ i > k) THEN "exit1" ELSE Alloc(i + 1, need, k, mode)
COom(f, n, mode, k) ==
  LET end == Alloc(1, Need(f, n), k, mode) hit == IF end = "ok" THEN 0 ELSE 1 IN
  L([op |-> "oom", f |-> f, n |-> n, mode |-> mode, k |-> k, hit |-> hit, end |-> end, said |-> hit], "oom " \o f \o T2(n) \o T2(mode) \o T2(k))
\* pipes one after the other, two descriptors each
RECURSIVE Pipes(_, _)
Pipes(m, left) == IF m = 0 THEN "ok" ELSE IF left < 2 THEN "exit1" ELSE Pipes(m - 1, left - 2)
CNoFd(f, m, left) ==
  LET end == IF f = "log" THEN (IF left = 0 THEN "exit1" ELSE "ok") ELSE Pipes(Bits(m), left) IN
  L([op |-> "nofd", f |-> f, mask |-> m, left |-> left, end |-> end, said |-> IF end = "ok" THEN 0 ELSE 1], "nofd " \o f \o T2(m) \o T2(left))
CNoFork(f) == L([op |-> "nofork", f |-> f, end |-> "exit1", said |-> 1], "nofork " \o f)
CNoLog(h) == L([op |-> "nolog", how |-> h, end |-> "exit1", said |-> 1, logged |-> IF h >= 2 THEN 1 ELSE 0], "nolog" \o T2(h))
CHuge(w) == L([op |-> "huge", w |-> w, end |-> "exit1", said |-> 1], "huge" \o T2(w))
CXFree == L([op |-> "xfree0", end |-> "exit1", said |-> 1], "xfree0")
Of == [hash  |-> {"hsh_create", "hsh_insert", "hsh_get_stats", "set_create", "set_insert", "set_add", "set_union", "set_inter", "set_diff", "set_get_stats"},
       list  |-> {"lst_create", "lst_append", "lst_push", "lst_pop", "lst_truncate", "sl_create", "sl_insert", "sl_iterate", "sl_destroy", "stk_create", "stk_push"},
       mem   |-> {"mem_create_objects", "mem_get_object", "mem_get_empty_object", "mem_free_object", "mem_get_object_stats", "mem_create_strings", "mem_strcpy",
                  "mem_strncpy", "mem_grow", "mem_get_string_stats", "xmalloc", "xcalloc", "xrealloc", "xstrdup"},
       str   |-> {"str_pool_create", "str_pool_find", "str_pool_copy", "str_pool_copyn", "str_pool_grow", "str_pool_get_stats", "str_find", "str_findn", "str_copy",
                  "str_grow", "str_exists", "str_unique", "arg_create", "arg_add", "arg_addn", "arg_grow", "arg_argify"},
       sys   |-> {"tim_start", "dbg_register", "flg_register", "err_set_program_name", "prs_register_concrete", "src_line", "src_get", "src_cpp_line", "src_get_stats",
                  "log_file", "log_stream", "maa_init", "pr_open", "pr_spawn"}]
Init == HInit /\ lab = "" /\ bad = FALSE
Next == \/ \E fam \in Families \cap DOMAIN Of : \E f \in Of[fam], n \in Sizes, mode \in {0, 1} : \E k \in 1..(Need(f, n) + 1) : COom(f, n, mode, k)
        \/ "fds" \in Families /\ (CXFree \/ (\E w \in 0..7 : CHuge(w)) \/ (\E m \in 1..7, left \in 0..6 : CNoFd("open", m, left)) \/ (\E left \in 0..2 : CNoFd("log", 0, left))
                                  \/ (\E f \in {"open", "spawn", "filter"} : CNoFork(f)) \/ \E h \in 0..3 : CNoLog(h))
Spec == Init /\ [][Next]_vars
View == <<bad>>          \* (every fault strikes a process of its own)
Emit == PrintT("EDGE " \o ToJson(<<View, lab', View'>>))
Good == ~bad
Shape == ran \in Nat
=============================================================================
