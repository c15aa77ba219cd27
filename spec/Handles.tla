------------------------------- MODULE Handles -------------------------------
(* Every operation checks the object it is given (maa.h: structures "will be
   tagged with a magic number which will be checked for integrity at each
   access"): C36.                                                             *)
EXTENDS Util
VARIABLES obj      \* slot -> [kind, n]: what the caller holds there
hvars == <<obj>>
HInit == obj = << >>
KindSet == {"hash", "set", "list", "skip", "objs", "strs", "args"}
\* "gone": a destroyed skip list; "other": memory that is no object at all; "null"
\* what each operation wants
Wants ==
  [f \in {"hsh_destroy", "hsh_insert", "hsh_delete", "hsh_retrieve", "hsh_iterate", "hsh_iterate_arg", "hsh_get_stats", "hsh_print_stats",
          "hsh_init_position", "hsh_next_position", "hsh_readonly", "hsh_key_strings"} |-> <<"hash">>] @@
  [f \in {"set_destroy", "set_insert", "set_delete", "set_member", "set_iterate", "set_iterate_arg", "set_init_position", "set_next_position",
          "set_readonly", "set_count", "set_get_stats", "set_print_stats", "set_get_hash", "set_get_compare"} |-> <<"set">>] @@
  [f \in {"set_add", "set_del", "set_union", "set_inter", "set_diff", "set_equal"} |-> <<"set", "set">>] @@
  [f \in {"lst_destroy", "lst_append", "lst_push", "lst_pop", "lst_top", "lst_nth_get", "lst_nth_set", "lst_member", "lst_length", "lst_truncate",
          "lst_truncate_position", "lst_iterate", "lst_iterate_arg", "lst_dump", "lst_init_position", "lst_last_position", "lst_nth_position"} |-> <<"list">>] @@
  [f \in {"sl_destroy", "sl_insert", "sl_delete", "sl_find", "sl_iterate", "sl_iterate_arg"} |-> <<"skip">>] @@
  [f \in {"mem_destroy_objects", "mem_get_object", "mem_get_empty_object", "mem_free_object", "mem_get_object_stats", "mem_print_object_stats"} |-> <<"objs">>] @@
  [f \in {"mem_destroy_strings", "mem_strcpy", "mem_strncpy", "mem_grow", "mem_finish", "mem_get_string_stats", "mem_print_string_stats"} |-> <<"strs">>] @@
  [f \in {"arg_destroy", "arg_add", "arg_addn", "arg_grow", "arg_finish", "arg_get", "arg_count", "arg_get_vector"} |-> <<"args">>]
\* where a null object is nothing to do
Lenient == {"lst_append", "sl_iterate", "sl_iterate_arg"}
Null == -1
KindOf(s) == IF s = Null THEN "null" ELSE obj[s].kind
Right(f, w, k) == k = w \/ (k = "null" /\ f \in Lenient)
New(e) == /\ e.k \in KindSet \cup {"other"}
          \* the memory of a destroyed skip list serves the next one
          /\ obj' = (e.s :> [kind |-> e.k, n |-> e.n]) @@ [s \in {x \in DOMAIN obj : e.k # "skip" \/ obj[x].kind # "gone"} |-> obj[s]]
Del(e) == /\ e.s \in DOMAIN obj
          /\ obj' = IF obj[e.s].kind = "skip" THEN [obj EXCEPT ![e.s].kind = "gone"] ELSE [s \in DOMAIN obj \ {e.s} |-> obj[s]]
Try(e) == /\ e.cmd = "xuse"
          /\ LET f == e.a[1] w == Wants[f] IN
             e.end = IF \A j \in 1..Len(w) : Right(f, w[j], KindOf(e.a[1 + j])) THEN "ok" ELSE "abort"
          /\ UNCHANGED hvars
Do(e) == CASE e.op = "xnew"  -> New(e)
           [] e.op = "xdel"  -> Del(e)
           [] e.op = "try"   -> Try(e)
           [] e.op = "reset" -> obj' = << >>
           [] OTHER -> FALSE
=============================================================================
