"""Objects given to operations (C36)."""
from p_list import M, X
KINDS = "hash set list skip objs strs args other".split()
WANTS = {
 "hash": "hsh_destroy hsh_insert hsh_delete hsh_retrieve hsh_iterate hsh_iterate_arg hsh_get_stats hsh_print_stats hsh_init_position hsh_next_position hsh_readonly hsh_key_strings",
 "set": "set_destroy set_insert set_delete set_member set_iterate set_iterate_arg set_init_position set_next_position set_readonly set_count set_get_stats set_print_stats set_get_hash set_get_compare",
 "2": "set_add set_del set_union set_inter set_diff set_equal",
 "list": "lst_destroy lst_append lst_push lst_pop lst_top lst_nth_get lst_nth_set lst_member lst_length lst_truncate lst_truncate_position lst_iterate lst_iterate_arg lst_dump lst_init_position lst_last_position lst_nth_position",
 "skip": "sl_destroy sl_insert sl_delete sl_find sl_iterate sl_iterate_arg",
 "objs": "mem_destroy_objects mem_get_object mem_get_empty_object mem_free_object mem_get_object_stats mem_print_object_stats",
 "strs": "mem_destroy_strings mem_strcpy mem_strncpy mem_grow mem_finish mem_get_string_stats mem_print_string_stats",
 "args": "arg_destroy arg_add arg_addn arg_grow arg_finish arg_get arg_count arg_get_vector" }
FUNS = [(f, k) for k, l in WANTS.items() for f in l.split()]

def mixed(rng, thorough):
    """objects of all kinds side by side, of several sizes, every operation on each"""
    out = []
    for q in range(12 if not thorough else 150):
        kinds = KINDS + [rng.choice(KINDS) for _ in range(4)]
        rng.shuffle(kinds)
        l, gone = [], []
        for s, k in enumerate(kinds): l.append("xnew %d %s %d" % (s, k, max(rng.choice([0, 0, 1, 2, 8, 40]), k in ("skip", "list", "args"))))  # (some operations want an element)
        skips = [s for s, k in enumerate(kinds) if k == "skip"]
        if rng.random() < .6: gone = [skips[0]]; l.append("xdel %d" % skips[0])
        slots = list(range(len(kinds))) + [-1]
        for f, k in rng.sample(FUNS, 20):
            if k == "2": l += ["!xuse %s %d %d" % (f, rng.choice(slots + [s for s in range(len(kinds)) if kinds[s] == "set"] * 4), rng.choice(slots)) for _ in range(4)]
            else: l += ["!xuse %s %d" % (f, s) for s in rng.sample(slots, 5)]
        out.append(l)
    return out

PROPS = { "C36": dict(models=[M("HandlesImpl", "HandlesC36", "HandlesTrace"), M("HandlesImpl", "HandlesC36b", "HandlesTrace"), M("HandlesImpl", "HandlesC36x", None, **X)],
                      gens=[dict(fn=mixed, trace="HandlesTrace")],
                      assumptions=["MAA_MAGIC is on (the default)", "memory that was given back to the system is not used as an object"]) }
