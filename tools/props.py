"""The registry: property -> models, tours and workloads."""
PROPS = {}
import p_hash, p_set, p_list, p_mem, p_num, p_sys, p_src, p_log, p_proc, p_life, p_leak, p_handles, p_faults, p_scale, p_around, p_cost, p_lent
for m in (p_hash, p_set, p_list, p_mem, p_num, p_sys, p_src, p_log, p_proc, p_life, p_leak, p_handles, p_faults, p_scale, p_around, p_cost, p_lent):
    PROPS.update(m.PROPS)
