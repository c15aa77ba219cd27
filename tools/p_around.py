"""The process around the library (C39)."""
import p_hash, p_set, p_list, p_mem, p_num, p_sys, p_src, p_log, p_proc, p_life
from p_list import M, X
from p_leak import closed

def base(rng): return "xbase %d" % rng.choice([0] + [rng.randrange(1, 1 << 30)] * 5)
def looking(rng, lines, often=.5):
    out = []
    for l in lines:
        out.append(l)
        if not l.startswith("!") and rng.random() < often: out.append("xlook")
    return out + ["xlook"]
def seed(walk): return sum(map(ord, "".join(walk))) * 7919 % 1000003
def log_walk(walk, i):
    out = ["linit", "xbase %d" % seed(walk)]
    for l in walk: out += [l] + ["lscan"] * (l[0] == "!") + ["xlook"]
    return out
def proc_walk(walk, i):
    w = p_proc.started(walk, i)
    out = [w[0], "xbase %d" % seed(walk)]
    for l in w[1:]: out += [l, "xlook"]
    return out

def logs(rng, thorough):
    """log workloads, as the caller set itself up"""
    out = []
    p_life.STORE.clear()
    for q in range(40 if not thorough else 1000):
        fn = rng.choice([p_log.log_hist, p_log.log_rotate, p_log.errors])
        l = p_life.some(rng, fn, 120)
        if not l or l[0] != "linit": l = ["linit"] + l
        out.append(["linit"] + ["lstd"] * (rng.random() < .4) + [base(rng)] + looking(rng, [x for x in l[1:] if x != "lstd"]))
    # turnover after turnover, and closed in every way
    for q in range(6 if not thorough else 100):
        l, t = ["linit"] + ["lstd"] * (q % 2) + [base(rng)], 0
        for r in range(3):
            l.append("lfile i %s" % rng.choice(["%Y/%m/%d", "d%H/%M.%S", "%F/x/%T", "a.%j"]).encode().hex())
            for _ in range(rng.choice([2, 10, 40])):
                t = p_log.clock(rng, t); l += ["lnow %d" % t, "lmsg i @ 61"] + ["xlook"] * (rng.random() < .5)
            l += ["lclose " + rng.choice("fgFa"), "xlook"]
        out.append(l)
    return out

def drop(l): return [x for x in l if not x.startswith(("plimit", "dtr"))]
def children(rng, thorough):
    out = []
    fns = [p_proc.proc_hist, p_proc.pipelines, p_proc.requests, p_proc.statuses]
    many = [(fn, [drop(l) for l in fn(rng, False)]) for fn in fns]
    for q in range(40 if not thorough else 800):
        fn, ls = rng.choice(many)
        l = rng.choice(ls)[:rng.choice([30, 80, 120])]
        out.append([l[0], base(rng)] + looking(rng, l[1:], .3) + ["xflt", "xlook"])
    return out
def filters(rng, thorough):
    out = []
    many = [drop(l) for fn in (p_proc.filters, p_proc.filters, p_proc.simulated) for l in fn(rng, False)]
    for q in range(30 if not thorough else 500):
        l = rng.choice(many)[:20]
        out.append([l[0], base(rng)] + looking(rng, l[1:], .5) + ["xflt", "xlook"])
    return out
def everything(rng, thorough):
    """every other part of the library, from initialisation to shutdown"""
    out = []
    p_life.STORE.clear()
    for q in range(12 if not thorough else 300):
        kinds = [rng.choice([p_hash.hash_map, p_hash.hash_iter]), rng.choice([p_set.set_member, p_set.set_algebra, p_set.set_enum]), p_list.list_seq, p_list.skip_map,
                 p_list.stack_hist, p_mem.obj_hist, p_mem.pools, p_mem.arg_vec]
        parts = [p_life.some(rng, fn, 60) for fn in rng.sample(kinds, 4)]
        l = [x for x in p_life.riffle(rng, parts + [p_life.flags(rng)]) if x != "linit"]
        out.append([base(rng), "tclk 0 0 0 0 0", "minit " + rng.choice(["a", "/b/prog"]).encode().hex()] + looking(rng, l, .1) + ["mshut", "xlook"])
    for q in range(10 if not thorough else 100):
        fn = rng.choice([p_src.src_hist, p_src.diag, p_sys.timers, p_mem.argify_all])
        out.append([base(rng)] + looking(rng, p_life.some(rng, fn, 150), .1))
    return out

PROPS = {
    "C39": dict(models=[M("AroundLogImpl", "AroundLogC39", "AroundTrace", lines=log_walk, budget=4000), M("AroundLogImpl", "AroundLogC39b", "AroundTrace", lines=log_walk, budget=4000), M("AroundLogImpl", "AroundLogC39x", None, **X),
                        M("AroundProcImpl", "AroundProcC39", "AroundTrace", lines=proc_walk, budget=2000), M("AroundProcImpl", "AroundProcC39b", "AroundTrace", lines=proc_walk, budget=2000), M("AroundProcImpl", "AroundProcC39x", None, **X)],
                gens=[dict(fn=logs, trace="AroundTrace"), dict(fn=children, trace="AroundTrace"), dict(fn=filters, trace="AroundTrace"), dict(fn=everything, trace="AroundTrace")],
                assumptions=["what a caller's exit handlers, callbacks and commands do themselves is theirs", "whether an interval timer runs is looked at, not what is left of it"]),
}
