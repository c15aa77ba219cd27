"""Memory given back (C35)."""
import re
from p_list import M, X
import p_hash, p_set, p_list, p_mem, p_life

NEW = {k + "new": k + "del" for k in "hslkyompa"}
def measured(walk, i):
    """the memory after every step"""
    out = ["mem"]
    for l in walk: out += [l, "mem"] if l != "mem" else ["mem"]
    return out + ["mem"]

def closed(rng, lines, often):
    """the same with nothing left over: destroy before a name is used again and at the end; look now and then"""
    out, live = [], {}
    def kill(d, t):
        if d in ("hdel", "sdel", "pdel"): out.append("%sro %s 0" % (d[0], t))
        out.append("%s %s" % (d, t)); live.pop((d, t))
    for l in lines:
        w = l.split()
        if w[0] == "salg" and w[1] in "uid": mk = ("sdel", w[2])
        elif w[0] in NEW: mk = (NEW[w[0]], w[1])
        else: mk = None
        if mk:
            if mk in live: kill(*mk)
            live[mk] = 1
        out.append(l)
        if (w[0], w[1] if len(w) > 1 else "") in live: live.pop((w[0], w[1]))
        if rng.random() < often: out.append("mem")
    for d, t in list(live): kill(d, t); out.append("mem")
    return out

def held(rng, thorough):
    p_life.STORE.clear()
    out = []
    fns = [p_hash.hash_map, p_hash.hash_iter, p_hash.hash_big, p_set.set_member, p_set.set_algebra, p_set.set_enum, p_list.stack_hist, p_list.list_seq,
           p_list.skip_map, p_list.skip_iter, p_mem.obj_hist, p_mem.str_mem, p_mem.pools, p_mem.arg_vec]
    def body(fn, most):
        l = [x for x in p_life.some(rng, fn, most) if not x.startswith(("ochk", "mchk", "pchk", "argall"))]
        return l
    for q in range(70 if not thorough else 2000):
        one = rng.random() < .5
        # sets of names in common: one of each kind only
        pick = [rng.choice(fns + [p_hash.hash_stats])] if one else rng.sample(fns[:1] + fns[3:4] + fns[6:9] + fns[10:], rng.randrange(2, 6))
        parts = [body(fn, 400 if one else 100) for fn in pick]
        l = closed(rng, p_life.riffle(rng, parts), rng.choice([.05, .3]))
        again = rng.choice([1, 1, 2])
        l = l + ["mem"]
        l = l * (again + 1) if not {"str_mem", "obj_hist", "pools"} & {f.__name__ for f in pick} else l
        if rng.random() < .3: l = ["minit 70"] + l + ["mshut", "mem"]
        out.append(l)
    # the same list workload over and over needs no more memory
    for q in range(10 if not thorough else 80):
        l = body(rng.choice([p_list.list_seq, p_list.list_pos]), 150)
        l = closed(rng, l, .2) + ["mem"]
        out.append(l * 4)
    # strings and argument lists that grow, given up half way or finished
    for q in range(10 if not thorough else 200):
        l = []
        for r in range(3):
            l += ["mnew 0", "anew 0", "pnew 0"]
            for _ in range(rng.choice([1, 10, 60])):
                l.append(rng.choice(["mgrow 0 97x%d" % rng.choice([0, 1, 7, 100]), "mfin 0", "agrow 0 6162", "afin 0", "aadd 0 61", "pgrow 0 6161", "pfin 0"]))
            l += ["mdel 0", "adel 0", "pdel 0", "mem"]
        out.append(l)
    return out

PROPS = {
    "C35": dict(models=[M("LeakImpl", "LeakC35", "LeakTrace", lines=measured), M("LeakImpl", "LeakC35b", "LeakTrace", lines=measured), M("LeakImpl", "LeakC35c", "LeakTrace", lines=measured), M("LeakImpl", "LeakC35x", None, **X)],
                gens=[dict(fn=held, trace="LeakTrace"), dict(fn=lambda r, t: [with_mem(r, l) for l in p_life.lifecycle(r, t)[:24 if not t else 400]], trace="LeakTrace")],
                assumptions=["blocks are counted at malloc, calloc, realloc, free and strdup as called by the library's objects"]),
}
def with_mem(rng, l):
    out = []
    for x in l:
        out.append(x)
        if x == "mshut" or rng.random() < .02: out.append("mem")
    return out
