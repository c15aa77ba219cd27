"""Initialisation and shutdown, the whole library at once (C30)."""
from p_list import M, X
from p_mem import hx
import re
import p_hash, p_set, p_list, p_mem, p_num, p_sys, p_src, p_log, p_proc

STORE = {}
def some(rng, fn, most):
    """a prefix of a random scenario of some generator"""
    k = fn.__name__
    if k not in STORE: STORE[k] = [s for s in fn(rng, False) if len(s) < 2000 and not any(l.startswith(("stacklimit", "hfill", "yfill")) for l in s)]
    s = rng.choice(STORE[k])
    return s[:rng.choice([5, most, most])]
def riffle(rng, parts):
    parts = [list(p) for p in parts if p]
    out = []
    while parts:
        p = rng.choice(parts)
        n = rng.choice([1, 1, 2, 5])
        # keep what belongs together
        out += p[:n]; del p[:n]
        if not p: parts.remove(p)
    return out

def flags(rng):
    l, reg, free = [], {"d": [], "f": []}, {w: [(g, b) for g in range(3) for b in range(30)] for w in "df"}
    for w in "df": rng.shuffle(free[w])
    names = {"d": [".memory", ".time"], "f": []}
    for _ in range(rng.choice([0, 5, 20])):
        w, x = rng.choice("df"), rng.random()
        if x < .35:
            g, b = free[w].pop(); n = "fl%d" % (90 - len(free[w]))
            l.append("freg %s %d %d %d -1 %s" % (w, rng.randrange(2) if w == "d" else 0, g, b, n)); reg[w].append((n, g, b))
        elif x < .6 and (w == "d" or reg[w]):
            l.append("fset %s %s%s" % (w, rng.choice(["", "+", "-"]), rng.choice([n for n, _, _ in reg[w]] + names[w])))
        elif x < .65 and (w == "d" or reg[w]): l.append("fset %s none" % w)
        elif x < .75: l.append("!fset %s %s" % (w, rng.choice(["zz", "-zz", "fl99", ".tim"])))
        elif x < .85 and (w == "d" or reg[w]): l.append("flist " + w)
        elif x < .9: l.append("!freg d 0 3 29 -1 x")
        else: l.append("fall " + w)
    return l + ["fall d", "fall f", "flist d"]

# with log files, or with children: both change the set of open descriptors
def lifecycle(rng, thorough):
    STORE.clear()
    out = []
    for q in range(64 if not thorough else 1500):
        logs = q % 2 == 0
        n = rng.choice([1, 2, 3, 5])
        # what outlives a shutdown
        long = [fn for fn in (rng.choice([p_hash.hash_map, p_hash.hash_iter]), rng.choice([p_set.set_member, p_set.set_enum]), p_list.stack_hist, p_mem.obj_hist, p_mem.str_mem, p_mem.pools, p_mem.arg_vec, p_num.bases) if rng.random() < .25]
        kept = riffle(rng, [some(rng, fn, 60) for fn in long])
        cut = sorted(rng.randrange(len(kept) + 1) for _ in range(n - 1))
        kept = [kept[a:b] for a, b in zip([0] + cut, cut + [len(kept)])]
        if logs:
            lg = [l for l in some(rng, p_log.log_hist, 60) if l != "linit"]
            cut = sorted(rng.randrange(len(lg) + 1) for _ in range(n - 1))
            lg = [lg[a:b] for a, b in zip([0] + cut, cut + [len(lg)])]
            lgs = {l for p in lg for l in p}
        out_l = (["linit"] if logs else ["pbase"]) + ["tclk 0 0 0 0 0"]
        for c in range(n):
            parts = [kept[c]]
            if logs:
                # an attempt and the look at what it wrote stay together
                parts.append(lg[c])
            elif rng.random() < .5:
                parts.append(["pspawn x %d" % rng.randrange(256)])
            conc = rng.random() < .6
            lists = rng.choice([p_list.list_seq, p_list.list_seq, p_list.list_pos, None])
            if lists: parts.append(some(rng, lists, 60))
            if rng.random() < .5: parts.append(some(rng, p_list.skip_map, 60))
            source = rng.random() < .5
            if source: parts.append(some(rng, p_src.src_hist, 60) + ["qdel"])
            if rng.random() < .7:
                g = [re.sub(r"^(\w+) 0\b", r"\1 %d" % (20 + c), l) for l in some(rng, p_mem.global_pool, 60)]
                # a string that grows is not to be interrupted by others that are stored
                if source or conc: g = [l for l in g if not l.startswith(("pgrow", "pfin 99", "pdel 99", "pex 99", "pit 99"))]   # nor is the pool to go while names in it are in use
                parts.append(g)
            if rng.random() < .7: parts.append([l for l in some(rng, p_sys.timers, 40) if l != "tclk 0 0 0 0 0"])
            if conc: parts.append(["preg %s %s" % (hx(b"T_%d" % rng.randrange(6)), hx(bytes([97 + rng.randrange(26)]))) if rng.random() < .6 else "pconc " + hx(b"T_%d" % rng.randrange(6)) for _ in range(12)])
            parts.append(flags(rng))
            if not logs and rng.random() < .7: parts.append(children(rng, 1 + c * 8))
            out_l.append("minit " + hx(rng.choice([b"prog", b"/usr/bin/prog", b"a/b/c%d" % c])))
            out_l += ["fall d", "fall f", "flist d", "mver"]
            b = riffle(rng, parts)
            out_l += b
            out_l += ["pconc " + hx(b"T_%d" % i) for i in range(6)] if rng.random() < .3 else []
            out_l.append("mshut")
            if rng.random() < .5: out_l += ["fall d", "fall f", "!fset d .time", "!fset f fl1"]
            if rng.random() < .3: out_l += ["pconc " + hx(b"T_1"), "pex 99 61", "pchk 99"]
        # refused attempts of other parts are logged too: look past them
        if logs: out_l = sum((["lscan", l] if l in lgs and i and out_l[i - 1] not in lgs else [l] for i, l in enumerate(out_l)), [])
        out.append(out_l)
    return out

def children(rng, base):
    """a few children of this cycle; some are still there at its end"""
    l = []
    for k in range(rng.choice([1, 2, 4])):
        c, s = base + k, 3 * (base + k) % 57 + 1
        if rng.random() < .5:
            l.append("popen %d c c - %d %d 0 0" % (c, s, s + 1)); ends = [s, s + 1]
        else:
            l.append("popen %d - c c 0 %d %d 0" % (c, s, s + 1)); ends = [s, s + 1]
        x = rng.random()
        if x < .4:
            l += ["pctl %d x %d" % (c, rng.randrange(256)), rng.choice(["pend %d" % c, "pwait %d" % c, "pclose %d" % ends.pop()])]
        if rng.random() < .4 and ends: l.append("pnowait %d" % ends.pop())
        if rng.random() < .2 and ends: l.append("pnowait %d" % ends.pop())
    return l

PROPS = {
    "C30": dict(models=[M("LifecycleImpl", "LifeC30", "MaaTrace", lines=p_sys.clocked), M("LifecycleImpl", "LifeC30b", "MaaTrace", lines=p_sys.clocked), M("LifecycleImpl", "LifeC30c", "MaaTrace", lines=p_sys.clocked), M("LifecycleImpl", "LifeC30x", None, **X)],
                gens=[dict(fn=lifecycle, trace="MaaTrace")],
                assumptions=["lists and skip lists are not used across a shutdown, and the source manager is destroyed before it"]),
}
