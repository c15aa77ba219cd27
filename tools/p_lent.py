"""What is handed to the library is only read, and not needed for long (C41)."""
import p_hash, p_set, p_list, p_mem, p_num, p_sys, p_src, p_log, p_proc, p_life
from p_list import M, X
from p_around import drop

COPIED = "strs strn pool pooln glob globn grown arg argn argify dflag flag timer line file cpp symbol concrete".split()
HELD = "hash hstr set sstr skip progname hptr hdatum sptr list stack skipd sarg".split()
READERS = "soundex b26 b64 hashes dbgset flgset loginfo logerror warning srcerror srcmsg parse cppline exists argify argquote spawn filter concrete retrieve member find facility timers bits".split()
def many(rng, thorough):
    """things of several kinds, looked at in between"""
    out = []
    for q in range(30 if not thorough else 400):
        ks = rng.sample(COPIED + HELD, rng.choice([1, 3, 6, 20])); n = dict.fromkeys(ks, 0); l = []
        if "dflag" in ks and "flag" in ks: ks.remove("flag")
        for _ in range(rng.choice([30, 120])):
            k = rng.choice(ks); x = rng.random()
            if x < .6 or not n[k]:
                if k not in ("dflag", "flag") or n[k] < 20: l.append("lgive " + k); n[k] += 1
            elif x < .93: l.append("luse " + k)
            elif x < .96: l.append("lread " + rng.choice(READERS))
            elif k not in ("dflag", "flag", "glob", "globn", "grown"): l.append("ldrop " + k); n[k] = 0
        out.append(l + ["luse " + k for k in ks if n[k]])
    # more than a table or a block of memory takes at first
    for k in COPIED + HELD:
        if k not in ("dflag", "flag"):
            m = rng.choice([70, 300])
            out.append(["lgive " + k] * m + ["luse " + k] + ["lgive " + k] * (m // 2) + ["luse " + k, "ldrop " + k])
    return out
def logs(rng, thorough):
    out = []
    p_life.STORE.clear()
    for q in range(20 if not thorough else 500):
        l = p_life.some(rng, rng.choice([p_log.log_hist, p_log.log_rotate, p_log.errors]), 120)
        out.append(["lend"] + (["linit"] if not l or l[0] != "linit" else []) + l)
    return out
def children(rng, thorough):
    out = []
    for fn, n in ((p_proc.proc_hist, 12), (p_proc.requests, 8), (p_proc.statuses, 8), (p_proc.filters, 10), (p_proc.simulated, 10)):
        ls = [drop(l) for l in fn(rng, False)]
        for q in range(n if not thorough else 15 * n):
            l = rng.choice(ls)[:rng.choice([30, 80])]
            out.append([l[0], "lend"] + l[1:])
    return out
def everything(rng, thorough):
    out = []
    p_life.STORE.clear()
    fns = [p_hash.hash_map, p_hash.hash_iter, p_set.set_member, p_set.set_algebra, p_set.set_enum, p_list.list_seq, p_list.skip_map, p_list.stack_hist, p_mem.obj_hist, p_mem.pools, p_mem.arg_vec,
           p_src.src_hist, p_src.diag, p_sys.timers, p_mem.argify_all]
    for fn in fns:
        for q in range(3 if not thorough else 40): out.append(["lend"] + p_life.some(rng, fn, 150))
    for q in range(4 if not thorough else 100):
        kinds = [rng.choice(fns[:2]), rng.choice(fns[2:5])] + fns[5:11]
        parts = [p_life.some(rng, fn, 60) for fn in rng.sample(kinds, 4)]
        l = [x for x in p_life.riffle(rng, parts + [p_life.flags(rng)]) if x != "linit"]
        out.append(["lend", "tclk 0 0 0 0 0", "minit " + rng.choice(["a", "/b/prog"]).encode().hex()] + l + ["mshut"])
    return out

PROPS = {
    "C41": dict(models=[M("LentImpl", "LentC41", "LentTrace"), M("LentImpl", "LentC41x", None, **X)],
                gens=[dict(fn=f, trace="LentTrace") for f in (many, logs, children, everything)],
                assumptions=["the names of flags and timers, the concrete text and identifiers of the log are copied by the library, as are texts, words, lines and names of files; the program's name is held as it is given"]),
}
