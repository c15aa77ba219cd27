"""Lists (C08, C09), skip lists (C10, C11), stacks (C12)."""

class Mirror:
    """just enough of the lists to know which positions may be used"""
    def __init__(self): self.l, self.n = {}, 0
    def new(self, t): self.l[t] = []
    def add(self, t, front):
        self.n += 1
        self.l[t].insert(0 if front else len(self.l[t]), self.n)
    def alive(self, i): return i == 0 or any(i in s for s in self.l.values())
    def holder(self, i): return next(t for t, s in self.l.items() if i in s)

def _list_ops(rng, l, m, t, reads, maxlen=40):
    x = rng.random()
    d = rng.choice([0, 1, 2, 3, rng.randrange(1, 100000), rng.randrange(1000000, 1000004)])
    s = m.l[t]
    if x < .3 and len(s) < maxlen: l.append("lapp %d %d" % (t, d)); m.add(t, False)
    elif x < .5 and len(s) < maxlen: l.append("lpush %d %d" % (t, d)); m.add(t, True)
    elif x < .7:
        l.append("lpop %d" % t)
        if s: s.pop(0)
    elif x < .75 or reads:
        y = rng.random()
        n = rng.choice([0, 1, len(s) // 2, len(s), len(s) + 1, len(s) + 5])
        if y < .15: l.append("ltop %d" % t)
        elif y < .35: l.append("lget %d %d" % (t, n))
        elif y < .5: l.append("%slset %d %d %d" % ("" if 1 <= n <= len(s) else "!", t, n, d))
        elif y < .6: l.append("lmem %d %d" % (t, d))
        elif y < .75: l.append("llen %d" % t)
        elif y < .9: l.append("liter %d %d %d" % (t, rng.randrange(3), rng.choice([0, 0, n])))
        else:
            k = rng.choice([0, 1, len(s) // 2, max(0, len(s) - 1), len(s), len(s) + 1, 2000000000])
            l.append("ltrunc %d %d" % (t, k)); del s[k:]

def list_seq(rng, thorough):
    out = []
    for _ in range(70 if not thorough else 1500):
        m, l = Mirror(), ["ltot", "lnew 9", "ltot", "lapp 9 1", "ltot", "ldel 9"]
        nt = rng.choice([1, 2, 3, 5])
        for t in range(nt): m.new(t); l.append("lnew %d" % t)
        for _ in range(rng.choice([60, 150, 300])):
            t = rng.randrange(nt)
            _list_ops(rng, l, m, t, True)
            x = rng.random()
            if x < .02:
                l += ["ldel %d" % t, "lnew %d" % t]; m.new(t)
            elif x < .05: l.append("ldump %d" % t)
            elif x < .07: l.append("ltot")
            elif x < .1:
                l.append("lit2 %d %d" % (t, rng.randrange(nt)))
        for t in range(nt): l += ["llen %d" % t, "liter %d 0 0" % t, "liter %d 1 0" % t, "liter %d 2 0" % t]
        out.append(l)
    for n in ([500] if not thorough else [500, 5000, 20000]):
        l = ["lnew 0", "lnew 1"]
        l += ["lapp 0 %d" % i for i in range(n)] + ["lpush 1 %d" % i for i in range(n // 2)]
        l += ["liter 0 0 0", "ltrunc 0 %d" % (n // 3), "llen 0", "lapp 0 7", "liter 1 0 0", "liter 0 1 0", "ltrunc 1 0", "lapp 1 5", "liter 1 0 0"]
        l += ["lapp 1 %d" % i for i in range(n)] + ["liter 0 0 0", "liter 1 1 0", "lget 1 %d" % n, "lget 0 %d" % (n // 3), "ldel 0", "liter 1 0 0"]
        out.append(l)
    return out

def list_pos(rng, thorough):
    out = []
    for _ in range(80 if not thorough else 1500):
        m, l = Mirror(), []
        nt = rng.choice([1, 2, 3])
        P = {}
        for t in range(nt): m.new(t); l.append("lnew %d" % t)
        for _ in range(rng.choice([60, 150, 250])):
            t = rng.randrange(nt)
            s = m.l[t]
            live = [p for p in P if m.alive(P[p])]
            x = rng.random()
            if x < .4: _list_ops(rng, l, m, t, False, 15)
            elif x < .6 or not live:
                p = rng.randrange(8)
                y = rng.random()
                if y < .3: l.append("lpi %d %d" % (t, p)); P[p] = s[0] if s else 0
                elif y < .7: l.append("lpl %d %d" % (t, p)); P[p] = s[-1] if s else 0
                else:
                    n = rng.choice([0, 1, 2, len(s), len(s) + 1])
                    l.append("lpt %d %d %d" % (t, p, n)); P[p] = s[n - 1] if 1 <= n <= len(s) else 0
            elif x < .7:
                p, q = rng.choice(live), rng.randrange(8)
                l.append("lpn %d %d" % (p, q))
                if P[p] == 0: P[q] = 0
                else:
                    h = m.l[m.holder(P[p])]; j = h.index(P[p]) + 1
                    P[q] = h[j] if j < len(h) else 0
            elif x < .8: l.append("lpg %d" % rng.choice(live))
            elif x < .88: l.append("lps %d %d" % (rng.choice(live), rng.choice([0, rng.randrange(1, 9), rng.randrange(1, 100000)])))
            elif x < .96:
                p = rng.choice(live + [-1])
                if p == -1 or P[p] == 0:
                    if rng.random() < .5: continue
                    l.append("ltp %d %d" % (t, p)); s.clear()
                else:
                    t = m.holder(P[p]); s = m.l[t]
                    l.append("ltp %d %d" % (t, p)); del s[s.index(P[p]) + 1:]
                l += ["llen %d" % t, "liter %d 0 0" % t]
            elif x < .98:
                n = rng.randrange(0, len(s) + 2)
                l.append("ltrunc %d %d" % (t, n)); del s[n:]
            else: l += ["llen %d" % t, "liter %d 0 0" % t]
        for p in P:
            if m.alive(P[p]): l.append("lpg %d" % p)
        for t in range(nt): l += ["llen %d" % t, "liter %d 0 0" % t]
        out.append(l)
    return out

def _skip_hist(rng, l, t, ks, n, iters, have=None):
    have = have if have is not None else {}
    for _ in range(n):
        k = rng.choice(ks); c = k // 2
        x = rng.random()
        if iters and x < .35:
            acts, h2, stop = [], dict(have), 0
            size = len(have)
            if rng.random() < .4 and size: stop = rng.randrange(1, size + 2)
            ret = rng.choice([1, 5, -1, 300])
            vis = min(stop, size) if stop else size
            for v in sorted(rng.randrange(1, size + 2) for _ in range(rng.choice([0, 1, 2, 4, 8]))) if size else []:
                if v > vis: continue
                kk = rng.choice(ks)
                if kk // 2 in h2: acts.append("%d:-%d:1" % (v, kk)); del h2[kk // 2]
                else: acts.append("%d:+%d:%d" % (v, kk, rng.choice([-1, 1, 2, 5]))); h2[kk // 2] = kk
            l.append("yit %d %d %d %d %s" % (t, rng.randrange(2), stop, ret, " ".join(acts)))
            have.clear(); have.update(h2)
        elif x < .65:
            lev = rng.choice([-1, -1, 1, 1, 2, 3, 4, 16, 20])
            if c in have: l.append("!yins %d %d %d" % (t, k, lev) if rng.random() < .3 else "yget %d %d" % (t, k))
            else: l.append("yins %d %d %d" % (t, k, lev)); have[c] = k
        elif x < .85:
            if c in have: l.append("yrem %d %d" % (t, k)); del have[c]
            else: l.append("!yrem %d %d" % (t, k) if rng.random() < .2 else "yget %d %d" % (t, k))
        elif x < .93: l.append("yget %d %d" % (t, k))
        elif x < .95: l.append("ydump %d" % t)
        else: l.append("yit %d 0 0 0" % t)
    return have

def skip_map(rng, thorough):
    out = []
    for _ in range(60 if not thorough else 1200):
        nt = rng.choice([1, 1, 2, 3])
        l, hv = [], {}
        ks = [i + rng.choice([0, 1000]) for i in range(2 * rng.choice([2, 4, 10, 30]))]
        for t in range(nt): l.append("ynew %d %d" % (t, rng.randrange(3))); hv[t] = {}
        for _ in range(rng.choice([4, 10])):
            t = rng.randrange(nt)
            _skip_hist(rng, l, t, ks, 25, False, hv[t])
            if rng.random() < .1: l += ["ydel %d" % t, "ynew %d %d" % (t, rng.randrange(3))]; hv[t].clear()
        for t in range(nt): l += ["yget %d %d" % (t, k) for k in ks[:40]] + ["yit %d 0 0 0" % t]
        out.append(l)
    # the random source keeps answering "higher": as tall as it gets
    for q in range(12 if not thorough else 200):
        t, l, hv = 0, ["ynew 0 %d" % rng.randrange(3)], {}
        ks = list(range(2 * rng.choice([18, 20, 40])))
        tall = rng.choice([1, .7, .3])
        for _ in range(rng.choice([60, 200])):
            k = rng.choice(ks); c = k // 2
            if rng.random() < (.3 if len(hv) < 18 else .55):
                if hv: c = rng.choice(list(hv)); l.append("yrem 0 %d" % hv.pop(c))
            elif c not in hv: l.append("yins 0 %d %d" % (k, rng.choice([20, 40]) if rng.random() < tall else rng.choice([-1, 1, 15, 16]))); hv[c] = k
            if rng.random() < .15: l.append("yget 0 %d" % rng.choice(ks))
            if rng.random() < .03: l.append("yit 0 0 0 0")
        l += ["yget 0 %d" % k for k in ks] + ["yit 0 0 0 0"]
        out.append(l)
    for kind, n in ([(0, 400), (1, 300)] if not thorough else [(0, 3000), (1, 3000), (2, 3000)] * 2):
        # ascending, descending and interleaved bulk arrivals
        l = ["ynew 0 %d" % kind, "yfill 0 %d 0 -4" % (8 * n), "yfill 0 3 %d 4" % (4 * n + 3)]
        for _ in range(40):
            k = 2 * rng.randrange(2 * n)
            l += ["yget 0 %d" % k, "yrem 0 %d" % k, "yget 0 %d" % k, "yins 0 %d -1" % (k + 1), "yget 0 %d" % k]
        l.append("yit 0 0 0 0")
        out.append(l)
    return out

def skip_iter(rng, thorough):
    out = []
    for _ in range(70 if not thorough else 1200):
        l = ["ynew 0 %d" % rng.randrange(3)]
        ks = [i + rng.choice([0, 100]) for i in range(2 * rng.choice([1, 2, 4, 8, 20]))]
        _skip_hist(rng, l, 0, ks, rng.choice([20, 60, 100]), True)
        l.append("yit 0 1 0 0")
        out.append(l)
    for n in ([3000] if not thorough else [3000, 10000]):
        # enumeration needs no stack space in proportion to the list
        out.append(["stacklimit 48", "ynew 0 0", "yfill 0 0 %d 2" % (2 * n * 3), "yit 0 0 0 0", "yit 0 1 5 9"])
    return out

def stack_hist(rng, thorough):
    out = []
    for _ in range(60 if not thorough else 1200):
        nt = rng.choice([1, 2, 3])
        l = ["knew %d" % t for t in range(nt)]
        w = rng.choice([.3, .5, .7])
        for _ in range(rng.choice([60, 200, 400])):
            t = rng.randrange(nt)
            x = rng.random()
            if x < w: l.append("kpush %d %d" % (t, rng.choice([0, 0, 1, 2, rng.randrange(1, 100000)])))
            elif x < .85: l.append("kpop %d" % t)
            else: l.append(rng.choice(["ktop %d", "kemp %d"]) % t)
            if rng.random() < .01: l += ["kdel %d" % t, "knew %d" % t]
        for t in range(nt): l += ["kpop %d" % t, "ktop %d" % t, "kemp %d" % t] * 5
        out.append(l)
    n = 1000 if not thorough else 20000
    out.append(["knew 0"] + ["kpush 0 %d" % (i % 7) for i in range(n)] + ["kpop 0"] * (n + 1) + ["kemp 0", "kpush 0 5", "ktop 0"])
    return out

def M(mod, cfg, trace, **kw):
    d = dict(module=mod, cfg=cfg)
    if trace: d["trace"] = trace
    d.update(kw)
    return d
X = dict(tier="thorough", workers=8, timeout=3000)
PROPS = {
 "C08": dict(models=[M("ListImpl", "ListC08", "ListTrace"), M("ListImpl", "ListC08b", "ListTrace"), M("ListImpl", "ListC08x", None, **X)],
             gens=[dict(fn=list_seq, trace="ListTrace"), dict(fn=list_pos, trace="ListTrace")]),
 "C09": dict(models=[M("ListImpl", "ListC09", "ListTrace"), M("ListImpl", "ListC09b", "ListTrace"), M("ListImpl", "ListC09x", None, **X)],
             gens=[dict(fn=list_pos, trace="ListTrace"), dict(fn=list_seq, trace="ListTrace")]),
 "C10": dict(models=[M("SkipListImpl", "SkipC10", "SkipListTrace"), M("SkipListImpl", "SkipC10b", "SkipListTrace"), M("SkipListImpl", "SkipC10x", None, **X)],
             gens=[dict(fn=skip_map, trace="SkipListTrace")]),
 "C11": dict(models=[M("SkipListImpl", "SkipC11", "SkipListTrace"), M("SkipListImpl", "SkipC11x", None, **X)],
             gens=[dict(fn=skip_iter, trace="SkipListTrace")]),
 "C12": dict(models=[M("StackImpl", "StackC12", "StackTrace"), M("StackImpl", "StackC12x", None, **X)],
             gens=[dict(fn=stack_hist, trace="StackTrace")]),
}
