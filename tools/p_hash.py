"""Hash tables: C01-C04."""

def _keys(rng, n):
    """a population of key objects: pairs 2c, 2c+1 are equal keys"""
    base = rng.choice([0, 0, 50, 1000, 240000])
    return [base + i for i in range(2 * n)]

def hash_map(rng, thorough):
    """insert / delete / look up on one to three tables, every hash kind"""
    out = []
    for _ in range(60 if not thorough else 1200):
        nt = rng.choice([1, 1, 2, 3])
        l = []
        kinds = [rng.randrange(9) for _ in range(nt)]
        for t in range(nt):
            l.append("hnew %d %d" % (t, kinds[t]))
        ks = _keys(rng, rng.choice([2, 3, 6, 12, 30]))
        n = rng.choice([60, 150, 300])
        wi, wd = rng.choice([(5, 2), (4, 4), (3, 5), (8, 1)])
        for i in range(n):
            t = rng.randrange(nt)
            k = rng.choice(ks)
            x = rng.random() * (wi + wd + 4)
            if x < wi:
                l.append("hins %d %d %d" % (t, k, rng.choice([0, k + 1, i + 5000])))
            elif x < wi + wd:
                l.append("hrem %d %d" % (t, k))
            else:
                l.append("hget %d %d" % (t, k))
            if nt > 1 and rng.random() < .01:
                l.append("hdel %d" % t)
                kinds[t] = rng.randrange(9)
                l.append("hnew %d %d" % (t, kinds[t]))
        for t in range(nt):
            for k in ks[:60]:
                l.append("hget %d %d" % (t, k))
        out.append(l)
    return out

def hash_big(rng, thorough):
    """growth through several sizes with many keys, interleaved with single operations"""
    out = []
    for kind in ([1, 3, 5, 7, 8, 4] if not thorough else list(range(9)) * 3):
        n = 150 if kind in (0, 2) else rng.choice([400, 700, 1000]) if not thorough else rng.choice([700, 2500, 4000])
        l = ["hnew 0 %d" % kind, "hnew 1 %d" % rng.choice([1, 3, kind])]
        a = rng.choice([0, 1, 100])
        step = rng.choice([2, 2, 4]) if kind != 8 else rng.choice([1, 2, 3])
        last = a + step * (n - 1)
        half = a + step * (n // 2 - 1)
        l.append("hbulk 0 i %d %d %d" % (a, half, step))
        for i in range(20):
            k = a + step * rng.randrange(n)
            l += ["hget 0 %d" % k, "hins 1 %d 7" % k, "hins 0 %d 9" % k, "hrem 0 %d" % k, "hget 0 %d" % k]
        l.append("hbulk 0 i %d %d %d" % (half + step, last, step))
        l.append("hbulk 0 g %d %d %d" % (a, last, step))
        l.append("hbulk 0 d %d %d %d" % (a, half, step))
        l.append("hbulk 0 g %d %d %d" % (a, last, step))
        for i in range(20):
            k = a + step * rng.randrange(n)
            l += ["hget 0 %d" % k, "hrem 0 %d" % k, "hget 1 %d" % k]
        out.append(l)
    for _ in range(1 if not thorough else 6):
        out += far_keys(rng, "h")
    return out

def far_keys(rng, p, long=True):
    """long strings which differ at the end only, and pointers which differ in the upper half only"""
    out = []
    ins, rem, get = p + "ins 0 %d" + (" %d" if p == "h" else ""), p + "rem 0 %d", ("hget 0 %d" if p == "h" else "smem 0 %d")
    for kind, base, n in ((7, 240000, 128), (8, 250000, 64), (8, 240000, 200)):
        l = ["%snew 0 %d" % (p, kind)]
        ks = rng.sample(range(base, base + n), n * 3 // 4)
        if p == "s": ks.append(base)
        for i, k in enumerate(ks):
            l.append(ins % ((k, i + 1) if p == "h" else k))
            if rng.random() < .3: l.append(rem % rng.choice(ks))
            l.append(get % (base + rng.randrange(n)))
        l += [get % k for k in range(base, base + n)]
        l += [rem % k for k in rng.sample(ks, len(ks) // 2)]
        l += [get % k for k in range(base, base + n)]
        l += [p + "it 0 0 0", p + "walk 0 0"]
        out.append(l)
    return out

def hash_iter(rng, thorough):
    """callback enumerations (with and without argument, stopping, deleting) and positions"""
    out = []
    for _ in range(60 if not thorough else 900):
        nt = rng.choice([1, 2])
        kinds = [rng.randrange(9) for _ in range(nt)]
        l = ["hnew %d %d" % (t, kinds[t]) for t in range(nt)]
        ks = _keys(rng, rng.choice([1, 2, 4, 10, 25]))
        for _ in range(rng.choice([30, 80])):
            t = rng.randrange(nt)
            x = rng.random()
            if x < .45:
                k = rng.choice(ks)
                l.append("hins %d %d %d" % (t, k, rng.choice([0, k + 1])))
            elif x < .6:
                l.append("hrem %d %d" % (t, rng.choice(ks)))
            elif x < .7:
                l.append("hit %d %d 0" % (t, rng.randrange(4)))
                if rng.random() < .3: l.append("hkeys %d" % t)
            elif x < .78:
                l.append("hit %d %d %d" % (t, rng.randrange(4), rng.randrange(1, len(ks) + 2)))
            elif x < .88:
                d = rng.sample(ks, rng.randrange(1, len(ks) + 1))
                l.append("hit %d %d 0 %s" % (t, rng.randrange(2), " ".join(map(str, d))))
            elif x < .93:
                d = rng.sample(ks, rng.randrange(1, len(ks) + 1))
                l.append("hit %d %d %d %s" % (t, rng.randrange(2), rng.randrange(1, len(ks) + 2), " ".join(map(str, d))))
            else:
                # the driver walks the whole table by positions
                l.append("hwalk %d %d" % (t, rng.randrange(4)))
        for t in range(nt):
            l += ["hit %d %d 0" % (t, m) for m in (0, 2, 3)]
            l.append("hwalk %d 0" % t)
        out.append(l)
    l = []                                          # the functions for strings and pointers
    for _ in range(60 if not thorough else 2000):
        a = bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 30, 30, 64, 127, 128, 129, 255, 256, 257, 1024, 1025, 4097])))
        b = rng.choice([a, a[:-1], a + b"x", a[::-1], bytes([1 + a[0] % 255]) + a[1:] if a else a, a[:-1] + bytes([1 + a[-1] % 255]) if a else a])
        l.append("hfun %s %s" % (a.hex() or "-", b.hex() or "-"))
    out.append(l)
    for kind in ([1, 3, 7] if not thorough else [1, 3, 4, 5, 7, 8] * 2):
        n = 300 if not thorough else 1500
        out.append(["hnew 0 %d" % kind, "hbulk 0 i 0 %d 2" % (2 * n - 2), "hit 0 0 0", "hkeys 0", "hit 0 2 0", "hit 0 3 0", "hwalk 0 0",
                    "hit 0 1 0 " + " ".join(str(2 * x) for x in rng.sample(range(n), n // 2)), "hit 0 0 0", "hwalk 0 1"])
    return out

def hash_guard(rng, thorough):
    """read-only marks and unfinished enumerations, with attempted modifications"""
    out = []
    for _ in range(40 if not thorough else 600):
        kind = rng.randrange(9)
        l = ["hnew 0 %d" % kind, "hnew 1 %d" % kind]
        ks = _keys(rng, rng.choice([1, 2, 4, 8]))
        for k in ks:
            if rng.random() < .7:
                l.append("hins 0 %d %d" % (k, k + 1))
        for _ in range(rng.choice([5, 10])):
            x = rng.random()
            k = lambda: rng.choice(ks)
            def probe():
                for _ in range(rng.randrange(1, 4)):
                    y = rng.random()
                    if y < .3: l.append("!hins 0 %d 1" % k())
                    elif y < .55: l.append("!hrem 0 %d" % k())
                    elif y < .7: l.append("!hdel 0")
                    elif y < .75: l.append("!hget 0 %d" % k())
                    else: l.append("hget 0 %d" % k())
            if x < .4:
                l.append("hro 0 1"); probe(); l.append("hit 0 %d %d" % (rng.randrange(4), rng.randrange(3))); probe(); l.append("hro 0 0")
            elif x < .8:
                # positions: several steps, maybe to the end
                for _ in range(rng.randrange(1, 4)):
                    l.append("hwalk 0 0 %d" % rng.randrange(0, len(ks) + 2))
                    probe()
                l.append("hro 0 0")
            else:
                l.append("hwalk 0 2"); probe()
            l.append("hins 1 %d 3" % k())
            for _ in range(rng.randrange(3)):
                if rng.random() < .5: l.append("hins 0 %d %d" % (k(), 8))
                else: l.append("hrem 0 %d" % k())
            l.append("hget 0 %d" % k())
        l += ["!hdel 0", "hdel 0", "hdel 1"]
        out.append(l)
    return out

def hash_stats(rng, thorough):
    out = []
    for _ in range(60 if not thorough else 900):
        kind = rng.randrange(9)
        l = ["hnew 0 %d" % kind, "hst 0"]
        ks = _keys(rng, rng.choice([3, 8, 20, 45]))
        ro = 0
        for i in range(rng.choice([60, 160])):
            k = rng.choice(ks)
            x = rng.random()
            if x < .35 and not ro: l.append("hins 0 %d %d" % (k, k + 1))
            elif x < .45 and not ro: l.append("hrem 0 %d" % k)
            elif x < .5:
                ro = 1 - ro
                l.append("hro 0 %d" % ro)
            else:
                l.append("hget 0 %d" % k)
                if rng.random() < .4: l.append("hget 0 %d" % k)
            if rng.random() < .4: l.append("hst 0 %d" % rng.randrange(2))
        l.append("hst 0")
        out.append(l)
    for kind in ([1, 3, 7] if not thorough else [1, 3, 4, 5, 6, 7, 8] * 2):      # growth without a retrieval
        l = ["hnew 0 %d" % kind]
        for i in range(120 if not thorough else 700):
            l += ["hins 0 %d 1" % (2 * i), "hst 0"]
        out.append(l + ["hget 0 0", "hst 0"])
    for kind in ([1, 3, 5, 7] if not thorough else [1, 3, 4, 5, 6, 7, 8] * 2):
        l = ["hnew 0 %d" % kind]
        a = 0
        for n in ([1, 1, 1, 1, 2, 5, 13, 20, 38, 100, 200, 300] if not thorough else [1] * 8 + [2, 5, 13, 20, 38, 100, 200, 300, 800, 1500]):
            l += ["hbulk 0 i %d %d 2" % (a, a + 2 * n - 2), "hst 0", "hget 0 %d" % a, "hst 0"]
            a += 2 * n
        l += ["hbulk 0 d 0 %d 2" % (a // 2 // 2 * 2), "hst 0", "hins 0 4 4", "hst 0"]
        out.append(l)
    return out

T = "HashTrace"
def M(cfg, trace=T, **kw):
    d = dict(module="HashImpl", cfg=cfg)
    if trace: d["trace"] = trace
    d.update(kw)
    return d
X = dict(tier="thorough", workers=8, timeout=3000, trace=None)

PROPS = {
 "C01": dict(models=[M("HashC01"), M("HashC01b"), M("HashC01x", **X)],
             gens=[dict(fn=hash_map, trace=T), dict(fn=hash_big, trace=T)]),
 "C02": dict(models=[M("HashC02"), M("HashC02b"), M("HashC02x", **X)], gens=[dict(fn=hash_iter, trace=T)]),
 "C03": dict(models=[M("HashC03", budget=12000), M("HashC03x", **X)], gens=[dict(fn=hash_guard, trace=T)]),
 "C04": dict(models=[M("HashC04"), M("HashC04x", **X)], gens=[dict(fn=hash_stats, trace=T)]),
}
