"""Sets: C05-C07."""
from p_hash import _keys, far_keys
KINDS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]

def set_member(rng, thorough):
    out = []
    for _ in range(60 if not thorough else 1200):
        nt = rng.choice([1, 1, 2, 3])
        l = ["snew %d %d" % (t, rng.choice(KINDS)) for t in range(nt)]
        ks = _keys(rng, rng.choice([2, 3, 6, 12, 30]))
        wi, wd = rng.choice([(5, 2), (4, 4), (3, 5), (8, 1)])
        for i in range(rng.choice([60, 150, 300])):
            t, k = rng.randrange(nt), rng.choice(ks)
            x = rng.random() * (wi + wd + 5)
            if x < wi: l.append("sins %d %d" % (t, k))
            elif x < wi + wd: l.append("srem %d %d" % (t, k))
            elif x < wi + wd + .5: l.append("scount %d" % t)
            elif x < wi + wd + 1: l.append("sst %d %d" % (t, rng.randrange(2)))
            else: l.append("smem %d %d" % (t, k))
            if nt > 1 and rng.random() < .01:
                l += ["sdel %d" % t, "snew %d %d" % (t, rng.choice(KINDS))]
        for t in range(nt):
            l += ["smem %d %d" % (t, k) for k in ks[:60]] + ["scount %d" % t, "sst %d" % t]
        out.append(l)
    for kind in ([1, 3, 5, 7, 8, 4] if not thorough else KINDS * 3):
        n = 150 if kind in (0, 2) else rng.choice([300, 500]) if not thorough else rng.choice([700, 2500])
        step = rng.choice([2, 2, 4]) if kind != 8 else rng.choice([1, 2, 3])
        last, half = step * (n - 1), step * (n // 2 - 1)
        l = ["snew 0 %d" % kind, "snew 1 %d" % kind, "sbulk 0 i 0 %d %d" % (half, step), "sst 0"]
        for i in range(20):
            k = step * rng.randrange(n)
            l += ["smem 0 %d" % k, "sins 1 %d" % k, "sins 0 %d" % k, "srem 0 %d" % k, "smem 0 %d" % k]
        l += ["sbulk 0 i %d %d %d" % (half + step, last, step), "sbulk 0 m 0 %d %d" % (last, step), "sst 0",
              "sbulk 0 d 0 %d %d" % (half, step), "sbulk 0 m 0 %d %d" % (last, step), "scount 0", "sst 0"]
        out.append(l)
    for _ in range(1 if not thorough else 6):
        out += far_keys(rng, "s")
    return out

def set_algebra(rng, thorough):
    out = []
    for _ in range(80 if not thorough else 1200):
        nt = rng.choice([2, 3, 4])
        kinds = [rng.choice(KINDS)] * nt
        if rng.random() < .3:
            kinds[-1] = rng.choice(KINDS)
        if rng.random() < .3:
            kinds[0], kinds[-1] = 1, 9
        l = ["snew %d %d" % (t, kinds[t]) for t in range(nt)]
        ks = _keys(rng, rng.choice([1, 2, 4, 8, 20]))
        sizes = [rng.choice([0, 1, len(ks) // 2, len(ks)]) for _ in range(nt)]
        for t in range(nt):
            l += ["sins %d %d" % (t, k) for k in rng.sample(ks, min(len(ks), sizes[t]))]
        ro = [0] * nt
        for _ in range(rng.choice([8, 20])):
            a, b = rng.randrange(nt), rng.randrange(nt)
            x = rng.random()
            if x < .1 and not ro[a]: l.append("srem %d %d" % (a, rng.choice(ks)))
            elif x < .2 and not ro[a]: l.append("sins %d %d" % (a, rng.choice(ks)))
            elif x < .25: ro[a] ^= 1; l.append("sro %d %d" % (a, ro[a]))
            elif x < .3: l.append("smem %d %d" % (a, rng.choice(ks)))
            elif kinds[a] != kinds[b]:
                l.append("!salg %s 40 %d %d" % (rng.choice("uid+-"), a, b) if rng.random() < .8 else "!seq %d %d" % (a, b))
            elif x < .55: l.append("seq %d %d" % (a, b))
            elif x < .7 and not ro[a]: l.append("salg %s %d %d %d" % (rng.choice("++-"), a, a, b))
            else:
                o = rng.choice("uid")
                l += ["salg %s 50 %d %d" % (o, a, b), "sfun 50"]
                # the result is independent: change it, compare, destroy it
                k = rng.choice(ks)
                l += rng.choice([["sins 50 %d" % k, "srem 50 %d" % rng.choice(ks)], [], ["seq 50 %d" % b, "seq %d 50" % a],
                                 ["salg - 50 50 %d" % b, "sst 50"], ["salg + 50 50 50", "salg - 50 50 50", "scount 50"]])
                if rng.random() < .3:
                    l.append("seq 50 %d" % a)
                l += ["smem %d %d" % (a, k), "smem 50 %d" % k, "sdel 50"]
        for t in range(nt):
            l += ["scount %d" % t, "sst %d" % t, "sit %d 0 0" % t, "sfun %d" % t]
        out.append(l)
    for kind in ([1, 3, 7] if not thorough else [1, 3, 4, 5, 7] * 3):
        n = 120 if not thorough else 600
        l = ["snew 0 %d" % kind, "snew 1 %d" % kind, "snew 2 %d" % kind, "sbulk 0 i 0 %d 2" % (2 * n), "sbulk 1 i %d %d 4" % (n // 4 * 2, 4 * n), "sins 2 6"]
        for o in "uid":
            for a, b in ((0, 1), (1, 0), (0, 2), (2, 0), (2, 1), (0, 0)):
                l += ["salg %s 5 %d %d" % (o, a, b), "seq 5 %d" % a, "seq %d 5" % b, "sdel 5"]
        l += ["salg - 0 0 1", "seq 0 1", "salg + 0 0 1", "salg + 1 1 0", "seq 0 1", "seq 1 0", "salg - 1 1 1", "scount 1", "seq 1 0"]
        out.append(l)
    for kind in ([1, 2, 3, 5, 7, 8] if not thorough else KINDS * 6):
        # many elements, and one of them differs
        n = (rng.choice([60, 150, 400]) if not thorough else rng.choice([100, 400, 1500, 4000])) if kind not in (0, 2) else 60
        step = 2
        l = ["snew %d %d" % (t, kind) for t in range(3)]
        l += ["sbulk 0 i 0 %d %d" % (step * (n - 1), step), "sbulk 1 i 0 %d %d" % (step * (n - 1), step), "seq 0 1", "seq 1 0"]
        for _ in range(8):
            k, o = step * rng.randrange(n), step * (n + rng.randrange(5))
            l += ["srem 1 %d" % k, "seq 0 1", "seq 1 0", "sins 1 %d" % o, "seq 0 1", "seq 1 0", "srem 1 %d" % o, "sins 1 %d" % k, "seq 0 1"]
        for o in "uid":
            k = step * rng.randrange(n)
            l += ["srem 1 %d" % k, "salg %s 5 0 1" % o, "sdel 5", "salg %s 5 1 0" % o, "sdel 5", "sins 1 %d" % k]
        out.append(l)
    return out

def set_enum(rng, thorough):
    out = []
    for _ in range(50 if not thorough else 800):
        kind = rng.choice(KINDS)
        l = ["snew 0 %d" % kind, "snew 1 %d" % kind]
        ks = _keys(rng, rng.choice([1, 2, 4, 8, 20]))
        k = lambda: rng.choice(ks)
        for x in ks:
            if rng.random() < .6: l.append("sins 0 %d" % x)
        ro = 0
        def probe(n):
            for _ in range(rng.randrange(1, n)):
                y = rng.random()
                if y < .25: l.append("!sins 0 %d" % k())
                elif y < .5: l.append("!srem 0 %d" % k())
                elif y < .65: l.append("!sdel 0")
                elif y < .7: l.append("!smem 0 %d" % k())
                else: l.append("smem 0 %d" % k())
        for _ in range(rng.choice([6, 14])):
            x = rng.random()
            if x < .35:
                acts = []
                for _ in range(rng.randrange(0, 5)):
                    acts.append(rng.choice(["m%d" % k(), "i%d" % k(), "r%d" % k(), "x0"]))
                m = rng.random() < .3
                if m: l.append("sro 0 1")
                l.append("sit 0 %d %d %s" % (rng.randrange(3), rng.choice([0, 0, 1, 2, len(ks)]), " ".join(acts)))
                probe(3)
                if m: l.append("sro 0 0")
            elif x < .5:
                l.append("sro 0 1"); probe(4); l.append("sro 0 0")
            elif x < .75:
                for _ in range(rng.randrange(1, 3)):
                    l.append("swalk 0 0 %d" % rng.randrange(0, len(ks) + 2)); probe(3)
                l.append("sro 0 0")
            else:
                l.append("swalk 0 1"); probe(3)
            l.append("sins 1 %d" % k())
            l.append(rng.choice(["sins 0 %d", "srem 0 %d", "smem 0 %d"]) % k())
        l += ["sit 0 0 0", "sit 0 2 0", "!sdel 0", "sdel 0", "sdel 1"]
        out.append(l)
    for kind in ([1, 3, 7] if not thorough else [1, 3, 4, 5, 7] * 3):
        n = 300 if not thorough else 1500
        out.append(["snew 0 %d" % kind, "sbulk 0 i 0 %d 2" % (2 * n - 2), "sit 0 0 0", "sit 0 2 0", "sit 0 2 7", "sit 0 1 %d m4 i4 r4" % n, "swalk 0 0", "sbulk 0 d 0 %d 4" % (2 * n - 2), "sit 0 1 0", "swalk 0 1"])
    return out

T = "SetTrace"
def M(cfg, trace=T, **kw):
    d = dict(module="SetImpl", cfg=cfg)
    if trace: d["trace"] = trace
    d.update(kw)
    return d
X = dict(tier="thorough", workers=8, timeout=3000, trace=None)
PROPS = {
 "C05": dict(models=[M("SetC05"), M("SetC05x", **X)], gens=[dict(fn=set_member, trace=T)]),
 "C06": dict(models=[M("SetC06"), M("SetC06b"), M("SetC06x", **X)], gens=[dict(fn=set_algebra, trace=T)]),
 "C07": dict(models=[M("SetC07", budget=6000), M("SetC07x", **X)], gens=[dict(fn=set_enum, trace=T)]),
}
