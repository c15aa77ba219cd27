"""Object memory (C13), string memory (C14), string pools (C15, C16),
argument lists (C17), command line splitting (C18)."""
from p_list import M, X

def hx(b): return bytes(b).hex() or "-"

def obj_hist(rng, thorough):
    out = []
    for _ in range(60 if not thorough else 1500):
        nt = rng.choice([1, 1, 2, 3])
        l = ["onew %d %d" % (t, rng.choice([1, 2, 7, 8, 9, 16, 24, 33, 100, 1000])) for t in range(nt)]
        w = rng.choice([.3, .45, .6])
        for _ in range(rng.choice([40, 120, 300])):
            t = rng.randrange(nt)
            x = rng.random()
            if x < w: l.append("oget %d %d" % (t, rng.randrange(2)))
            elif x < .75: l.append("ofree %d %d" % (t, rng.randrange(1000)))
            elif x < .9: l.append("ofill %d %d %d" % (t, rng.randrange(1000), rng.randrange(1, 256)))
            elif x < .94: l.append("ochk %d" % t)
            elif x < .98: l.append("ostat %d %d" % (t, rng.randrange(2)))
            elif x < .985: l += ["odel %d" % t, "onew %d %d" % (t, rng.choice([1, 8, 40]))]
        for t in range(nt): l += ["ochk %d" % t, "ostat %d" % t]
        out.append(l)
    n = 300 if not thorough else 4000
    l = ["onew 0 48"]                      # long growth, everything back, everything reused
    for i in range(n): l += ["oget 0 0", "ofill 0 %d %d" % (i, 1 + i % 255)]
    l += ["ochk 0", "ostat 0"] + ["ofree 0 %d" % rng.randrange(n) for _ in range(n)] + ["ostat 0"]
    l += ["oget 0 1"] * (n + 3) + ["ochk 0", "ostat 0", "odel 0"]
    out.append(l)
    l = ["onew 0 %d" % rng.choice([8, 24])] + ["oget 0 1"] * 3         # a few objects, over and over
    for i in range(1100 if not thorough else 4000):
        l += ["ofree 0 %d" % rng.randrange(3), "oget 0 0"]
        if i % 64 == 63: l += ["ofill 0 %d 7" % rng.randrange(3), "ostat 0"]
    out.append(l + ["ochk 0", "ostat 0", "odel 0"])
    return out

def _rle(rng, big, nul=True):
    n = rng.choice([0, 1, 1, 2, 3, rng.randrange(6)])
    return ",".join("%dx%d" % (rng.choice([97, 98, 255, 128, 1, 32] + ([0, 0] if nul else [])),
                               rng.choice([1, 1, 2, 7, 8, 15, 16, 17, rng.randrange(1, 300)] + ([5000, 65536, 100000] if big else [])))
                    for _ in range(n)) or "-"

def str_mem(rng, thorough):
    out = []
    for q in range(60 if not thorough else 1500):
        nt = rng.choice([1, 2, 3])
        big = q % 10 == 0
        l = ["mnew %d" % t for t in range(nt)]
        grow = [False] * nt
        for _ in range(rng.choice([20, 60, 120])):
            t = rng.randrange(nt)
            x = rng.random()
            if grow[t]:
                if x < .6: l.append("mgrow %d %s" % (t, _rle(rng, big)))
                else: l += ["mfin %d" % t]; grow[t] = False
            elif x < .35: l.append("mput %d 0 %s" % (t, _rle(rng, big, False)))
            elif x < .6: l.append("mput %d 1 %s" % (t, _rle(rng, big)))
            elif x < .8: l.append("mgrow %d %s" % (t, _rle(rng, big))); grow[t] = True
            elif x < .85: l.append("mfin %d" % t)
            elif x < .92: l.append("mstat %d %d" % (t, rng.randrange(2)))
            elif x < .98: l.append("mchk %d" % t)
            else: l += ["mdel %d" % t, "mnew %d" % t]
        for t in range(nt):
            if grow[t]: l.append("mfin %d" % t)
            l += ["mchk %d" % t, "mstat %d" % t]
        out.append(l)
    for q in range(3 if not thorough else 20):       # sizes around the powers of two, in every order
        sz = [max(1, (1 << k) + d) for k in range(2, 17 if thorough or not q else 13) for d in (-1, 0, 1)]
        rng.shuffle(sz)
        l = ["mnew 0"]
        for n in sz:
            a = "%dx%d,%dx1" % (rng.randrange(97, 110), n - 1, rng.randrange(110, 120)) if n > 1 else "98x1"
            if q % 3 == 0: l += (["mgrow 0 1x1"] if rng.random() < .5 else []) + ["mgrow 0 " + a] + (["mfin 0"] if rng.random() < .3 else [])
            elif q % 3 == 1: l.append("mput 0 %d %s" % (rng.randrange(2), a))
            else: l += ["mgrow 0 99x1", "mgrow 0 " + a, "mfin 0"]
        out.append(l + ["mfin 0", "mchk 0", "mstat 0"])
    n = 300 if not thorough else 3000
    out.append(["mnew 0"] + ["mput 0 %d %dx%d" % (i % 2, 97 + i % 20, 1 + i % 60) for i in range(n)] + ["mchk 0", "mstat 0"])
    return out

def _word(rng, small):
    if small: return bytes(rng.choice(b"ab") for _ in range(rng.randrange(4)))
    return bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 2, 3, 8, 30, 200])))

def pools(rng, thorough):
    out = []
    for q in range(60 if not thorough else 1200):
        nt = rng.choice([1, 2, 3])
        l = ["pnew %d" % t for t in range(nt)]
        grow = [False] * nt
        words = [_word(rng, q % 2) for _ in range(rng.choice([3, 10, 40]))]
        for _ in range(rng.choice([40, 100, 200])):
            t = rng.randrange(nt)
            x = rng.random()
            w = rng.choice(words)
            if grow[t]:
                if x < .5: l.append("pgrow %d %s" % (t, hx(rng.choice(words)[:rng.randrange(4)])))
                else: l.append("pfin %d" % t); grow[t] = False
            elif x < .4: l.append("pfind %d %s" % (t, hx(w)))
            elif x < .5: l.append("pex %d %s" % (t, hx(w)))
            elif x < .6: l.append("pcopy%s %d %s" % (rng.choice(["", "n"]), t, hx(w)))
            elif x < .75:
                k = rng.randrange(len(w) + 1)
                l += ["pgrow %d %s" % (t, hx(w[:k])), "pgrow %d %s" % (t, hx(w[k:]))]
                if rng.random() < .8: l.append("pfin %d" % t)
                else: grow[t] = True
            elif x < .8: l.append("pfin %d" % t)
            elif x < .92: l.append("pit %d %d %d" % (t, rng.randrange(4), rng.choice([0, 0, 1, 2, 5, 100])))
            elif x < .96: l.append("pchk %d" % t)
            elif x < .98: l.append("pstat %d %d" % (t, rng.randrange(2)))
            elif x < .99: l += ["pdel %d" % t, "pnew %d" % t]
        for t in range(nt):
            if grow[t]: l.append("pfin %d" % t)
            l += ["pit %d %d 0" % (t, m) for m in (0, 1, 2)] + ["pchk %d" % t, "pstat %d" % t]
        out.append(l)
    for q in range(10 if not thorough else 200):    # read-only for a while
        l = ["pnew 0", "pnew 1"]
        words = [bytes(rng.choice(b"jklmno") for _ in range(rng.randrange(1, 4))) for _ in range(12)]
        for _ in range(12):
            ro = rng.randrange(2)
            if ro: l.append("pro 0 1")
            for _ in range(8):
                w = hx(rng.choice(words))
                x = rng.random()
                if x < .5: l.append("%s 0 %s" % ("!pfind" if ro else "pfind", w))
                elif x < .6: l.append("pfind 1 " + w)
                elif x < .8: l.append("pex 0 " + w)
                elif x < .9: l.append("pcopy 0 " + w)
                elif x < .95: l += ["pgrow 0 " + w, "!pfin 0"] + (["pro 0 0", "pfin 0", "pro 0 1"] if ro else ["pfin 0"])
                else: l.append("!pdel 0")
            if ro: l.append("pro 0 0")
            else: l += ["pit 0 %d 0" % rng.randrange(4), "pro 0 0"]
        out.append(l + ["pchk 0", "pstat 0", "pdel 0", "pchk 1", "pstat 1"])
    out += _long(rng, 0)
    n = 500 if not thorough else 4000
    ws = [("w%d" % i).encode() for i in range(n)]
    l = ["pnew 0"] + ["pfind 0 " + hx(w) for w in ws] + ["pit 0 2 0", "pit 0 0 %d" % (n - 1), "pit 0 3 7"]
    rng.shuffle(ws)
    l += ["pfind 0 " + hx(w) for w in ws] + ["pex 0 " + hx(w + b"x") for w in ws[:100]] + ["pchk 0"]
    out.append(l)
    return out

def _long(rng, t):
    """strings of any length, alike up to their last bytes"""
    out = []
    for ns in ([255, 256, 257, 1000, 1023, 1024, 1025], [4095, 4096, 4097], [rng.randrange(30000, 50000), 65535, 65536, 70000]):
        l = [] if t == 99 else ["pnew %d" % t]
        c = rng.choice(b"abc")
        ws = [bytes([c]) * (n - 1) + bytes([d]) for n in ns for d in (c, 122)]
        for w in ws:
            l.append("pfind %d %s" % (t, hx(w)))
            if t == 99:
                l += ["pfindn %s %d 0" % (hx(w), len(w)), "pfindn %s %d 0" % (hx(w), len(w) - 1)]
                if len(w) < 5000: l.append("puniq " + hx(w))
            l += ["pex %d %s" % (t, hx(w)), "pex %d %s" % (t, hx(w[:-1])), "pcopy %d %s" % (t, hx(w)), "pcopyn %d %s" % (t, hx(w))]
            l += ["pgrow %d %s" % (t, hx(w[:-2])), "pgrow %d %s" % (t, hx(w[-2:])), "pfin %d" % t]
        out.append(l + ["pchk %d" % t, "pstat %d" % t])
    return out

def global_pool(rng, thorough):
    out = []
    first = ["pex 99 61", "pfind 99 61", "pfindn 616263 2 0", "pcopy 99 61", "pcopyn 99 6100", "pgrow 99 6162", "pfin 99", "puniq 61", "pdel 99", "pchk 99"]
    for a in first:                         # every operation from the fresh and the destroyed state
        tail = ["pfin 99"] if a.startswith("pgrow") else []
        tail += ["pfind 99 61", "pex 99 61", "pex 99 62", "pstat 99", "pchk 99"]
        out.append(["pstat 99", a] + tail)
        out.append(["pfind 99 61", "puniq 78", "pcopy 99 62", "pdel 99", "pstat 99 1", a] + tail + ["puniq 78", "puniq 78"])
        out.append(["pnew 0", "pfind 0 61", a] + tail + ["pchk 0", "pdel 0", "pchk 99"])
    out += _long(rng, 99)
    for q in range(50 if not thorough else 1200):
        l, grow = [], False
        words = [_word(rng, q % 2) for _ in range(rng.choice([3, 10]))]
        pre = [b"", b"x", b"tmp", b"a" * 500, b"x1", b"%s%d"]
        for _ in range(rng.choice([30, 80, 150])):
            x, w = rng.random(), rng.choice(words)
            if grow:
                l.append("pgrow 99 " + hx(w[:3]))
                if rng.random() < .6: l.append("pfin 99"); grow = False
            elif x < .25: l.append("pfind 99 " + hx(w))
            elif x < .35:
                n = rng.choice([0, len(w), len(w) // 2, len(w) + 3])
                l.append("pfindn %s %d %d" % (hx(w), n, 1 if n > len(w) else rng.randrange(2)))
            elif x < .45: l.append("pex 99 " + hx(w))
            elif x < .52: l.append("pcopy%s 99 %s" % (rng.choice(["", "n"]), hx(w)))
            elif x < .6: l.append("pgrow 99 " + hx(w)); grow = True
            elif x < .85: l.append("puniq " + hx(rng.choice(pre)))
            # names a later unique string could be given
            elif x < .93: l += ["pfind 99 " + hx(rng.choice(pre) + str(rng.randrange(1, 60)).encode()) for _ in range(4)]
            elif x < .96: l.append("pchk 99")
            elif x < .98: l.append("pstat 99 %d" % rng.randrange(2))
            else: l.append("pdel 99")
        if grow: l.append("pfin 99")
        l += ["pstat 99", "pchk 99"]
        out.append(l)
    return out

def arg_vec(rng, thorough):
    out = []
    for _ in range(70 if not thorough else 1500):
        nt = rng.choice([1, 2, 3])
        l = ["anew %d" % t for t in range(nt)]
        n, grow = [0] * nt, [False] * nt
        for _ in range(rng.choice([10, 40, 100, 250])):
            t = rng.randrange(nt)
            w = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 8, 16, 100])))
            x = rng.random()
            if grow[t] and x < .6:
                if rng.random() < .6: l.append("agrow %d %s" % (t, hx(w)))
                else: l.append("afin %d" % t); grow[t] = False; n[t] += 1
            elif x < .3 and not grow[t]: l.append("aadd %d 0 %s" % (t, hx(w.replace(b"\0", b"z")))); n[t] += 1
            elif x < .5 and not grow[t]: l.append("aadd %d 1 %s" % (t, hx(w))); n[t] += 1
            elif x < .6: l.append("agrow %d %s" % (t, hx(w))); grow[t] = True
            elif x < .65: l.append("acnt %d" % t)
            elif x < .85:
                i = rng.choice([-1, 0, n[t] - 1, n[t], n[t] // 2, n[t] + 7, 999999999, -999999999])
                l.append("%saget %d %d" % ("" if 0 <= i < n[t] else "!", t, i))
            elif x < .97: l.append("avec %d" % t)
            elif x < .98: l += ["adel %d" % t, "anew %d" % t]; n[t], grow[t] = 0, False
        for t in range(nt):
            if grow[t]: l.append("afin %d" % t)
            l += ["avec %d" % t, "acnt %d" % t]
        out.append(l)
    for ns in ([255, 256, 257, 1023, 1024, 1025, 4096], [32767, 32768, 65535, 65536, 70000]):    # long items
        l = ["anew 0"]
        for i, n in enumerate(ns):
            w = bytes([97 + i]) * (n - 1) + b"z"
            l += ["aadd 0 0 " + hx(w), "aadd 0 1 " + hx(w[:-1] + b"\0")] + ["agrow 0 " + hx(x) for x in (w[:n // 3], b"", w[n // 3:])] + ["afin 0"]
        out.append(l + ["avec 0", "acnt 0", "aget 0 %d" % (3 * len(ns) - 1)])
    n = 600 if not thorough else 5000
    out.append(["anew 0"] + ["aadd 0 %d %s" % (i % 2, hx(b"item%d" % i)) for i in range(n)] + ["avec 0", "acnt 0", "aget 0 %d" % (n - 1), "!aget 0 %d" % n])
    return out

def argify_all(rng, thorough):
    al, out = "2022275c61", []
    for style in range(4):
        for n in range(6 if not thorough else 8): out.append(["argall %d %s %d" % (style, al, n)])
        for _ in range(2 if not thorough else 10):    # other alphabets: every white space, neighbours of the special characters
            a = [rng.choice([9, 10, 11, 13, 32]), rng.choice([34, 39]), 92] + [rng.choice([1, 8, 14, 31, 33, 35, 38, 40, 91, 93, 127, 128, 160, 255, 48]) for _ in range(3)]
            out.append(["argall %d %s 4" % (style, hx(a))])
        out.append(["argify %d %s" % (style, hx([c])) for c in range(1, 256) if c != 12] +
                   ["argify %d %s" % (style, hx([97, c, 98])) for c in range(1, 256) if c != 12] +
                   ["argify %d %s" % (style, hx([34, c, 34])) for c in range(1, 256) if c != 12] +
                   ["argify %d %s" % (style, hx([92, c])) for c in range(1, 256) if c != 12])
    return out

def argify_long(rng, thorough):
    out = []
    # long words, many words
    w = [b"a" * n for n in (255, 256, 1023, 1024, 1025)]
    for i, s in enumerate([b" ".join(w), b"'" + b"b" * 4097 + b"' \"" + b"c" * 1030 + b"\"", b"d" * 20000, b"x " * 3000, b" " * 9000 + b"z", b"\\a" * 3000, b"'' " * 1000]):
        out.append(["argify %d %s" % (i % 2 * 2, hx(s))])
    for q in range(30 if not thorough else 600):
        l = []
        for _ in range(20):
            p = rng.choice([.1, .3, .6])
            sp = b" \t\r\v\n\"'\\\"'\\"
            n = rng.choice([5, 20, 60, 200]) if q else 2000
            b = bytes(rng.choice(sp) if rng.random() < p else rng.choice([c for c in range(1, 256) if c != 12]) for _ in range(n))
            l.append("argify %d %s" % (rng.randrange(4), hx(b)))
            if not q: break
        out.append(l)
    return out

PROPS = {
 "C13": dict(models=[M("MemoryImpl", "MemC13", "MemoryTrace"), M("MemoryImpl", "MemC13b", "MemoryTrace"), M("MemoryImpl", "MemC13x", None, **X)],
             gens=[dict(fn=obj_hist, trace="MemoryTrace")]),
 "C14": dict(models=[M("MemoryImpl", "MemC14", "MemoryTrace"), M("MemoryImpl", "MemC14b", "MemoryTrace"), M("MemoryImpl", "MemC14x", None, **X)],
             gens=[dict(fn=str_mem, trace="MemoryTrace")]),
 "C15": dict(models=[M("StrPoolImpl", "PoolC15", "StrPoolTrace"), M("StrPoolImpl", "PoolC15b", "StrPoolTrace"), M("StrPoolImpl", "PoolC15r", "StrPoolTrace"), M("StrPoolImpl", "PoolC15x", None, **X)],
             gens=[dict(fn=pools, trace="StrPoolTrace")]),
 "C16": dict(models=[M("StrPoolImpl", "PoolC16", "StrPoolTrace"), M("StrPoolImpl", "PoolC16x", None, **X)],
             gens=[dict(fn=global_pool, trace="StrPoolTrace")]),
 "C17": dict(models=[M("ArgImpl", "ArgC17", "ArgTrace"), M("ArgImpl", "ArgC17b", "ArgTrace"), M("ArgImpl", "ArgC17x", None, **X)],
             gens=[dict(fn=arg_vec, trace="ArgTrace")]),
 "C18": dict(models=[M("ArgifyImpl", "ArgifyC18", None), M("ArgifyImpl", "ArgifyC18x", None, **X)],
             gens=[dict(fn=argify_all, trace="ArgTrace"), dict(fn=argify_long, trace="ArgTrace")]),
}
