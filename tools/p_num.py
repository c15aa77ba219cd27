"""Flags (C19, C20), base 26/64 (C31), bits (C32), primes (C33), Soundex (C34)."""
from p_list import M, X
from p_mem import hx

def with_all(w):
    def f(walk, i):
        out = []
        for l in walk:
            out.append(l)
            if l[0] != "!": out.append("fall " + w)
        return out
    return f

def _flags(rng, thorough, w):
    out = []
    for _ in range(40 if not thorough else 800):
        l, reg, free = [], {}, [(g, b) for g in range(4) for b in range(30)]
        rng.shuffle(free)
        k = 0
        for _ in range(rng.choice([20, 60, 120])):
            x = rng.random()
            if x < .2 and free:
                g, b = free.pop(); k += 1; n = (rng.choice(["flag", "flag", "flag", "all", "none", "None", ".", "a,b", "x" * 40, "y" * 300, "z" * 5000]) if rng.random() < .5 else "flag") + "%d" % k
                user = 0 if g == 3 or w == "f" else rng.randrange(2)
                l.append("freg %s %d %d %d -1 %s" % (w, user, g, b, n)); reg[n] = (g, b)
            elif x < .3:
                bad = [(3, rng.randrange(30), -1, 1)] if w == "d" else []
                bad += [(rng.randrange(4), -1, -1, 0), (rng.randrange(4), *rng.sample(range(30), 2), 0)]
                if reg: bad += [(*rng.choice(sorted(reg.values())), -1, 0)] * 3
                g, b, b2, u = rng.choice(bad)
                l.append("!freg %s %d %d %d %d new" % (w, u, g, b, b2))
            elif x < .6 and reg:
                l.append("fset %s %s%s" % (w, rng.choice(["", "+", "-"]), rng.choice(sorted(reg))))
            elif x < .65 and reg: l.append("fset %s %s" % (w, rng.choice(["none", "all"])))
            elif x < .72: l.append("!fset %s %s" % (w, rng.choice(["zz", "-zz", "+zz", "-", "+", "@", "++", "flag", "flag999", "-none", "+all", "None", " "]).strip() or "@"))
            elif x < .75 and reg:                    # almost a name
                n = rng.choice(sorted(reg))
                t = rng.choice(["++" + n, "+-" + n, "--" + n, "-+" + n, n + "x", n + "+", n.upper() + "Q", n[:-1] or "q", n[1:] or "q", "+" + n + "0"])
                l.append("!fset %s %s" % (w, t if not t.lstrip("+-").isdigit() else t + "x"))      # a number would be shown as one
            elif x < .82 and w == "d":
                g, b = rng.randrange(4), rng.randrange(30)
                l.append("fset1 d %d %d %d" % (g, b, rng.randrange(2)))
            elif x < .85: l.append("ftst %s %d %d" % (w, rng.randrange(4), rng.randrange(30)))
            elif x < .9 and reg:
                if w == "f":
                    f = rng.choice(sorted(reg.values()) + [(rng.randrange(4), rng.randrange(30))])
                    l.append("fname f %d %d" % f)
                l.append("flist " + w)
            elif x < .91:
                l.append("fdel " + w); reg = {}
                free = [(g, b) for g in range(4) for b in range(30)]; rng.shuffle(free)
                if w == "f" or True: l.append("!fset %s all" % w)
            l.append("fall " + w)
        out.append(l)
    l = []                                  # all 120 flags
    for g in range(4):
        for b in range(30): l.append("freg %s 0 %d %d -1 n%d" % (w, g, b, 30 * g + b))
    o = list(range(120)); rng.shuffle(o)
    for i in o: l += ["fset %s n%d" % (w, i), "fall " + w]
    rng.shuffle(o)
    for i in o: l += ["fset %s -n%d" % (w, i), "fall " + w]
    l += ["fset %s all" % w, "fall " + w]
    for i in o[:40]: l += ["fset %s -n%d" % (w, i), "fall " + w, "fset %s +n%d" % (w, i)]
    for i in o[:40]: l += ["!freg %s 0 %d %d -1 again" % (w, i // 30, i % 30)]
    l += ["flist " + w] + (["fname f %d %d" % (i // 30, i % 30) for i in o] if w == "f" else [])
    out.append(l)
    return out
def dflags(rng, thorough): return _flags(rng, thorough, "d")
def fflags(rng, thorough): return _flags(rng, thorough, "f")

def two(v): return "%d %d" % (v >> 16, v & 65535)

def bases(rng, thorough):
    A = {26: b"abcdefghijklmnopqrstuvwxyz", 64: b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"}
    def enc(v, b):                          # only to make inputs; TLC decides
        s = b""
        while v: s = bytes([A[b][v % b]]) + s; v //= b
        return s or A[b][:1]
    vals = {0, 1, 2 ** 32 - 1, 2 ** 31, 2 ** 31 - 1} | {2 ** k + d for k in range(1, 32) for d in (-1, 0, 1)}
    for b in (26, 64):
        for k in range(1, 8):
            for d in (-1, 0, 1, b - 1, b):
                if 0 <= b ** k + d < 2 ** 32: vals.add(b ** k + d)
            for d in range(0, b, 5):
                if d * b ** k < 2 ** 32: vals.add(d * b ** k)
    vals = sorted(vals)
    vals += [rng.randrange(2 ** rng.randrange(1, 33)) for _ in range(400 if not thorough else 20000)]
    out = []
    for q in range(8):
        l = []
        rng.shuffle(vals)
        for v in vals[q::8] if q else vals:
            for b in (26, 64):
                for _ in range(rng.choice([1, 1, 1, 2])): l.append("bend %d %s" % (b, two(v)))
                t = A[b][:1] * rng.choice([0, 0, 1, 3]) + enc(v, b)
                l.append("bdec %d %d %s" % (b, rng.randrange(2) if b == 64 else 0, hx(t)))
            if rng.random() < .05: l += ["bend %d 0 0" % rng.choice([26, 64])]
        out.append(l)
    out += [["bend %d 0 0" % b, "bend %d 0 0" % b, "bend %d 0 1" % b, "bend %d 0 0" % b] for b in (26, 64)]
    l = []
    for b in (26, 64):
        for c in range(1, 256):
            if c not in A[b]:
                t = bytes([A[b][1]] * rng.randrange(4)) + bytes([c]) + bytes([A[b][2]] * rng.randrange(3))
                l.append("!bdec %d %d x%s" % (b, rng.randrange(2) if b == 64 else 0, t.hex()))
        l.append("!bdec 64 1 x4200")
    out += [l[i::8] for i in range(8)]
    return out

def words(rng, thorough):
    W = {0, 2 ** 64 - 1} | {1 << k for k in range(64)} | {(1 << k) - 1 for k in range(65)} | {(2 ** 64 - 1) ^ (1 << k) for k in range(64)}
    W = sorted(W) + [rng.getrandbits(64) & (rng.getrandbits(64) if rng.random() < .3 else -1) for _ in range(60 if not thorough else 3000)]
    out = [["bits x%x" % w for w in W[q::16]] for q in range(16)]
    for _ in range(20 if not thorough else 400):
        out.append(["bitv " + " ".join(rng.choice("scst") + str(rng.choice([0, 31, 32, 63, rng.randrange(64)])) if rng.random() < .85 else "n0" for _ in range(200))])
    return out

def primes(rng, thorough):
    sieve = bytearray([1]) * 65536
    for i in range(2, 256):
        if sieve[i]: sieve[i * i::i] = bytearray(len(sieve[i * i::i]))
    P = [i for i in range(3, 65536) if sieve[i]]
    top = 20000 if not thorough else 300000
    out = [["prange %d %d" % (a, a + 999)] for a in range(0, top, 1000)]
    vals = [p * p + d for p in rng.sample(P, 60 if not thorough else 1500) + P[-6:] + [46337, 46339, 46349] for d in (-2, 0, 2)]
    for _ in range(30 if not thorough else 1500):       # semiprimes with close factors
        i = rng.randrange(len(P) - 3); vals.append(P[i] * P[i + rng.choice([1, 2])])
    vals += [2 ** 31 + d for d in range(-20, 20)] + [2 ** 32 + d for d in range(-40, 0)] + [2 ** k + d for k in range(16, 32) for d in (-3, -1, 1, 3)]
    vals += [rng.randrange(2 ** 31, 2 ** 32) for _ in range(120 if not thorough else 4000)] + [rng.randrange(2 ** 32) for _ in range(60 if not thorough else 3000)]
    vals = [v for v in vals if 0 <= v < 2 ** 32]
    out += [["pis " + two(v) for v in vals[q::16]] for q in range(16)]
    nx = list(range(0, 60)) + [v for v in vals if v <= 4294967291][::15] + [4294967291, 4294967290, 4294967280, 2147483648, 2147483629, 2147483630]
    out += [["pnext " + two(v) for v in nx[q::8]] for q in range(8)]
    return out

def soundex(rng, thorough):
    out = [["sdxall %s %d" % (hx(b"AbcHk.R"), n)] for n in range(5 if not thorough else 6)]
    out += [["sdxall %s 3" % hx(bytes(rng.sample(list(range(65, 91)) + list(range(97, 123)), 8) + [32, 200]))] for _ in range(4)]
    l = ["sdx " + hx([c]) for c in range(1, 256)] + ["sdx " + hx([65, c, 66]) for c in range(1, 256)] + ["sdx " + hx([c, 99]) for c in range(1, 256)]
    for a in range(65, 91):
        for b in range(97, 123): l.append("sdx " + hx([a, b]))
    out += [l[i::8] for i in range(8)]
    for _ in range(20 if not thorough else 500):
        out.append(["sdx " + hx(rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ -'\xe9\x80\xff@[`{") for _ in range(rng.choice([1, 3, 8, 30, 300]))) for _ in range(30)])
    return out

PROPS = {
 "C19": dict(models=[M("FlagsImpl", "FlagsC19", "FlagsTrace", lines=with_all("d")), M("FlagsImpl", "FlagsC19b", "FlagsTrace", lines=with_all("d")), M("FlagsImpl", "FlagsC19x", None, **X)],
             gens=[dict(fn=dflags, trace="FlagsTrace")]),
 "C20": dict(models=[M("FlagsImpl", "FlagsC20", "FlagsTrace", lines=with_all("f")), M("FlagsImpl", "FlagsC20b", "FlagsTrace", lines=with_all("f")), M("FlagsImpl", "FlagsC20x", None, **X)],
             gens=[dict(fn=fflags, trace="FlagsTrace")]),
 "C31": dict(models=[M("NumImpl", "NumC31", None), M("NumImpl", "NumC31b", None)], gens=[dict(fn=bases, trace="NumTrace")]),
 "C32": dict(models=[M("NumImpl", "NumC32", None)], gens=[dict(fn=words, trace="NumTrace")]),
 "C33": dict(models=[M("NumImpl", "NumC33", None)], gens=[dict(fn=primes, trace="NumTrace")]),
 "C34": dict(models=[M("NumImpl", "NumC34", None)], gens=[dict(fn=soundex, trace="NumTrace")]),
}
