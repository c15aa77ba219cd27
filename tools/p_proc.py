"""Child processes (C21, C22) and filters (C23)."""
from p_list import M, X

def started(walk, i):
    out = ["pbase", "pinit"]
    for l in walk:
        out.append(l)
        if l == "pshut": out.append("pinit")
    return out

def without(mask):
    """a caller without the standard descriptors in mask"""
    return lambda walk, i: ["pbase 0 %d" % mask] + started(walk, i)[1:]

def based_(rng): return rng.choice(["pbase"] * 7 + ["pbase 70", "pbase 270", "pbase 1100"])    # how many descriptors the caller has already

class Kid:
    def __init__(s, i, o, e): s.i, s.o, s.e, s.st, s.busy = i, o, e, "run", ""
class Pipe:
    def __init__(s): s.size, s.read, s.unsure, s.pending = 0, False, False, set()

class World:
    """what a workload must know to ask only for what is bound to happen"""
    def __init__(s, rng):
        s.rng, s.l, s.kids, s.slots, s.free, s.asked = rng, [based_(rng), "pinit"], {}, {}, list(range(1, 60)), False
        s.closed = set()
        if rng.random() < .3:
            m = rng.randrange(1, 8)
            s.l[0] = "pbase %d %d" % (rng.choice([0, 0, 70]), m); s.closed = {b for b in range(3) if m >> b & 1}
        if rng.random() < .3: s.slots.update({60 + b: (("std", b), "w", None) for b in (1, 2) if b not in s.closed})
    def running(s): return [c for c, k in s.kids.items() if k.st == "run" and not k.busy]
    def writers(s, o): return [c for c, k in s.kids.items() if k.st in ("run", "told") and o in (k.o, k.e)]
    def readers(s, o): return [c for c, k in s.kids.items() if k.st in ("run", "told") and k.i is o]
    def caller(s, o, m): return [x for x, (p, q, c) in s.slots.items() if p is o and m in q]
    def eof(s, o): return not s.writers(o) and not s.caller(o, "w") and not o.unsure
    def broken(s, o): return not s.readers(o) and not s.caller(o, "r") and not o.unsure
    def drop(s, x):
        if x in (61, 62): s.closed.add(x - 60)
        else: s.free.append(x)
        return s.slots.pop(x)
    def over(s, c, st):
        k = s.kids[c]
        k.st = st
        for o in (k.o, k.e):
            if isinstance(o, Pipe): o.pending.discard(c)
    # a reader may go only when nothing is on its way to it
    def mayend(s, c): return not isinstance(s.kids[c].i, Pipe) or not s.kids[c].i.pending
    def mayclose(s, x):
        o, m, c = s.slots[x]
        return m != "r" or not isinstance(o, Pipe) or not o.pending
    def open(s, modes=None):
        rng, c = s.rng, len(s.kids) + 1
        if c > 45 or len(s.free) < 4: return
        m, sl, ob, used = [], [], [], set()
        for j in range(3):
            want = "r" if j == 0 else "w"
            have = [x for x, (o, q, k) in s.slots.items() if want in q and s.mayclose(x) and (x not in used or (j == 2 and q != "r"))]
            ks = modes[j] if modes else rng.choice("--ccuuunz" + ("oo" if j == 2 else ""))
            if ks == "u" and not have: ks = "-"
            m.append(ks)
            if ks == "u":
                x = rng.choice(have)
                if j == 2 and 1 in range(3) and m[1] == "u" and rng.random() < .4: x = sl[1] if sl[1] in s.slots and "w" in s.slots[sl[1]][1] else x
                used.add(x); sl.append(x); ob.append(s.slots[x][0])
            elif ks == "c":
                p = Pipe(); ob.append(p); sl.append(-1)
            else: sl.append(0); ob.append(("closed" if j in s.closed else ("std", j)) if ks == "-" else ob[1] if ks == "o" else None)
        for x in used: s.drop(x)
        for j in range(3):
            if m[j] == "c":
                sl[j] = s.free.pop(0)
                s.slots[sl[j]] = (ob[j], "w" if j == 0 else "r", c)
        s.kids[c] = Kid(*ob)
        s.l.append("popen %d %s %s %s %d %d %d %d" % (c, m[0], m[1], m[2], sl[0], sl[1], sl[2], rng.random() < .2))
    def step(s):
        rng, l = s.rng, s.l
        x = rng.random()
        if x < .18: s.open()
        elif x < .21 and len(s.free) > 3:
            y = s.free.pop(0)
            l.append("pfile %d %s" % (y, rng.choice("abc"))); s.slots[y] = ("file", "rw", None)
        elif x < .3 and s.running():                       # a child writes
            c = rng.choice(s.running()); k = s.kids[c]; o = k.o
            if isinstance(o, Pipe):
                n = rng.choice([1, 2, 100, 4096, 10000])
                if o.unsure or o.read or o.size + n > 40000 or not (s.caller(o, "r") or [d for d in s.readers(o) if s.kids[d].st == "run"]): return
                o.pending.add(c); o.size += n
            elif o in (("std", 1), ("std", 2)) or o is None or o == "file": n = 10
            else: return
            l.append("pctl %d W %d" % (c, n))
        elif x < .36:                                      # the caller writes
            ys = [y for y, (o, q, c) in s.slots.items() if q == "w" and isinstance(o, Pipe) and not o.unsure]
            if not ys: return
            y = rng.choice(ys); o = s.slots[y][0]; n = rng.choice([1, 50, 4096])
            r = s.readers(o)
            if not r: l.append("pwrite %d %d" % (y, n))
            elif [d for d in r if s.kids[d].st == "run"] and o.size + n <= 40000: o.size += n; l.append("pwrite %d %d" % (y, n))
        elif x < .46:                                      # the caller reads to the end
            ys = [y for y, (o, q, c) in s.slots.items() if q == "r" and isinstance(o, Pipe) and not o.read and s.eof(o)]
            if not ys: return
            y = rng.choice(ys); s.slots[y][0].read = True; l.append("pread %d" % y)
        elif x < .52:                                      # a child is asked to read to the end, or to write until the pipe breaks
            cs = s.running()
            if not cs: return
            c = rng.choice(cs); k = s.kids[c]
            if rng.random() < .6:
                if isinstance(k.i, Pipe) and not k.i.read and not k.i.unsure: k.i.read = True; k.busy = "r"; l.append("pctl %d r 0" % c)
            elif isinstance(k.o, Pipe) and not k.o.read and not k.o.unsure and not k.o.pending - {c} and k.e is not k.o and s.writers(k.o) == [c]:
                k.o.read = True; k.busy = "b"; l.append("pctl %d b 0" % c)
        elif x < .6:                                       # what it saw
            for c, k in list(s.kids.items()):
                if k.st == "run" and (k.busy == "r" and s.eof(k.i) or k.busy == "b" and s.broken(k.o)):
                    l.append("prep %d %s" % (c, k.busy)); k.busy = ""
                    return
        elif x < .7 and s.running():                       # a child ends
            c = rng.choice(s.running())
            if not s.mayend(c): return
            if rng.random() < .3: l.append("pctl %d d %d" % (c, rng.choice([1, 5, 20])))
            if rng.random() < .7: l.append("pctl %d x %d" % (c, rng.choice([0, 1, 2, 3, 42, 126, 127, 128, 129, 141, 200, 255])))
            else: l.append("pctl %d k %d" % (c, rng.choice([1, 2, 3, 6, 8, 9, 9, 10, 11, 12, 13, 13, 14, 15])))
            s.kids[c].st = "told"
        elif x < .75:
            cs = [c for c, k in s.kids.items() if k.st != "run"]
            if not cs: return
            c = rng.choice(cs)
            l.append("pend %d" % c)
            if s.kids[c].st == "told": s.over(c, "ended")
        elif x < .81:
            cs = [c for c, k in s.kids.items() if k.st != "run"]
            if not cs: return
            c = rng.choice(cs)
            if rng.random() < .3: l.append("peintr %d" % rng.choice([1, 2, 5]))
            l.append("pwait %d" % c); s.over(c, "gone")
        elif x < .9:
            ys = [y for y, (o, q, c) in s.slots.items() if c and s.mayclose(y)]
            if not ys: return
            y = rng.choice(ys); c = s.slots[y][2]
            if s.kids[c].st == "run" or rng.random() < .3: l.append("pnowait %d" % y)
            else:
                if rng.random() < .3: l.append("peintr %d" % rng.choice([1, 2, 5]))
                l.append("pclose %d" % y); s.over(c, "gone")
            s.drop(y)
        elif x < .93: l.append(rng.choice(["pspawnt", "pspawn x %d" % rng.choice([0, 1, 77, 255]), "pspawn k %d" % rng.choice([1, 9, 13, 15, 6]), "pspawn - 0"]))
        elif x < .95 and len(s.kids) < 44 and len(s.free) > 3:
            c, y = len(s.kids) + 1, s.free.pop(0)
            p = Pipe(); s.slots[y] = (p, "r", c); s.kids[c] = Kid(None, None, None); s.kids[c].st = "told"; p.unsure = True
            l.append("pnot %d %d" % (c, y))
        elif x < .985:
            if rng.random() < .5: l.append("!pbad " + " ".join("%d" % b for b in range(8) if rng.random() < .3 and (b < 7 or rng.random() < .3)))
            else: l.append("!%s %d" % (rng.choice(["pcfd", "pnfd"]), rng.choice([-1, 0, 1, 2, 200, 511, 512, 1023, 1499, 1048576, 999999999, -999999999])))
        elif x < .99: s.shut()
        elif "plimit 2500 600" not in s.l: l.append("plimit 1500 600")
    def shut(s):
        for y, (o, q, c) in list(s.slots.items()):
            if isinstance(o, Pipe) and c: o.unsure = True
        for c in {c for o, q, c in s.slots.values() if c}:
            k = s.kids[c]
            # what it wrote may be lost, and who wrote to it may be killed by the broken pipe
            for o in (k.i, k.o, k.e):
                if isinstance(o, Pipe):
                    o.unsure = True
                    if o.pending - {c}: return
        for c in sorted({c for o, q, c in s.slots.values() if c}):
            if s.kids[c].st == "run" and not s.kids[c].busy and s.rng.random() < .4: s.l.append("pctl %d s %d" % (c, s.rng.random() < .4))
            s.over(c, "gone")
        for y in [y for y, v in s.slots.items() if v[2]]: s.drop(y)
        s.l += ["pshut", "pinit"]

def proc_hist(rng, thorough):
    out = []
    for q in range(40 if not thorough else 1200):
        w = World(rng)
        for _ in range(rng.choice([30, 60, 120])): w.step()
        if rng.random() < .5: w.shut()
        out.append(w.l)
    return out

def pipelines(rng, thorough):
    """chains of children, each reading what the one before wrote, ended and closed in any order"""
    out = []
    for q in range(16 if not thorough else 400):
        n = rng.choice([2, 3, 4, 6])
        l = [based_(rng), "pinit"]
        l.append("popen 1 c c - 1 2 0 0")
        for c in range(2, n + 1): l.append("popen %d u c - %d %d 0 0" % (c, c, c + 1))
        last = n + 1
        if rng.random() < .5: l.append("popen %d - c c 0 20 21 0" % (n + 1))
        rd = list(range(1, n + 1)); rng.shuffle(rd)
        l += ["pctl %d r 0" % c for c in rd]
        tot = 0
        for _ in range(rng.randrange(4)): k = rng.choice([1, 999, 4096]); l.append("pwrite 1 %d" % k)
        # end of file runs down the chain
        how = rng.random()
        l.append("pnowait 1")
        for c in range(1, n + 1):
            l.append("prep %d r" % c)
            if rng.random() < .7: l.append("pctl %d W %d" % (c, rng.choice([1, 100, 5000])))
            l.append("pctl %d %s" % (c, rng.choice(["x 0", "x 7", "k 9", "k 13"])))
            l.append(rng.choice(["pend %d", "pwait %d", "pend %d", "pwait %d"]) % c)
        l += ["pread %d" % last, "%s %d" % (rng.choice(["pclose", "pnowait"]), last)]
        ws = list(range(1, n + 1)); rng.shuffle(ws)
        l += ["pwait %d" % c for c in ws]
        out.append(l)
    return out

def statuses(rng, thorough):
    """every exit code and fatal signal, by each way of waiting"""
    out = []
    codes = ["x %d" % i for i in (range(256) if thorough else list(range(0, 256, 5)) + [1, 2, 126, 127, 128, 129, 137, 141, 143, 254])]
    codes += ["k %d" % s for s in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 40, 64)]
    rng.shuffle(codes)
    for i in range(0, len(codes), 6):
        l = [based_(rng)]
        for c, k in enumerate(codes[i:i + 6], 1):
            l += ["popen %d - c - 0 %d 0 0" % (c, c)]
            d = rng.random() < .4
            if d: l.append("pctl %d d %d" % (c, rng.choice([3, 15])))
            l.append("pctl %d %s" % (c, k))
            w = (i + c) % 4
            if rng.random() < .4: l.append("peintr %d" % rng.choice([1, 3]))
            if w == 0: l += ["pclose %d" % c, "pwait %d" % c]
            elif w == 1: l += ["pwait %d" % c, "pclose %d" % c]
            elif w == 2: l += ["pnowait %d" % c, "pwait %d" % c]
            else: l += ["peintr 2", "pspawn " + k, "pwait %d" % c, "pnowait %d" % c]
        out.append(l)
    return out

def requests(rng, thorough):
    """every combination of stream requests, while two other children run"""
    out, combos = [], [a + b + c for a in "-cunz" for b in "-cunz" for c in "-cunzo"]
    rng.shuffle(combos)
    for i in range(0, len(combos), 4):
        l = [based_(rng), "pinit", "popen 1 c c - 10 11 0 0", "popen 2 c c c 12 13 14 0", "pfile 15 a", "pfile 16 b"]
        for k, m in enumerate(combos[i:i + 4]):
            c = 3 + k; sl = [0, 0, 0]
            for j in range(3):
                if m[j] == "c": sl[j] = 20 + 3 * k + j
                if m[j] == "u":
                    sl[j] = 40 + 3 * k + j
                    l.append("pfile %d %s" % (sl[j], "cdefghijklmno"[3 * k + j]))
            l.append("popen %d %s %s %s %d %d %d %d" % ((c,) + tuple(m) + tuple(sl) + (k % 2,)))
        l += ["pspawnt", "pctl 1 r 0", "pnowait 10", "prep 1 r", "pctl 1 x 5", "pclose 11", "pctl 2 b 0", "pnowait 13", "prep 2 b", "pctl 2 k 9", "pwait 2", "pclose 14", "pnowait 12"]
        out.append(l)
    bits = list(range(256)); rng.shuffle(bits)
    for i in range(0, 256, 32): out.append(["pbase", "pinit"] + ["!pbad " + " ".join(str(b) for b in range(8) if v >> b & 1) for v in bits[i:i + 32]])
    return out

def based(walk, i): return ["pbase"] + walk

def traced(fn, few, reg):
    """some of the workloads of fn with the library's own traces on"""
    def gen(rng, thorough):
        out = []
        for l in fn(rng, thorough):
            if rng.random() >= few: continue
            if reg: out.append(["dtr 1"] + [x[:-2] + " 0" if x.startswith("qdiag") and x.endswith(" 1") else x for x in l])
            else: out.append([y for x in l for y in ([x, "dtr 0"] if x == "pinit" else [x])])
        return out
    gen.__name__ = fn.__name__ + "_traced"
    return gen

def size(k, p, n): return {"cat": n, "late": n, "dup": 2 * n, "pre": p, "post": p, "slow": p, "mix": p + n, "sink": 0}[k]
def io_schedule(rng):
    x = rng.random()
    if x < .3: return "-"
    small = rng.random() < .5
    return ",".join(rng.choice(["I", "A", "1", "2", "7", "4096", "65536"] if small else ["I", "A", "4096", "65536", "100000", "5000"]) for _ in range(rng.choice([1, 3, 10, 100, 1000])))
def a_filter(rng, thorough):
    k = rng.choice(["cat", "cat", "cat", "dup", "pre", "mix", "late", "post", "slow", "sink"])
    n = rng.choice([0, 1, 2, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000, 1000000, rng.randrange(100), rng.randrange(10000), rng.randrange(300000)])
    p = rng.choice([0, 1, 4096, 65536, 65537, 70000, 200000, rng.randrange(1000)])
    q = 0
    if k == "cat":
        p = rng.choice([1, 2, 100, 4096, 65536, 1000000])
        if p < 100: n = min(n, 3000)
        if n // p < 200 and rng.random() < .3: q = rng.choice([1, 50])
    if k == "late": p = rng.choice([0, 1, 20, 100])
    if k in ("post", "sink"): q = rng.choice([0, 0, 1, 255])
    if k == "sink": p = rng.choice([0, 1, 30])
    if k == "slow": q = max(rng.choice([1, 100, 5000]), p // 200); p = max(p, 1)
    w = size(k, p, n)
    m = rng.choice([w, w, w, w + 1, w + 100, 2 * w + 5000])
    cuts = {"dup": " %d" % n, "mix": " %d" % p}.get(k, "")
    if w and rng.random() < .15: m = rng.choice([w - 1, w // 2, 0])
    return (["peintr %d" % rng.choice([1, 3])] if rng.random() < .2 else []) + ["%spflt %s %d %d %d %d %s%s" % ("!" if w > m else "", k, p, q, n, m, io_schedule(rng), cuts)]
def filters(rng, thorough):
    out = []
    for q in range(40 if not thorough else 1500):
        l = [rng.choice(["pbase"] * 5 + ["pbase 1100", "pbase 1021"]) if rng.random() < .7 else "pbase 0 %d" % rng.randrange(8)]
        out.append(l + sum((a_filter(rng, thorough) for _ in range(8)), []))
    return out
def simulated(rng, thorough):
    out = []
    for q in range(16 if not thorough else 400):
        l = ["pbase"]
        for _ in range(60):
            n, tot = rng.choice([0, 1, 5, 100, 5000]), 0
            W, R, S = [], [], []
            for _ in range(rng.randrange(30)): W.append(rng.choice(["I", "A", "1", "3", "1000"]))
            for _ in range(rng.randrange(30)):
                x = rng.choice(["I", "A", 1, 2, 50, 5000])
                if not isinstance(x, str): tot += x
                R.append(str(x))
            for _ in range(rng.randrange(30)): S.append(rng.choice("IGT"))
            m = rng.choice([tot, tot, tot + 1, tot + 3000, max(0, tot - 1), 0])
            f = lambda s: ",".join(s) or "-"
            l.append("%spsim %d %d %s %s %s %d" % ("!" if tot > m else "", n, m, f(W), f(R), f(S), tot))
        out.append(l)
    return out

PROPS = {
    "C23": dict(models=[M("FilterNet", "FilterNetC23", None), M("FilterNet", "FilterNetC23b", None), M("FilterNet", "FilterNetC23x", None, **X),
                        M("FilterImpl", "FilterC23", "FilterTrace", lines=based, budget=6000), M("FilterImpl", "FilterC23b", "FilterTrace", lines=based, budget=6000), M("FilterImpl", "FilterC23x", None, **X)],
                gens=[dict(fn=filters, trace="FilterTrace"), dict(fn=traced(filters, .15, 1), trace="FilterTrace"), dict(fn=simulated, trace="FilterTrace")],
                assumptions=["the filter reads all of its input before it closes its output"],
                technique="TLA+ specification model-checked with TLC (copy loop against a filter process over bounded pipes: safety, deadlock freedom, termination under fairness); every complete schedule of system-call outcomes from the model replayed on the real code, and real filters under random fault schedules, traces validated by TLC"),
    "C21": dict(models=[M("ProcImpl", "ProcC21", "ProcTrace", lines=started, budget=4000), M("ProcImpl", "ProcC21b", "ProcTrace", lines=started, budget=3000), M("ProcImpl", "ProcC21c", "ProcTrace", lines=started, budget=3000), M("ProcImpl", "ProcC21d", "ProcTrace", lines=started, budget=3000), M("ProcImpl", "ProcC21l", "ProcTrace", lines=started, budget=3000), M("ProcImpl", "ProcC21x", None, **X)]
                + [M("ProcImpl", "ProcC21s%d" % m, "ProcTrace", lines=without(m), budget=1500) for m in range(1, 8)],
                gens=[dict(fn=requests, trace="ProcTrace"), dict(fn=pipelines, trace="ProcTrace"), dict(fn=proc_hist, trace="ProcTrace"), dict(fn=traced(proc_hist, .3, 0), trace="ProcTrace"), dict(fn=traced(requests, .1, 0), trace="ProcTrace")],
                assumptions=["descriptor 0 cannot be handed over (it stands for the null device)"]),
    "C22": dict(models=[M("ProcImpl", "ProcC22", "ProcTrace", lines=started, budget=4000), M("ProcImpl", "ProcC22b", "ProcTrace", lines=started, budget=3000), M("ProcImpl", "ProcC22l", "ProcTrace", lines=started, budget=3000), M("ProcImpl", "ProcC22x", None, **X)],
                gens=[dict(fn=statuses, trace="ProcTrace"), dict(fn=proc_hist, trace="ProcTrace"), dict(fn=traced(statuses, .2, 0), trace="ProcTrace"), dict(fn=pipelines, trace="ProcTrace")],
                assumptions=["interrupted waits are injected at waitpid()"]),
}
