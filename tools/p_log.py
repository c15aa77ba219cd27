"""The log (C24, C25) and error reports (C26)."""
from p_list import M, X
from p_mem import hx

def logged(walk, i):
    out = ["linit"]
    for l in walk:
        out.append(l)
        if l[0] == "!": out.append("lscan")
    return out

def a_text(rng, big=True):
    n = rng.choice([0, 1, 5, 20, 60, 200] + ([1000, 4000, 4095, 4094, 2048] if big else []))
    return bytes(rng.choice([37, 115, 110, 100, 32, 97, 98, 10, 9, 128, 255, rng.randrange(1, 256)]) for _ in range(n))
def ident(rng): return rng.choice(["i", "ident", "prog-%s", "a" * 40, "x.y"])
def routine(rng): return rng.choice(["@", "@", "r", "main", "%s", "a_rather_long_routine_name" * rng.choice([1, 1, 5])])
FACS = "auth authpriv cron daemon ftp lpr mail news syslog user uucp local0 local1 local2 local3 local4 local5 local6 local7".split()
PATS = ["p1/%Y/%m/%d", "p2.%H", "p3/%j-%y/x.%M", "p4.%S", "p5-%Y%m%d.log", "p6/%a/%b", "p7.%%.%d", "plain", "deep/er/plain", "p8/%H/%M/%S/f", "p9.%d%m", "%Yp10", "pa/%m.%H", "pb/%A-%B", "pc/%D", "pd/%F.%T", "pe/%c", "pf.%C%e/%u%w%R"]
def long_name(rng):
    """names that expand to many times their length"""
    unit = rng.choice(["%c", "%c/", "%A%B", "%F%T", "%D", "x%B/", "%A"])
    at = {"%c": 24, "%c/": 25, "%A%B": 13, "%F%T": 18, "%D": 8, "x%B/": 8, "%A": 7}[unit]
    n = rng.choice([20, 40, 60, 70, 80, 100, 130, 190])
    n = min(n, 2600 // at)
    s, k = "", 0
    if rng.random() < .4:                    # a long constant part before or behind what changes
        pre = "/".join("d" * rng.choice([30, 100, 250]) for _ in range(rng.choice([1, 2, 5])))
        return rng.choice([pre + "/%S.%M", pre + ".%d/f", "%S/" + pre])
    while k < n:                             # no component of more than 255 bytes
        s = (s + unit * min(8, n - k)).rstrip("/") + "/"; k += 8
    return s + "f"

def a_msg(rng, big=True):
    form = rng.choice([0, 0, 0, 1, 2])
    m = a_text(rng, big and form == 0)
    if form == 2: m = m.replace(b"%", b"+")
    return "lmsg %s %s %s %d%s" % (rng.choice("ieIE"), routine(rng), hx(m), form, " %d" % rng.choice([1, 2, 5]) if rng.random() < .1 else "")

def clock(rng, t):
    x = rng.random()
    if x < .3: return min(t + rng.choice([0, 1, 59, 60, 61, 3600]), 2147483647)
    if x < .5: return max(0, t - rng.choice([1, 60, 3600, 86400]))
    if x < .7: return min(t + rng.choice([86399, 86400, 86401, 2678400, 31536000]), 2147483647)
    if x < .8: return rng.choice([951782399, 951782400, 951868799, 951868800, 946684799, 946684800, 978307199, 1709164800, 2147483647, 0, 4107542399 // 2])
    return rng.randrange(2147483648)

def log_hist(rng, thorough):
    out = []
    for q in range(40 if not thorough else 1000):
        l, f, s, y, t, made, n = ["linit", "lgetf"], False, False, False, 0, set(), 0
        if rng.random() < .3: l.append("lstd")
        pats = rng.sample(PATS, 3)
        for _ in range(rng.choice([30, 80, 150])):
            x = rng.random()
            if x < .12:
                l.append("%slfile %s %s" % ("!" if f else "", ident(rng), hx(rng.choice(pats).encode())))
                if f: l.append("lscan")
                f = True
            elif x < .22:
                nm = rng.choice(["s1", "s2", "stdout", "stderr", "s3"])
                mode = "a" if s else rng.choice(["a", "r+"] if nm in made else ["a", "w"])
                l.append("%slstream %s %s %s" % ("!" if s else "", ident(rng), nm, mode))
                if s: l.append("lscan")
                else: made.add(nm)
                s = True
            elif x < .29:
                l.append("%slsys %s" % ("!" if y else "", ident(rng)))
                if y: l.append("lscan")
                y = True
            elif x < .45:
                k = rng.choice("fgFsStya")
                l.append("lclose " + k)
                if k in "fgFa": f = False
                if k in "sSta": s = False
                if k in "ya": y = False
            elif x < .5: l.append("lopt %d" % rng.randrange(2))
            elif x < .55:
                if rng.random() < .2: l += ["!lfac nosuch", "lscan", "lgetf"]
                else: l += ["lfac " + rng.choice(FACS), "lgetf"]
            elif x < .63: t = clock(rng, t); l.append("lnow %d" % t)
            elif x < .64: l.append("lfork")
            elif x < .65: l += ["!lbad %d" % rng.randrange(4), "lscan"]
            else: l.append(a_msg(rng))
        out.append(l)
    l = ["linit", "lsys a"]                   # every facility
    for f in FACS: l += ["lfac " + f, "lgetf", "lmsg i @ 61", "lclose y", "lsys a", "lmsg e r 62"]
    out.append(l)
    l = ["linit", "lfile i 66", "lstream i s a", "lsys j"]   # every size of message near the limits of buffers
    for n in [127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4000, 4090, 4093, 4094, 4095]: l.append("lmsg e rt %s" % hx(b"m" * n))
    out.append(l)
    return out

def log_rotate(rng, thorough):
    out = []
    for q in range(40 if not thorough else 1000):
        l, t, opened = ["linit"], rng.choice([0, 1700000000, rng.randrange(2147483647)]), False
        l.append("lnow %d" % t)
        if rng.random() < .3: l.append("lstd")
        back = [t]
        for _ in range(rng.choice([30, 60, 120])):
            x = rng.random()
            if rng.random() < .02: l += ["!lbad %d" % rng.randrange(4), "lscan"]
            if not opened:
                l.append("lfile id " + hx((rng.choice(PATS) if rng.random() < .85 else long_name(rng)).encode())); opened = True
                if rng.random() < .2: t = clock(rng, t); l.append("lnow %d" % t)
            elif x < .4:
                t = rng.choice(back) if rng.random() < .3 else clock(rng, t)
                back.append(t); l.append("lnow %d" % t)
                if rng.random() < .2: t = clock(rng, t); l.append("lnow %d" % t)
            elif x < .94: l.append(a_msg(rng, False))
            else: l.append("lclose " + rng.choice("fa")); opened = False
        out.append(l)
    for p in PATS[:7]:                       # minute by minute, day by day, back and forth
        for step in [1, 60, 3600, 86400]:
            l, t = ["linit", "lnow 1709080000", "lfile r " + hx(p.encode())], 1709080000
            for i in range(30):
                l += ["lnow %d" % t, "lmsg i @ %s" % hx(b"%d" % i)]
                t += step if i % 7 < 5 else -step
            out.append(l)
    return out

def errors(rng, thorough):
    out = []
    for q in range(40 if not thorough else 800):
        l, f, s, y = ["linit"], False, False, False
        for _ in range(rng.choice([20, 50])):
            x = rng.random()
            if x < .15:
                l.append("eprog " + rng.choice(["@", hx(rng.choice([b"prog", b"/usr/bin/prog", b"./a", b"dir/", b"/", b"a//b", b"p%s", b"x y", b"../../q.sh", b"/a/b/c/d/e"]))]))
            elif x < .3:
                k = rng.choice("fsyc")
                if k == "f" and not f: l.append("lfile id " + hx(rng.choice(PATS).encode())); f = True
                if k == "s" and not s: s = rng.choice(["s1", "stdout", "stderr"]); l.append("lstream id %s a" % s)
                if k == "y" and not y: l.append("lsys id"); y = True
                if k == "c": l.append("lclose a"); f = s = y = False
            elif x < .34: l.append("lopt %d" % rng.randrange(2))
            elif x < .35: l.append("lfork")
            elif x < .4: l.append("lnow %d" % rng.randrange(2147483647))
            elif x < .45: l.append(a_msg(rng, False))
            else:
                k = rng.choice("wwfni")
                rt = routine(rng)
                if k == "n" and rt == "@": rt = "r"
                form = rng.choice([0, 0, 1, 2])
                m = a_text(rng, False)
                if form == 2: m = m.replace(b"%", b"+")
                l.append("eerr %s %s %s %d %s %d" % (k, rt, hx(m), rng.choice([1, 2, 4, 13, 22, 32, 11]), hx(rng.choice([b"", b"pending output\n", b"x" * 500, b"no newline"])), form)
                         + (" full" if s != "stdout" and rng.random() < .2 else ""))
        out.append(l)
    return out

PROPS = {
    "C24": dict(models=[M("LogImpl", "LogC24", "LogTrace", lines=logged), M("LogImpl", "LogC24b", "LogTrace", lines=logged), M("LogImpl", "LogC24x", None, **X)],
                gens=[dict(fn=log_hist, trace="LogTrace")],
                assumptions=["messages of at most 4095 bytes", "standard output or error used as the stream shows the message alone", "time, system log and write interruptions are substituted at the system-call boundary"]),
    "C25": dict(models=[M("LogImpl", "LogC25", "LogTrace", lines=logged), M("LogImpl", "LogC25b", "LogTrace", lines=logged), M("LogImpl", "LogC25x", None, **X)],
                gens=[dict(fn=log_rotate, trace="LogTrace")],
                assumptions=["time zone UTC; directives Y y C m d e j H M S a A b B u w D F R T c %", "time is substituted at time()"]),
    "C26": dict(models=[M("ErrorImpl", "ErrorC26", "LogTrace", lines=logged)],
                gens=[dict(fn=errors, trace="LogTrace")],
                assumptions=["the errno variant is given a routine"]),
}
