"""Source tokens (C27), diagnostics (C28)."""
import itertools
from p_list import M, X
from p_mem import hx
from p_proc import traced

def a_line(rng, long=False):
    n = rng.choice([0, 1, 2, 7, 8, 20, 80] + ([1000, 5000] if long else []))
    return bytes(rng.choice([9, 9, 32, 97, 98, 34, 37, 92, 96, 128, 255, 1, rng.randrange(1, 256)]) for _ in range(n)).replace(b"\n", b"x") + rng.choice([b"\n", b"\n", b"\n", b"", b"\r\n"])

def a_file(rng): return rng.choice(["a.c", "b.h", "dir/long-name.y", "<stdin>", "%s", "x" * 40])

def src_hist(rng, thorough):
    out = []
    for q in range(40 if not thorough else 1000):
        l, lines, toks, on = ["qstat"], 0, 0, False
        blind = 0                            # tokens taken before any line
        for _ in range(rng.choice([30, 80, 200])):
            x = rng.random()
            if x < .25: l.append("qline " + hx(a_line(rng, q % 8 == 0))); lines += 1; on = True
            elif x < .32: l.append("qfile " + a_file(rng))
            elif x < .37: l.append("qnl %d" % rng.choice([0, 1, 5, 100000, 2000000000 - 5]))
            elif x < .42: l.append("qadv %d" % rng.choice([0, 1, 3, 10, 1000, 40000, 70000]))
            elif x < .5: l.append("qcpp %d %s %d" % (rng.choice([1, 2, 10, 4711, 2000000000]), rng.choice(["a.c", "b.h", "<stdin>", "d/e.y", "x" * 30]), rng.randrange(5)))
            elif x < .75:
                if on and lines: l.append("qget %d" % rng.choice([0, 1, 1, 2, 5, 100, 300, 66000])); toks += 1
                elif not on: l.append("!qacc g")
            elif x < .9 and toks:
                for _ in range(3): l.append("qtok %d" % rng.randrange(toks + 1))
            elif x < .93: l.append("qstat")
            elif x < .95: l.append("!qacc " + rng.choice("fnolsc"))
            elif x < .96:
                l += ["qtok %d" % i for i in range(1, toks + 1)] + ["qdel", "qstat"]
                lines = toks = 0; on = False
                if rng.random() < .5: l += ["qdel", "!qacc s", "!qacc g"]
            elif x < .97 and not on: l += ["qnew", "qstat"]; on = True
        l += ["qtok %d" % i for i in range(0 if on else 1, toks + 1)] + ["qstat"]
        out.append(l)
    for n in ([999, 1000, 1001, 2500] if not thorough else [999, 1000, 1001, 2000, 3001, 5000]):
        l, t = ["qfile big"], 0              # many lines and tokens across table growth
        for i in range(n):
            l.append("qline " + hx(b"line %d\n" % i))
            if i % 25 == 0 or i % 1000 > 990 or i % 1000 < 5: l.append("qget 3"); t += 1
        l.append("qstat")
        l += ["qtok %d" % i for i in range(1, t + 1)]
        l += ["qdel", "qstat", "qline 61", "qget 1", "qtok 1"]
        out.append(l)
    for n in ([33000, 66000] if not thorough else [33000, 66000, 140000]):
        l = ["qline 66", "qget 1", "qfill 7a %d" % n, "qget 1", "qline 6c6c", "qget 2", "qline " + hx(b"m" * 70000), "qadv 69990", "qget 3", "qline 6e", "qget 1", "qstat"]
        out.append(l + ["qtok %d" % i for i in range(1, 6)])
    l = ["qline 616263", "qfile f"]
    for i in range(1500 if not thorough else 6000):
        l.append("qget %d" % (i % 3))
        if i % 10 == 0: l += ["qtok %d" % rng.randrange(1, i + 2), "qline " + hx(b"%d" % i)]
    l += ["qstat"] + ["qtok %d" % rng.randrange(1, i + 2) for _ in range(300)]
    out.append(l)
    return out

SYMS = [b"T_PLUS", b"T_", b"T_IF", b"T_A B", b"T_%s", b"T_x`y"]
def a_message(rng):
    s = b""
    for _ in range(rng.randrange(1, 8)):
        s += rng.choice([b"`", b"'", b"``", b"''", b"`T_", b"T_", b"``a''", b"``'''", b"```''", b"``a'", b"`a'", b"``ab''", b"parse error, expecting ", b"%d", b"%",
                         b"`" + rng.choice(SYMS) + b"'", b"`" + rng.choice(SYMS) + b"'", b"`" + rng.choice(SYMS), b" or ", bytes([rng.randrange(1, 256)]), b"\n", b"`'", b"`T'", b"\t"])
    return s

def diag(rng, thorough):
    out = []
    for q in range(40 if not thorough else 1000):
        l, toks, on = [], 0, False
        for _ in range(rng.choice([30, 80, 150])):
            x = rng.random()
            if x < .1 or not on:
                l += ["qfile " + a_file(rng), "qline " + hx(a_line(rng).rstrip(b"\r\n") + b"\n")]; on = True
            elif x < .15: l.append("qcpp %d %s 1" % (rng.randrange(1, 2000), rng.choice(["a.c", "<stdin>", "d/e.y"])))
            elif x < .2: l.append("qadv %d" % rng.choice([0, 1, 2, 3, 10, 200]))
            elif x < .35: l.append("qget %d" % rng.choice([0, 1, 1, 2, 5, 100])); toks += 1
            elif x < .45:
                l.append("preg %s %s" % (hx(rng.choice(SYMS)), hx(rng.choice([b"+", b"if", b"`T_IF'", b"", b"a'b", b"%s", b"two words"]))))
                if rng.random() < .3: l.append("pconc " + hx(rng.choice(SYMS + [b"nope", b""])))
            else:
                k = rng.choice("ppppppeedmlEM")
                m = a_message(rng) if k in "pe" else rng.choice([b"", b"text", b"100% `T_IF' %n", b"x" * 300])
                l.append("qdiag %s %d %s %d" % (k, rng.randrange(toks + 1), hx(m), rng.random() < .3))
        if q % 10 == 0: l.append("qdel"); l.append("qdiag p 0 61 0")
        out.append(l)
    h = ["preg %s 2b" % hx(b"T_"), "preg %s %s" % (hx(b"T_a"), hx(b"b'"))]
    ms = ["".join(t) for n in range(0, 7) for t in itertools.product("`'T_a", repeat=n)]
    rng.shuffle(ms)
    l = ["qdiag p 0 %s 0" % hx(m.encode()) for m in (ms if thorough else ms[:2000])]
    out += [h + l[i::8] for i in range(8)]
    l = []                                    # every byte where a character constant or the name of a symbol may stand
    for b in range(1, 256):
        x = bytes([b])
        l += ["qdiag p 0 %s 0" % hx(m) for m in (b"``" + x + b"''", b"a``" + x + b"''b", b"`T_" + x + b"'", x + b"``a''" + x)]
    return out + [h + l]

PROPS = {
    "C27": dict(models=[M("SourceImpl", "SourceC27", "SourceTrace", budget=30000), M("SourceImpl", "SourceC27b", "SourceTrace"), M("SourceImpl", "SourceC27x", None, **X)],
                gens=[dict(fn=src_hist, trace="SourceTrace"), dict(fn=traced(src_hist, .2, 1), trace="SourceTrace")],
                assumptions=["line numbers announced by markers are positive, text has no NUL bytes", "the text of a token taken before any line is not asked for"]),
    "C28": dict(models=[M("ConcreteImpl", "ConcreteC28", None), M("ConcreteImpl", "ConcreteC28x", None, **X)],
                gens=[dict(fn=diag, trace="SourceTrace"), dict(fn=traced(diag, .2, 1), trace="SourceTrace")],
                assumptions=["stored lines end with a newline and a file name is set when a diagnostic is printed"]),
}
