"""Hundreds of thousands of elements, megabytes of text (C38)."""
from p_list import M, X

def units(walk, i): return ["unit " + ("60000 700000", "65537 1048577", "70001 600001")[i % 3]] + walk

KINDS = "hash set list skip stack objs strs pool glob args src prs".split()
def grown(rng, thorough):
    """one object, grown in small and large steps"""
    out = []
    for k in KINDS:
        u = rng.choice([997, 20011]) if not thorough else rng.choice([1, 997, 20011, 100003])
        l, n, top = ["unit %d 100" % u], 0, 0
        for _ in range(12):
            x = rng.random()
            if not n and (top + 4) * u >= 900000: break
            if (x < .5 and (top + 4) * u < 900000) or not n: m = rng.randrange(1, 4); top += m; l.append("zadd %s %d %d" % (k, m, rng.randrange(2))); n += m
            elif x < .65 and k in "hash set list skip stack objs".split():
                m = rng.randrange(n + 1); l.append("zcut %s %d %d" % (k, m, k == "list" and rng.randrange(2))); n -= m
            elif x < .8: l.append("zwalk %s %d" % (k, rng.randrange(2)))
            elif k in "hash set list skip pool glob prs".split(): l.append("zfind " + k)
        out.append(l + ["zwalk %s 0" % k, "zdrop " + k])
    return out

PROPS = { "C38": dict(models=[M("ScaleImpl", "ScaleC38", "ScaleTrace", lines=units), M("ScaleImpl", "ScaleC38t", "ScaleTrace", lines=units), M("ScaleImpl", "ScaleC38x", None, **X)],
                      gens=[dict(fn=grown, trace="ScaleTrace")]) }
