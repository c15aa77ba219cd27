"""Comparisons, hash values and memory in proportion (C40)."""
from p_list import M, X

def units(walk, i): return ["cunit " + ("2000", "3001", "4096")[i % 3]] + walk

KINDS = "hash hstr hptr set sstr sptr pool glob skip list stack objs strs args".split()
def aged(rng, thorough):
    """one object, filled, thinned and searched in changing orders"""
    out = []
    for k in KINDS * (3 if thorough else 1) + ["skip", "hash", "set"]:
        u = rng.choice([2000, 2500, 4001]) if not thorough else rng.choice([2000, 5000, 9973])
        l, n, top = ["cunit %d" % u], 0, 0
        for _ in range(14):
            x = rng.random()
            if (x < .4 and top < 16) or not n: m = rng.randrange(1, 4); l.append("cadd %s %d %d" % (k, m, rng.randrange(3))); n += m; top += m
            elif x < .65 and k not in ("pool", "glob", "strs", "args"): m = rng.randrange(1, n + 1); l.append("ccut %s %d %d" % (k, m, rng.randrange(3))); n -= m
            elif x < .85 and k not in ("list", "stack", "objs", "strs", "args"): l.append("cfind %s %d" % (k, rng.randrange(3)))
            elif x < .92 and k not in ("strs", "args"): l.append("cturn %s %d %d" % (k, rng.randrange(1, 4), rng.randrange(2)))
            elif k != "glob" and x < .95: l.append("clife %s %d" % (k, rng.randrange(1, 3)))
            elif k in ("set", "sstr", "sptr"): l.append("calg %s %s %d" % (k, rng.choice("union inter diff sadd sdel equal".split()), rng.randrange(n + 1)))
        out.append(l + ["cdrop " + k])
    return out

def large(rng, thorough):
    return [["cunit %d" % rng.choice([50021, 60000, 70001]), "cadd %s 2 %d" % (k, rng.randrange(3)), "cfind %s 2" % k, "cadd %s 1 2" % k, "cfind %s %d" % (k, rng.randrange(2))]
            + (["ccut %s 2 2" % k, "cfind %s 2" % k, "cadd %s 1 1" % k, "cfind %s 0" % k] if k not in ("pool", "glob") else [])
            + (["calg %s %s 1" % (k, f) for f in ("union", "inter", "sadd", "equal")] if k == "set" else []) + ["cdrop " + k]
            for k in ("hash", "hstr", "set", "sptr", "pool", "glob", "skip")]

PROPS = { "C40": dict(models=[M("CostImpl", "CostC40", "CostTrace", lines=units), M("CostImpl", "CostC40x", None, **X)],
                      gens=[dict(fn=aged, trace="CostTrace"), dict(fn=large, trace="CostTrace")]) }
