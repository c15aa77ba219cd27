"""Memory, descriptors and processes running out (C37)."""
import re, os
from p_list import M, X
FUNS = sorted(set(re.findall(r"O\((\w+),", open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "faults.c")).read())) - {"name"})

def everywhere(rng, thorough):
    """every allocation of every operation refused in turn, on objects of several sizes"""
    out = []
    for f in FUNS:
        for n in rng.sample([0, 1, 2, 3, 5, 7, 12, 16, 37, 90], 2) if not thorough else [0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 16, 30, 36, 37, 87, 88, 200, 600, 3000]:
            out.append(["oomall %s %d %d" % (f, n, rng.randrange(2))])
    out.append(["nofd open %d %d" % (m, l) for m in range(8) for l in range(8)] + ["nofd log 0 %d" % l for l in range(4)])
    out.append(["nofork open", "nofork spawn", "nofork filter", "xfree0"] + ["huge %d" % w for w in range(8)] + ["nolog %d" % h for h in range(4)])
    return out

PROPS = { "C37": dict(models=[M("FaultsImpl", "FaultsC37", "FaultsTrace"), M("FaultsImpl", "FaultsC37b", "FaultsTrace"), M("FaultsImpl", "FaultsC37x", None, **X)],
                      gens=[dict(fn=everywhere, trace="FaultsTrace")],
                      assumptions=["allocations the C library makes for itself do not fail"]) }
