"""Timers (C29), source tokens (C27), diagnostics (C28)."""
from p_list import M, X
from p_mem import hx

def clocked(walk, i): return ["tclk 0 0 0 0 0"] + walk

def timers(rng, thorough):
    out = []
    for q in range(40 if not thorough else 1000):
        names = ["t%d" % i if rng.random() < .7 else "a-timer-with-a-rather-long-name-%d" % i for i in range(rng.choice([1, 2, 3, 8, 30]))]
        l, started, clk = ["tclk 0 0 0 0 0", "tlist"], set(), [0] * 5
        for _ in range(rng.choice([20, 60, 150])):
            x, n = rng.random(), rng.choice(names)
            if x < .35:
                step = rng.choice([1, 999, 1000, 999999, 1000000, 1000001, rng.randrange(50000000)])
                for i in range(5):
                    if rng.random() < .6: clk[i] += rng.choice([step, rng.randrange(step + 1)])
                if rng.random() < .1: clk[0] = rng.randrange(clk[0] + 1)      # the wall clock set back
                clk = [c % 1000000000 for c in clk]
                l.append("tclk %d %d %d %d %d" % tuple(clk))
            elif x < .5: l.append("tstart " + n); started.add(n)
            elif x < .95:
                op = rng.choice(["tstop", "tstop", "tget", "treset", "tlist"])
                if n in started: l.append("%s %s" % (op, n))
                elif op == "tlist": l.append("tlist")
                else: l.append("!%s %s%s" % ("tget1" if op == "tget" else op, n, " " + rng.choice("rusp") if op == "tget" else ""))
            else: l.append("tlist")
            if rng.random() < .3: l += ["tget " + m for m in sorted(started)]
        l += ["tget " + m for m in sorted(started)] + ["tlist"]
        out.append(l)
    return out

PROPS = {
    "C29": dict(models=[M("TimerImpl", "TimerC29", "TimerTrace", lines=clocked), M("TimerImpl", "TimerC29b", "TimerTrace", lines=clocked), M("TimerImpl", "TimerC29x", None, **X)],
                gens=[dict(fn=timers, trace="TimerTrace")],
                assumptions=["a timer's name stays valid while the timer exists (the library keeps the caller's pointer)", "clock readings are substituted at gettimeofday and getrusage"]),
}
