#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]
Decides one property: TLC explores the models of its subsystem exhaustively,
the model's transitions (as tours) and seeded random workloads are executed on
the library built from /repo, and TLC decides whether every recorded trace is
a behaviour of the specification.  Exit 0 / 1 (VIOLATION)."""
import os, sys, json, time, random, hashlib, re, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import props

LEVEL = "model_checking"

def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) event=(\{.*\}) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((json.loads(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out

def is_known(ev, known):
    for pat, what in known:
        if all(ev.get(k) == v for k, v in pat.items()):
            return what
    return None

def shards(scen, n):
    order = sorted(range(len(scen)), key=lambda i: -len(scen[i][1]))
    out = [[] for _ in range(n)]
    load = [0] * n
    for i in order:
        j = load.index(min(load))
        out[j].append(i)
        load[j] += len(scen[i][1]) + 3
    return [sorted(s) for s in out if s]

class Checker:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.P = props.PROPS[pid]
        self.work = Work(pid)
        self.rng = random.Random("%s/%d/%s" % (pid, seed, tier))
        self.known = known_findings(pid)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        models=[], tours=[], traces={}, samples=[])

    def run_one(self, tspec, lines, opts):
        traces, err = run_driver(self.work, self.drv, [lines], tmo=opts.get("tmo", 60))
        ok, n, out = validate(self.work, tspec, tspec + ".cfg", traces, env=opts.get("env"))
        t = traces[0]
        return ok, (None if ok else (t[n] if n < len(t) else dict(op="end"))), n, t, err, out

    def shard(self, tspec, items, opts):
        """items: list of (name, lines).  Returns (traces, events, rejection or None)"""
        if not items:
            return 0, 0, None, None
        traces, err = run_driver(self.work, self.drv, [l for _, l in items], tmo=opts.get("tmo", 60))
        ok, n, out = validate(self.work, tspec, tspec + ".cfg", traces, env=opts.get("env"))
        nev = sum(len(t) for t in traces)
        sample = traces[0]
        if ok and len(traces) == len(items):
            return len(traces), nev, None, sample
        if ok:
            n = nev - 1
        k = 0
        while k < len(traces) and n >= len(traces[k]):
            n -= len(traces[k])
            k += 1
        if k == len(traces):
            k, n = k - 1, len(traces[-1]) - 1
        return k, 0, (items[k], traces[k][n], n, err, items[k + 1:]), sample

    def validate_all(self, tspec, scen, opts):
        self.cov["traces"].setdefault(tspec, [0, 0])
        pending = [[scen[i] for i in s] for s in shards(scen, NCPU if len(scen) >= NCPU else max(1, len(scen)))]
        while pending:
            with ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(lambda it: self.shard(tspec, it, opts), pending))
            pending = []
            for nt, ne, rej, sample in res:
                self.cov["traces_validated_against_impl"] += nt
                self.cov["events_validated"] += ne
                self.cov["traces"][tspec][0] += nt
                self.cov["traces"][tspec][1] += ne
                if sample and len(self.cov["samples"]) < 3:
                    self.cov["samples"].append(dict(trace_spec=tspec, first_events=sample[:8]))
                if rej is None:
                    continue
                item, ev, idx, err, rest = rej
                confirmed = None
                for _ in range(3):
                    ok, ev2, n2, tr, err2, out2 = self.run_one(tspec, item[1], opts)
                    if not ok:
                        confirmed = (ev2, n2, tr, err2)
                        break
                if confirmed is None:
                    self.cov["unrepeated_rejections"] = self.cov.get("unrepeated_rejections", 0) + 1
                    print("note: rejection not repeated: %s %s" % (item[0], json.dumps(ev)[:300]))
                else:
                    what = is_known(confirmed[0], self.known)
                    if what is None:
                        self.violation(tspec, item, confirmed, opts)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
                if rest:
                    pending.append(rest)

    def violation(self, tspec, item, conf, opts):
        ev, n, tr, err = conf
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        r = dict(property=self.pid, trace_spec=tspec, scenario=item[0], lines=item[1], opts=opts,
                 rejected_event=ev, event_index=n, events_before=tr[max(0, n - 5):n], stderr=err[-1500:],
                 seed=self.seed, tier=self.tier)
        h = hashlib.sha1(json.dumps([tspec, item[1]]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.pid, h))
        with open(path, "w") as f:
            json.dump(r, f, indent=1)
        print("rejected by %s at event %d of scenario %s: %s" % (tspec, n, item[0], json.dumps(ev)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        self.evidence(1)
        raise SystemExit(1)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level=LEVEL, coverage=self.cov,
                 assumptions=self.P.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def run(self):
        self.t0 = time.time()
        self.drv = build(self.work)
        thorough = self.tier == "thorough"
        scen = []                          # (trace spec, name, lines, opts)
        for m in self.P.get("models", []):
            if m.get("tier") == "thorough" and not thorough:
                continue
            cfg = m.get("thorough_cfg", m["cfg"]) if thorough else m["cfg"]
            r = model_check(self.work, m["module"], cfg + ".cfg", timeout=m.get("timeout", 800), workers=m.get("workers", 4),
                            heap=m.get("heap", "6g"))
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["transitions"]
            self.cov["models"].append(dict(module=m["module"], cfg=cfg, states=r["states"], transitions=r["transitions"]))
            if "trace" in m:
                budget = m.get("budget", 20000) * (20 if thorough else 1)
                walks, covered, total = tours(r["edges"], self.rng, budget, m.get("maxlen", 60))
                self.cov["tours"].append(dict(model=cfg, edges=total, edges_covered=covered, walks=len(walks)))
                for i, wk in enumerate(walks):
                    lines = m["lines"](wk, i) if "lines" in m else wk
                    scen.append((m["trace"], "tour-%s-%d" % (cfg, i), lines, m.get("opts", {})))
        for g in self.P.get("gens", []):
            for i, lines in enumerate(g["fn"](self.rng, thorough)):
                scen.append((g["trace"], "%s-%d" % (g["fn"].__name__, i), lines, g.get("opts", {})))
        groups = {}
        for t, name, lines, opts in scen:
            groups.setdefault((t, json.dumps(opts, sort_keys=True)), []).append((name, lines))
        for (t, o), items in groups.items():
            self.validate_all(t, items, json.loads(o))
        self.evidence(0)
        c = self.cov
        print("%s ok: %d states, %d transitions, %d traces (%d events) in %.1f s" % (
            self.pid, c["states"], c["transitions"], c["traces_validated_against_impl"], c["events_validated"], time.time() - self.t0))

    def replay(self, path):
        self.t0 = time.time()
        self.drv = build(self.work)
        r = json.load(open(path))
        ok, ev, n, tr, err, out = self.run_one(r["trace_spec"], r["lines"], r.get("opts", {}))
        if ok:
            print("replay accepted: the scenario is a behaviour of", r["trace_spec"])
            return 0
        for e in tr[max(0, n - 10):n]:
            print("   ", json.dumps(e)[:300])
        print("rejected at event %d: %s" % (n, json.dumps(ev)[:1000]))
        print(err[-1500:])
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Checker(pid, tier, seed)
    try:
        if "--replay" in sys.argv:
            return c.replay(sys.argv[sys.argv.index("--replay") + 1])
        try:
            c.run()
        except Broken as b:               # e.g. a starved machine: once more
            print("retrying:", str(b)[-1500:])
            c.work.close()
            c = Checker(pid, tier, seed)
            c.run()
        return 0
    except Broken as b:
        print("check cannot run:", b)
        return 2
    finally:
        c.work.close()

if __name__ == "__main__":
    sys.exit(main())
