"""Machinery shared by all checks: building the driver from /repo's working
tree, running TLC, turning TLC's transitions into tours, validating traces."""
import os, re, sys, json, shutil, subprocess, tempfile, time, random, collections, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 2)
WRAP = ["random", "time", "gettimeofday", "getrusage", "openlog", "vsyslog", "syslog",
        "closelog", "kill", "waitpid", "select", "read", "write", "poll", "clock_gettime", "wait4", "fork", "strcmp"]

class Broken(Exception):
    """the check itself cannot run (not a verdict about the code)"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Work:
    def __init__(self, pid):
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.chmod(self.dir, 0o755)
        self.n = 0
        self.lock = threading.Lock()
    def path(self, name):
        return os.path.join(self.dir, name)
    def sub(self, name):
        with self.lock:
            self.n += 1
            p = os.path.join(self.dir, "%s%d" % (name, self.n))
        os.makedirs(p)
        return p
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

# ---------------------------------------------------------------- building
def sources():
    mk = open(os.path.join(REPO, "maa", "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^SRCS\s*=(.*)$", mk, re.M)
    src = [s for s in m.group(1).split() if s.endswith(".c")] if m else []
    for m in re.finditer(r"^SRCS\s*\+=(.*)$", mk, re.M):
        src += [s for s in m.group(1).split() if s.endswith(".c")]
    if not src:
        raise Broken("no SRCS in maa/Makefile")
    return src

def build(work, flags=("-fsanitize=address",)):
    """compile libmaa (as it is in /repo now) and the driver; returns the driver's path"""
    b = work.sub("build")
    maa = os.path.join(REPO, "maa")
    with open(os.path.join(b, "arggram.c"), "w") as f:
        r = subprocess.run(["awk", "-f", maa + "/arggram2c"], stdin=open(maa + "/arggram.txt"), stdout=f)
        if r.returncode:
            raise Broken("arggram2c failed")
    ver = dict(MAJOR="4", MINOR="1", TEENY="0")
    try:
        mk = open(os.path.join(REPO, "Makefile.common")).read()
        for k in ver:
            m = re.search(r"MAA_%s\s*=\s*(\d+)" % k, mk)
            if m:
                ver[k] = m.group(1)
    except OSError:
        pass
    cc = ["gcc", "-g", "-O1", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"] + list(flags)
    lib = ["-DMAA_%s=%s" % kv for kv in ver.items()] + [
        "-DSIZEOF_LONG=8", "-DHAVE_HEADER_ALLOCA_H=1", "-DHAVE_HEADER_SYS_RESOURCE_H=1", "-I" + b, "-I" + maa]
    jobs = [(cc + lib + ["-c", os.path.join(maa, s), "-o", os.path.join(b, s[:-2] + ".o")]) for s in sources()]
    hs = sorted(f for f in os.listdir(HARNESS) if f.endswith(".c"))
    jobs += [(cc + ["-I" + maa, "-I" + HARNESS, "-c", os.path.join(HARNESS, s), "-o", os.path.join(b, "drv_" + s[:-2] + ".o")]) for s in hs]
    with ThreadPoolExecutor(NCPU) as ex:
        for j, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise Broken("compile failed: %s\n%s" % (" ".join(j), r.stdout))
    objs = [j[-1] for j in jobs]
    # what the library itself allocates is counted (harness/wrap.c)
    red = sum((["--redefine-sym", "%s=vm_%s" % (f, f)] for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup")), [])
    for o in objs[:len(sources())]:
        r = sh(["objcopy"] + red + [o])
        if r.returncode:
            raise Broken("objcopy failed:\n" + r.stdout)
    drv = os.path.join(b, "drv")
    r = sh(cc + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAP), "-o", drv])
    if r.returncode:
        raise Broken("link failed:\n" + r.stdout)
    return drv

# ---------------------------------------------------------------- TLC
def tlc(work, module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(), simulate=None):
    """run TLC on spec/<module>.tla with spec/<cfg>; returns (returncode, output)"""
    meta = work.sub("tlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=meta)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as t:
        out, rc = (t.stdout.decode() if isinstance(t.stdout, bytes) else t.stdout or "") + "\nTIMEOUT", 124
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))

def model_check(work, module, cfg, timeout=600, workers=4, heap="4g", env=None):
    """exhaustive run; returns dict(states, transitions, edges) where edges are
    the (state, label, next state) triples the model printed"""
    rc, out = tlc(work, module, cfg, workers=workers, timeout=timeout, heap=heap, env=env)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise Broken("model %s/%s: TLC says\n%s" % (module, cfg, out[-6000:]))
    d, g = tlc_counts(out)
    edges = []
    for m in re.finditer(r'^"EDGE (.*)"$', out, re.M):
        s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        edges.append(json.loads(s))
    return dict(states=d, transitions=g, edges=edges, module=module, cfg=cfg)

def tours(edges, rng, budget, maxlen=60):
    """walks over the transition graph, each from the initial state, that
    together cover every edge (or as many as the budget allows); an edge is
    [state, label, next]; the initial state is the first edge's source"""
    if not edges:
        return [], 0, 0
    ids = {}
    def sid(s):
        k = json.dumps(s, sort_keys=True)
        return ids.setdefault(k, len(ids))
    adj = collections.defaultdict(dict)
    init = sid(edges[0][0])
    for s, l, t in edges:
        adj[sid(s)].setdefault(json.dumps(l), sid(t))
    total = sum(len(v) for v in adj.values())
    todo = {s: set(v) for s, v in adj.items()}
    left = total
    walks, used = [], 0
    # BFS tree from init, for restarting
    def path_to_todo(start):
        seen, q = {start: None}, collections.deque([start])
        while q:
            s = q.popleft()
            if todo.get(s):
                p = []
                while seen[s] is not None:
                    ps, l = seen[s]
                    p.append(l)
                    s = ps
                return p[::-1]
            nx = list(adj[s].items())
            rng.shuffle(nx)
            for l, t in nx:
                if t not in seen:
                    seen[t] = (s, l)
                    q.append(t)
        return None
    while left and used < budget:
        s, w = init, []
        while len(w) < maxlen:
            if todo.get(s):
                l = rng.choice(sorted(todo[s]))
                todo[s].discard(l)
                left -= 1
                w.append(l)
                s = adj[s][l]
            else:
                p = path_to_todo(s)
                if p is None or (w and len(w) + len(p) >= maxlen):
                    break
                for l in p:
                    w.append(l)
                    s = adj[s][l]
        if not w:
            break
        used += len(w)
        walks.append([json.loads(l) for l in w])
    return walks, total - left, total

# ---------------------------------------------------------------- driver
ASAN = "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"

def run_driver(work, drv, scenarios, tmo=60, env=None):
    """scenarios: list of lists of lines; returns the list of their traces (lists of events)"""
    d = work.sub("run")
    script, trace = d + "/script", d + "/trace"
    scratch = d + "/s"
    os.makedirs(scratch)
    os.chmod(d, 0o777)
    with open(script, "w") as f:
        for s in scenarios:
            f.write("reset\n" + "".join(l + "\n" for l in s))
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME")}
    e.update(ASAN_OPTIONS=ASAN, LC_ALL="C", TZ="UTC", PATH=os.environ.get("PATH", "/usr/bin:/bin"))
    e.update(env or {})
    with open(d + "/stderr", "w") as err, open(d + "/stdout", "w") as o:
        r = subprocess.run([drv, script, trace, scratch, str(tmo)], stdin=subprocess.DEVNULL, stdout=o, stderr=err, env=e, cwd=scratch)
    if r.returncode:
        raise Broken("driver ended with %d: %s" % (r.returncode, open(d + "/stderr").read()[-2000:]))
    out = []
    for line in open(trace, errors="replace"):
        line = line.strip()
        if not line:
            continue
        try:
            ev = json.loads(line)
        except ValueError:
            continue                      # torn by the crash recorded next
        if ev.get("op") == "reset":
            out.append([ev])
        else:
            out[-1].append(ev)
    if len(out) < len(scenarios) and out and out[-1][-1].get("op") in ("crash", "hang"):
        pass                              # the driver gives up after a few of these
    elif len(out) != len(scenarios):
        raise Broken("driver recorded %d of %d scenarios" % (len(out), len(scenarios)))
    err = open(d + "/stderr", errors="replace").read()
    shutil.rmtree(d, ignore_errors=True)
    return out, err[-4000:]

# ---------------------------------------------------------------- trace validation
def validate(work, module, cfg, traces, env=None, timeout=800, heap="2g"):
    """TLC decides whether the concatenated traces are a behaviour of the
    trace specification.  Returns (accepted?, index of the first rejected
    event in the concatenation, TLC output)"""
    f = work.sub("tr") + "/trace.ndjson"
    n = 0
    with open(f, "w") as o:
        for t in traces:
            for ev in t:
                o.write(json.dumps(ev) + "\n")
                n += 1
    e = dict(TRACE=f)
    e.update(env or {})
    rc, out = tlc(work, module, cfg, env=e, timeout=timeout, heap=heap)
    os.unlink(f)
    m = re.search(r'<<"REACHED", (\d+)>>', out)
    reached = int(m.group(1)) if m else None
    if reached is not None and rc == 0 and reached == n:
        return True, n, out
    if "TIMEOUT" in out[-20:]:
        raise Broken("TLC timed out on a trace of %d events (%s)" % (n, module))
    if reached is None:
        # evaluation error while looking at an event: find how far it got
        m = re.findall(r"/\\ i = (\d+)", out)
        if re.search(r"Parsing or semantic analysis failed|java\.lang\.OutOfMemory|Could not find", out) or not m:
            raise Broken("TLC failed on trace spec %s:\n%s" % (module, out[-4000:]))
        reached = int(m[-1]) - 1
    return False, reached, out
