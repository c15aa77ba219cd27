#!/usr/bin/env python3
"""seedtest.py ID...: confirm planted changes in a scratch copy of /repo and run the
property's quick check against them (development aid; no check uses it).
  --nocheck: only confirm; --all: run every check; --clean: also run it without the patch"""
import os, sys, json, subprocess, shutil, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/sd/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    os.makedirs("/tmp/sd", exist_ok=True)
    if not os.path.exists(D): sh("cp -a /repo " + D)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD" % (D, D))
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("REPO=/repo", "REPO=" + D).replace("B=/repo/", "B=%s/" % D).replace("bash /opt/vp/build.sh", "bash /tmp/sd/build.sh")
        open("/tmp/sd/" + f, "w").write(s)
def build():
    time.sleep(1.2)   # make compares whole seconds
    return sh("bash /tmp/sd/build.sh")
def main():
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not ids: ids = sorted(os.listdir(V + "/seeded"))
    prep()
    r = build()
    if r.returncode: print(r.stdout[-2000:]); sys.exit("clean build failed")
    clean = {i: sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=D) for i in ids}
    for i in ids:
        s = V + "/seeded/" + i
        meta = json.load(open(s + "/meta.json"))
        msg = []
        if clean[i].returncode: msg.append("demo fails on clean tree: " + clean[i].stdout[-800:])
        r = sh("git -C %s apply %s/patch.diff" % (D, s))
        if r.returncode: msg.append("does not apply: " + r.stdout)
        else:
            # lines removed must be original (not added by our commits)
            r = build()
            if r.returncode: msg.append("does not build " + r.stdout[-1500:])
            else:
                r = sh("bash /tmp/sd/test.sh /tmp/sd/out.json")
                res = json.load(open("/tmp/sd/out.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                f = [t for t in base if t not in res["passed"]]
                if f: msg.append("tests fail: %s" % f)
                d = sh("timeout 300 bash %s/demo.sh" % s, cwd=D)
                if d.returncode == 0: msg.append("demo passes with the patch: " + d.stdout[-500:])
                if "--nocheck" not in opts:
                    for p in ([meta["property"]] if "--all" not in opts else []):
                        c = sh("python3 %s/tools/check.py %s" % (V, p), env=dict(os.environ, VERIF_REPO=D, VERIF_SEED="1", VERIF_TIER="quick"))
                        msg.append("%s exit %d %s" % (p, c.returncode, (re.findall(r"^(?:VIOLATION|  event|rejected).*$", c.stdout, re.M) or [c.stdout[-300:]])[0][:300]))
            sh("git -C %s checkout -qf ." % D)
        print(i, "::", "; ".join(msg) or "confirmed", flush=True)
main()
