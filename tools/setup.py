"""setup_cmd: nothing is prebuilt (every check builds from /repo's working
tree); verify that the tools are there and that the specifications parse."""
import os, sys, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import SPEC, JARS, sh
def sany(f):
    return f, sh(["java", "-cp", JARS, "-DTLA-Library=" + SPEC, "tla2sany.SANY", os.path.join(SPEC, f)], cwd=SPEC)
bad = 0
with ThreadPoolExecutor(6) as ex:
    for f, r in ex.map(sany, sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))):
        if r.returncode or "*** Errors" in r.stdout:
            print("cannot parse", f, r.stdout[-1500:])
            bad = 1
print("specifications parsed" if not bad else "errors")
sys.exit(bad)
