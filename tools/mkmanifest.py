"""writes MANIFEST.json from the registry"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import VERIF
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique=P.get("technique", "TLA+ specification model-checked with TLC; TLC-generated tours and random workloads run on the real code, traces validated by TLC"),
            level="model_checking", level_note=P.get("note",
            "TLC explores the specification (abstract system and implementation-shaped model in lock step) exhaustively within the "
            "constants of the cfg files; the code is bound to it by executing tours over the model's transitions and random histories on "
            "an AddressSanitizer build of /repo and letting TLC accept or reject each recorded trace. Code behaviour outside the executed "
            "histories is not covered. Trusted: TLC, the driver's recording, gcc and ASan.")))
    else:
        na.append(dict(property=i, reason="not built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the public API and linker-level stand-ins (ld --wrap) suffice. See DESIGN.md."),
    open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
