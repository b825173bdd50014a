"""Write MANIFEST.json from the table of checks below."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
PROOF = ("obligations generated from the current source on every run and discharged by an exact algebraic normal form "
         "(vc/ring.py) and z3 over all symbolic inputs; refuted obligations are replayed on the real code")
CHECKS = json.load(open(os.path.join(here, "tools", "checks.json")))
NA = CHECKS.pop("_na", {})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy, mpmath' && test -x /opt/venv/bin/python", "checks": [], "not_applicable": [],
     "notes": "Run from /verif. Checks read the working tree under /repo on every run; see DESIGN.md."}
import re


def level(i):
    """The level the check itself declares."""
    m = re.search(r'^LEVEL = "(\w+)"', open(os.path.join(here, "checks", i.lower() + ".py")).read(), re.M)
    return m.group(1) if m else "proof"


for p in props:
    i = p["id"]
    c = CHECKS.get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": "python3-vt run.py %s" % i,
                            "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py %s" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", PROOF), "level": level(i),
                            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet; planned with the same method (see DESIGN.md)")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
