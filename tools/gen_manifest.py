"""Write MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = "TLA+ specification checked with TLC; generated behaviours replayed into the real code"
TRACE = "TLA+ specification checked with TLC; traces recorded from the real code validated against it, and generated behaviours replayed"
TECH = {}
NOTE = {}
COMMON = ("Bounded exploration: TLC enumerates every behaviour of the specification within the stated bounds, checks the design "
          "invariants in each state and emits the expected outcome; the real code is then driven through the same behaviours and "
          "compared (a seeded, stratified sample of them in the quick tier). Trusts TLC, FIAT, gem, UFL.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, SPEC),
                       "level": "model_checking", "level_note": NOTE.get(i, COMMON)})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: every observation goes through the public API of /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
