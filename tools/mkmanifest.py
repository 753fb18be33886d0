"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from checks import CHECKS
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("TLC validates every recorded event of the real code against the TLA+ specification "
        "({mods}); design models checked exhaustively within their constants. Assurance is for the "
        "explored histories and inputs (counts in the evidence file); trusts TLC, the IEEE-754 "
        "override RealOps.java and the recording drivers.")
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    mods = ", ".join(sorted({"Trace_" + p["id"]} | {m[0] for m in c.get("mc", [])}))
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run_check.py %s quick" % p["id"],
        "thorough_cmd": "python3 run_check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification checked with TLC; TLC trace validation of recorded executions"
                     + ("; TLC-generated histories replayed into the code" if c.get("gen") else ""),
        "level": "model_checking",
        "level_note": NOTE.format(mods=mods) + (" " + c["note"] if c.get("note") else "")})
json.dump({"version": 1, "setup_cmd": "sh setup.sh",
           "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": "check not built yet"}
                              for p in props if p["id"] not in CHECKS]},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
