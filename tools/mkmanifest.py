"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "checks", i + ".py")):
        na.append({"property": i, "reason": NA.get(i, "no check built yet: model checking applies, see DESIGN.md")})
        continue
    m = importlib.import_module("checks." + i)
    checks.append({
        "property": i,
        "quick_cmd": "python3 /verif/lib/vplib.py %s quick" % i,
        "thorough_cmd": "python3 /verif/lib/vplib.py %s thorough" % i,
        "technique": m.TECHNIQUE,
        "level": m.LEVEL,
        "level_note": m.NOTE,
        "evidence_file": "evidence/%s.json" % i,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 /verif/lib/build.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check rebuilds what it needs from /repo's working tree into /verif/.build. No hooks in /repo are used; /repo carries only fix: commits.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
