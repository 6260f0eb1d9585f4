"""fixed.py PROPERTY KEY WHAT: records the last commit of /repo as a repair."""
import json, subprocess, sys
c = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
f = "/verif/known_findings.json"
d = json.load(open(f))
l = d if isinstance(d, list) else d["findings"]
x = dict(l[-1])
x.update(property=sys.argv[1], key=sys.argv[2], commit=c, what="fixed: property=%s %s %s" % (sys.argv[1], c, sys.argv[3]))
l.append(x)
json.dump(d, open(f, "w"), indent=1)
print(x)
