"""usage: known.py fixed PROPERTY COMMIT TEXT | known ID PROPERTY TEXT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
a = sys.argv[1:]
if a[0] == "fixed":
    d["findings"].append(dict(status="fixed", property=a[1], commit=a[2], what=a[3],
        entry="fixed: property={} {} {}".format(a[1], a[2], a[3])))
else:
    d["findings"].append(dict(status="known", id=a[1], property=a[2], what=a[3]))
json.dump(d, open(p, "w"), indent=1)
