"""Print a replay file briefly: tools/show.py FILE"""
import json, sys
d = json.load(open(sys.argv[1]))
print(d["property"], d["mode"], d["case"], d["message"])
print(json.dumps(d.get("witness"))[:3000])
print(json.dumps((d.get("context") or [])[-1:])[:1500])
