"""Helper: append a property to prop_list.py, design_notes.py and costs.json from a JSON file."""
import json, sys
d = json.load(open(sys.argv[1]))
assert len(d["title"]) <= 80, len(d["title"])
p = "tools/prop_list.py"
s = open(p).read()
assert f'prop("{d["id"]}"' not in s
mech = "[" + ", ".join(f"({json.dumps(a)}, {json.dumps(b)})" for a, b in d["mech"]) + "]"
s += "prop(%s, %s,\n     %s,\n     %s, %s, %s,\n     %s, %s, BOUND)\n" % (*[json.dumps(d[k]) for k in ("id", "title", "statement", "over", "text", "why", "files")], mech)
open(p, "w").write(s)
p = "tools/design_notes.py"
s = open(p).read()
i = s.rindex("}")
open(p, "w").write(s[:i] + f' "{d["id"]}": {json.dumps(d["note"])},\n}}\n')
p = "tools/costs.json"
c = json.load(open(p))
c[d["id"]] = d["cost"]
json.dump(c, open(p, "w"))
