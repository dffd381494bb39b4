"""Single source for properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, note=note,
                  technique=technique or "symbolic execution of the repository's Python functions, assertions decided by Z3"))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(ROOT, "tools", "prop_list.py")).read())


def main():
    keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            for x in p["anchors"]["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps({k: p[k] for k in keys}) + "\n")
    nas = {n["property"] for n in NA}
    checks = []
    for p in P:
        if p["id"] in nas:
            continue
        assert glob.glob(os.path.join(ROOT, "checks", p["id"] + "_*.py")), p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
