"""Assembles DESIGN.md from tools/design_head.md, prop_list.py, design_notes.py, the check files, seeded/ and known_findings.json."""
import glob, json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = r'''
import sys, json, runpy, os
sys.path.insert(0, "@ROOT@"); sys.path.insert(0, "@ROOT@/checks")
from symx import driver
driver.Check.main = lambda self: None
out = {}
f = sys.argv[1]
import importlib.util
spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ch = m.check
print("@@@" + json.dumps(dict(assumptions=ch.assumptions, obs=[dict(name=o.name, bounds=o.bounds, tiers=list(o.tiers), functions=list(o.functions)) for o in ch.obligations])))
'''.replace("@ROOT@", ROOT)


def load(f):
    r = subprocess.run(["/opt/venv/bin/python", "-c", CODE, f], capture_output=True, text=True)
    for l in r.stdout.splitlines():
        if l.startswith("@@@"):
            return json.loads(l[3:])
    raise SystemExit(f"{f}: {r.stderr[-2000:]}")


def main():
    P, NA = [], []
    g = {"prop": lambda *a, **k: P.append((a, k)), "na": lambda *a: NA.append(a)}
    exec(open(ROOT + "/tools/prop_list.py").read(), g)
    n = {}
    exec(open(ROOT + "/tools/design_notes.py").read(), n)
    head = open(ROOT + "/tools/design_head.md").read()
    titles = {a[0]: a[1] for a, _ in P}
    nas = "\n".join(f"- **{i} {titles.get(i, '')}** {r}" for i, r in NA) or "(none yet)"
    fixed = "\n".join("- " + x.replace("fixed: ", "") for x in json.load(open(ROOT + "/known_findings.json"))["fixed"])
    rows = []
    for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m = json.load(open(d))
        rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    catch = "| seed | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows)
    out = head.replace("@@NA@@", nas).replace("@@FIXED@@", fixed).replace("@@CATCH@@", catch)
    try:
        cost = json.load(open(ROOT + "/tools/costs.json"))
    except FileNotFoundError:
        cost = {}
    nid = {i for i, _ in NA}
    for a, k in sorted(P, key=lambda x: x[0][0]):
        pid, title, st, over, text, why, files, mech, note = a[:9]
        if pid in nid:
            continue
        f = glob.glob(f"{ROOT}/checks/{pid}_*.py")[0]
        ch = load(f)
        out += f"### {pid} {title}\n\n{st}\n\n*Why tests cannot:* {why}\n\n"
        if pid in n["NOTES"]:
            out += n["NOTES"][pid] + "\n\n"
        out += f"*Quantified over:* {text}. *Anchors:* {', '.join(files)}. *Cost:* {cost.get(pid, '?')} s.\n\n*Assumptions:*\n"
        out += "".join(f"- {x}\n" for x in ch["assumptions"]) + "\n| obligation | bounds |\n|---|---|\n"
        seen = {}
        for o in ch["obs"]:
            key = (re.sub(r"\d+", "#", o["name"]), o["bounds"], tuple(o["tiers"]))
            seen.setdefault(key, []).append(o)
        for (nm, b, t), os_ in seen.items():
            label = os_[0]["name"] if len(os_) == 1 else f"{os_[0]['name']} … {os_[-1]['name']} ({len(os_)})"
            out += f"| {label}{'' if 'quick' in t else ' *(thorough)*'} | {b.replace('|', '/')} |\n"
        out += "\n"
    open(ROOT + "/DESIGN.md", "w").write(out)


main()
