"""Build and confirm planted bugs: python3 tools/seed.py <specfile.py> [ids...]
A spec file defines SEEDS = [dict(id, property, file, edits=[(old,new),..], needs, breaks, demo=python source)]."""
import sys, os, subprocess, json, shutil, tempfile
ROOT = "/verif/seeded"
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = set(sys.argv[2:])
TESTS = "--tests" in want
want.discard("--tests")
PY = "/opt/venv/bin/python"
for s in spec["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = os.path.join(ROOT, s["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed_")
    wt = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    files = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    for fn, edits in files.items():
        p = os.path.join(wt, fn)
        with open(p, newline="") as f:
            src = f.read()
        crlf = "\r\n" in src
        for old, new in edits:
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert src.count(old) == 1, (s["id"], fn, src.count(old), old)
            src = src.replace(old, new)
        with open(p, "w", newline="") as f:
            f.write(src)
    patch = subprocess.run(["git", "-C", wt, "diff", "--binary"], capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(patch)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"])
    extra = s.get("pre", "")
    open(os.path.join(d, "demo.sh"), "w").write(f"""#!/bin/bash
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=
d=$(cd "$(dirname "$0")" && pwd)
export DEMO_SCRATCH=$(mktemp -d /tmp/demo_XXXXXX)
trap 'rm -rf "$DEMO_SCRATCH"' EXIT
export KEOPS_CACHE_FOLDER="$DEMO_SCRATCH/keops" TORCHINDUCTOR_CACHE_DIR="$DEMO_SCRATCH/inductor"
{extra}PYTHONPATH="$PWD" /opt/venv/bin/python "$d/demo.py"
""")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = subprocess.run([os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300)
    r1 = subprocess.run([os.path.join(d, "demo.sh")], cwd=wt, capture_output=True, text=True, timeout=300)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(s["id"], "demo base", r0.returncode, "patched", r1.returncode, "OK" if ok else "BAD " + (r0.stdout + r0.stderr)[-1500:] + (r1.stdout + r1.stderr)[-1500:])
    print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1:] )
    if ok:
        env = dict(os.environ, SYMX_REPO=wt)
        r = subprocess.run(["/verif/run.sh", s["property"], "quick"], capture_output=True, text=True, env=env)
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print("    check rc", r.returncode, [l[:260] for l in lines if "VIOLATION" in l or l.startswith("   ") or "INCONC" in l][:4])
    shutil.rmtree(tmp)
