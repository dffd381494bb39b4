"""mutsweep.py PID N WORKERS SEED OUT: plants N small syntactic changes in the functions a check says it covers and lists
the ones its quick run does not notice (for reading, not a measure: many survivors are equivalent)."""
import ast, copy, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

pid, N, WORK, SEED, OUT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
REPO = "/repo"
chk = next(f for f in os.listdir("/verif/checks") if f.startswith(pid + "_"))
names = json.load(open(f"/verif/evidence/{pid}.json"))
funcs = set(names["coverage"]["functions_encoded"])
FILES = subprocess.run("git -C /repo ls-files '*.py'", shell=True, capture_output=True, text=True).stdout.split()
FILES = [f for f in FILES if not re.search(r"test|check_|benchmark|scripts/", f)]


def expand(spec):
    if ":" in spec:
        return [spec]
    out = []
    for f in FILES:
        node = ast.parse(open(os.path.join(REPO, f), newline="").read().replace("\r\n", "\n"))
        for part in spec.split("."):
            node = next((n for n in ast.iter_child_nodes(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
            if node is None:
                break
        else:
            out.append(f[:-3].replace("/", ".") + ":" + spec)
    return out[:2]


funcs = {y for x in funcs for y in expand(x)}


def locate(spec):
    mod, q = spec.split(":")
    f = os.path.join(REPO, mod.replace(".", "/") + ".py")
    if not os.path.exists(f):
        f = os.path.join(REPO, mod.replace(".", "/"), "__init__.py")
    if not os.path.exists(f):
        return None
    src = open(f, newline="").read().replace("\r\n", "\n")
    node = ast.parse(src)
    for part in q.split("."):
        node = next((n for n in ast.iter_child_nodes(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part), None)
        if node is None:
            return None
    return f, src, node


CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(f, src, node):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def rep(n, text):
        s, e = span(n)
        return (b[:s] + text.encode() + b[e:]).decode(), n.lineno, seg(src, n)[:60].replace("\n", " ") + "  =>  " + text[:60].replace("\n", " ")
    doc = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Raise):
            for k in ast.walk(n):
                doc.add(k)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value); doc.add(n)
        if isinstance(n, ast.FunctionDef):
            for k in (n.args.defaults + n.args.kw_defaults + n.decorator_list + ([n.returns] if n.returns else [])):
                if k is not None:
                    for z in ast.walk(k):
                        doc.add(z)
            for a in n.args.args + n.args.kwonlyargs:
                for z in ast.walk(a):
                    doc.add(z)
        if isinstance(n, (ast.AnnAssign,)):
            for z in ast.walk(n.annotation):
                doc.add(z)
        if isinstance(n, ast.JoinedStr):
            for z in ast.walk(n):
                doc.add(z)
    for n in ast.walk(node):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield rep(n, f"({seg(src, n.left)} {o} {seg(src, n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield rep(n, f"({seg(src, n.left)} {BIN[type(n.op)]} {seg(src, n.right)})")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            yield rep(n, "(" + o.join(f"({seg(src, v)})" for v in n.values) + ")")
            yield rep(n, "(" + seg(src, n.values[0]) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield rep(n, f"({seg(src, n.operand)})")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            yield rep(n, str(n.value + 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield rep(n, str(not n.value))
        elif isinstance(n, ast.If) and not n.orelse and seg(src, n).startswith("if"):
            yield rep(n.test, "False")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            yield rep(n, "pass")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            fn = seg(src, n.func)
            if fn not in ("isinstance", "getattr", "hasattr", "range", "zip"):
                yield rep(n, f"{fn}({seg(src, n.args[1])}, {seg(src, n.args[0])})")
        elif isinstance(n, ast.IfExp):
            yield rep(n, f"({seg(src, n.body)})")
            yield rep(n, f"({seg(src, n.orelse)})")
        elif isinstance(n, ast.Break):
            yield rep(n, "pass")
        elif isinstance(n, ast.Continue):
            yield rep(n, "pass")


allm = []
for spec in sorted(funcs):
    l = locate(spec)
    if l is None:
        continue
    f, src, node = l
    for new, line, what in mutants(f, src, node):
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        allm.append((f, new, line, what, spec))
random.seed(SEED)
random.shuffle(allm)
# spread over functions
by = {}
for m in allm:
    by.setdefault(m[4], []).append(m)
pick = []
while len(pick) < N and any(by.values()):
    for k in sorted(by):
        if by[k] and len(pick) < N:
            pick.append(by[k].pop())
trees = queue.Queue()
for i in range(WORK):
    d = f"/tmp/sweep/{pid}_{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f"cd {REPO} && tar --exclude=.git -cf - . | tar -xf - -C {d}", shell=True, check=True)
    trees.put(d)


def run(m):
    f, new, line, what, spec = m
    d = trees.get()
    p = os.path.join(d, os.path.relpath(f, REPO))
    raw = open(p, newline="").read()
    try:
        open(p, "w", newline="").write(new.replace("\n", "\r\n") if "\r\n" in raw else new)
        try:
            r = subprocess.run(["/verif/run.sh", pid, "quick"], env={**os.environ, "SYMX_REPO": d, "SYMX_NOEVIDENCE": "1"}, capture_output=True, text=True, timeout=400)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    finally:
        open(p, "w", newline="").write(raw)
        trees.put(d)
    with open(OUT, "a") as o:
        o.write(f"{pid} rc={rc} {os.path.relpath(f, REPO)}:{line} [{spec.split(':')[1]}] {what}\n")
    return rc


with ThreadPoolExecutor(WORK) as ex:
    rs = list(ex.map(run, pick))
for i in range(WORK):
    shutil.rmtree(f"/tmp/sweep/{pid}_{i}", ignore_errors=True)
print(pid, "mutants", len(rs), "of", len(allm), {k: rs.count(k) for k in set(rs)})
