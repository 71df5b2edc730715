"""tools/mutate.py N SEED PROPS FILE QUALNAME...: mutants of the named functions in a scratch copy of /repo, run against the checks.

A development aid: it prints the mutants that pass the stable tests' import and that no listed check reports."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time

n, seed, props, path, *quals = sys.argv[1:]
n, props = int(n), props.split(",")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join("/repo", path)).read()
tree = ast.parse(src)


def funcs(node, prefix=""):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
            q = prefix + c.name
            yield q, c
            yield from funcs(c, q + ".")


table = dict(funcs(tree))
muts = []  # (description, path of edits)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}


def apply(kind, node, extra=None):
    """mutate in place; returns an undo function"""
    if kind == "cmp":
        o = node.ops[0]; node.ops[0] = CMP[type(o)]()
        return lambda: node.ops.__setitem__(0, o)
    if kind == "bool":
        o = node.op; node.op = ast.Or() if isinstance(o, ast.And) else ast.And()
        return lambda: setattr(node, "op", o)
    if kind == "dropbool":
        o = list(node.values); del node.values[extra]
        if len(node.values) == 1:
            node.values.append(node.values[0])
        return lambda: setattr(node, "values", o)
    if kind == "const":
        o = node.value; node.value = extra
        return lambda: setattr(node, "value", o)
    if kind == "bin":
        o = node.op; node.op = BIN[type(o)]()
        return lambda: setattr(node, "op", o)
    if kind == "if":
        o = node.test; node.test = extra(o)
        return lambda: setattr(node, "test", o)
    if kind == "swap":
        a = node.args; a[extra], a[extra + 1] = a[extra + 1], a[extra]
        return lambda: a.__setitem__(slice(extra, extra + 2), [a[extra + 1], a[extra]])
    if kind == "del":
        body, k = node
        o = body[k]; body[k] = ast.copy_location(ast.Pass(), o)
        return lambda: body.__setitem__(k, o)
    if kind == "not":
        o = node.operand; node.op = ast.Not(); node.operand = ast.UnaryOp(ast.Not(), o)
        return lambda: setattr(node, "operand", o)


for q in quals:
    fn = table[q]
    nested = set()
    for node in ast.walk(fn):
        ln = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            muts.append((f"{q}:{ln} cmp {ast.unparse(node)[:80]}", "cmp", node, None))
        if isinstance(node, ast.BoolOp):
            muts.append((f"{q}:{ln} and/or {ast.unparse(node)[:80]}", "bool", node, None))
            for k in range(len(node.values)):
                muts.append((f"{q}:{ln} drop operand {k} {ast.unparse(node)[:80]}", "dropbool", node, k))
        if isinstance(node, ast.Constant) and type(node.value) is int:
            muts.append((f"{q}:{ln} const {node.value}+1", "const", node, node.value + 1))
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            muts.append((f"{q}:{ln} const not {node.value}", "const", node, not node.value))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            muts.append((f"{q}:{ln} binop {ast.unparse(node)[:80]}", "bin", node, None))
        if isinstance(node, (ast.If, ast.IfExp)):
            muts.append((f"{q}:{ln} negate {ast.unparse(node.test)[:80]}", "if", node, lambda t: ast.UnaryOp(ast.Not(), t)))
            muts.append((f"{q}:{ln} always {ast.unparse(node.test)[:80]}", "if", node, lambda t: ast.Constant(True)))
            muts.append((f"{q}:{ln} never {ast.unparse(node.test)[:80]}", "if", node, lambda t: ast.Constant(False)))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            muts.append((f"{q}:{ln} drop not {ast.unparse(node)[:80]}", "not", node, None))
        if isinstance(node, ast.Call):
            for k in range(len(node.args) - 1):
                if ast.dump(node.args[k]) != ast.dump(node.args[k + 1]) and not any(isinstance(a, ast.Starred) for a in node.args[k:k + 2]):
                    muts.append((f"{q}:{ln} swap args {ast.unparse(node)[:80]}", "swap", node, k))
        for fld in ("body", "orelse"):
            b = getattr(node, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and "print(" not in ast.unparse(s):
                        muts.append((f"{q}:{s.lineno} delete {ast.unparse(s)[:80]}", "del", (b, k), None))
random.Random(int(seed)).shuffle(muts)
print(f"{len(muts)} mutants, running {min(n, len(muts))}", flush=True)
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
repo = os.path.join(d, "repo")
subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
env = dict(os.environ, VERIF_REPO=repo, VERIF_FAILFAST="1", VERIF_EVIDENCE=os.path.join(d, "evidence"))
caught = surv = 0
for desc, kind, node, extra in muts[:n]:
    undo = apply(kind, node, extra)
    try:
        text = ast.unparse(ast.fix_missing_locations(tree))
    finally:
        undo()
    open(os.path.join(repo, path), "w").write(text)
    hit = None
    for p in props:
        t = time.time()
        try:
            r = subprocess.run(["python3-vt", "-B", "-W", "ignore", f"{V}/checks/{p}.py", "quick"], env=env, capture_output=True, text=True, timeout=600, cwd=V)
            if r.returncode == 1:
                hit = p; break
            if r.returncode != 0:
                hit = f"{p}(exit {r.returncode}: {(r.stderr or r.stdout)[-200:]!r})"; break
        except subprocess.TimeoutExpired:
            hit = f"{p}(timeout)"; break
    if hit and "(" not in hit:
        caught += 1
    elif hit:
        print("BROKEN ", hit, desc, flush=True)
    else:
        surv += 1
        print("SURVIVED", desc, flush=True)
print(f"caught {caught}, survived {surv}")
shutil.rmtree(d, ignore_errors=True)
