"""mutation campaign (dev only): python3 dev/mutate.py OUTDIR [file ...]"""
import ast, os, sys, json, random, shutil, subprocess, time

MAP = {
    "kernel/add.py": ["C10", "C28"], "kernel/sigmoid.py": ["C10", "C24", "C28", "C18"], "kernel/mul.py": ["C09", "C18"], "kernel/linear.py": ["C11", "C25", "C14", "C18", "C03"], "kernel/conv.py": ["C12", "C25", "C14", "C18"],
    "kernel/div.py": ["C21", "C18"], "kernel/sqrt.py": ["C22", "C18"], "kernel/jkff.py": ["C23", "C05"], "kernel/shiftreg.py": ["C23", "C05", "C18"], "kernel/signabs.py": ["C24", "C18"], "kernel/relu.py": ["C24", "C18", "C28"], "kernel/tanh.py": ["C24"],
    "kernel/rnn.py": ["C26", "C18", "C28"], "kernel/utils.py": ["C17", "C27", "C15", "C14", "C25"], "stream/gen.py": ["C07", "C08", "C27", "C18"], "stream/shuffle.py": ["C19", "C20", "C18"], "metric/metric.py": ["C15", "C16", "C18"],
}
CMP = {"Gt": "GtE", "GtE": "Gt", "Lt": "LtE", "LtE": "Lt", "Eq": "NotEq", "NotEq": "Eq", "In": "NotIn", "NotIn": "In", "Is": "IsNot", "IsNot": "Is"}
BIN = {"Add": "Sub", "Sub": "Add", "Mult": "Add", "Div": "Mult", "FloorDiv": "Mult", "Mod": "Mult", "Pow": "Mult"}
FN = {"gt": "ge", "ge": "gt", "lt": "le", "le": "lt", "eq": "ne", "ne": "eq", "floor": "ceil", "ceil": "floor", "round": "floor", "min": "max", "max": "min", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like", "clamp": None,
      "add": "sub", "sub": "add", "add_": "sub_", "sub_": "add_", "mul": "add", "logical_and": "logical_or", "logical_or": "logical_and", "abs": None, "sign": None, "cumsum": None, "t": None}


def mutants(src):
    tree = ast.parse(src)
    out = []
    nodes = []

    def walk(n, fn, top):
        for c in ast.iter_child_nodes(n):
            f = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + "." if fn else "") + c.name
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
                continue
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                continue
            nodes.append((c, f))
            walk(c, f, top)
    walk(tree, "", True)
    lines = src.splitlines(True)
    off = [0]
    bs = src.encode()
    for l in src.encode().splitlines(True):
        off.append(off[-1] + len(l))

    def rng(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, what, fn):
        a, b = rng(n)
        t = bs[:a] + new.encode() + bs[b:]
        try:
            ast.parse(t.decode())
        except SyntaxError:
            return
        out.append((what + " line %d in %s: %s -> %s" % (n.lineno, fn, bs[a:b].decode()[:60], new[:60]), t.decode()))
    for n, fn in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0]).__name__
            if o in CMP:
                m = ast.parse(ast.unparse(n), mode="eval").body
                m.ops = [getattr(ast, CMP[o])()]
                rep(n, ast.unparse(m), "cmp", fn)
        elif isinstance(n, ast.BinOp):
            o = type(n.op).__name__
            if o in BIN:
                m = ast.parse(ast.unparse(n), mode="eval").body
                m.op = getattr(ast, BIN[o])()
                rep(n, "(" + ast.unparse(m) + ")", "bin", fn)
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), "bool", fn)
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const", fn)
                if n.value > 0:
                    rep(n, str(n.value - 1), "const", fn)
            elif isinstance(n.value, float):
                rep(n, str(n.value + 0.25), "const", fn)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if a in FN and FN[a]:
                m = ast.parse(ast.unparse(n), mode="eval").body
                m.func.attr = FN[a]
                rep(n, ast.unparse(m), "fn", fn)
            if a in ("clone", "detach", "type", "abs", "sign", "t", "lower", "clamp", "round", "unsqueeze", "contiguous", "trunc", "clamp_"):
                base = n.func.value
                if isinstance(base, ast.Name) and base.id == "torch" and n.args:
                    rep(n, ast.unparse(n.args[0]), "drop", fn)
                elif not (isinstance(base, ast.Name) and base.id == "torch"):
                    rep(n, ast.unparse(base), "drop", fn)
            if len(n.args) == 2 and isinstance(n.func.value, ast.Name):
                m = ast.parse(ast.unparse(n), mode="eval").body
                m.args = m.args[::-1]
                rep(n, ast.unparse(m), "swap", fn)
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "(not (%s))" % ast.unparse(n.test), "neg", fn)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, ast.unparse(n.operand), "neg", fn)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "__init__" not in ast.unparse(n)[:60]:
            rep(n, "pass", "del", fn)
        elif isinstance(n, ast.Assert):
            rep(n, "pass", "assert", fn)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and "hwcfg" in ast.unparse(n.value):
            pass
    return out


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or list(MAP)
    os.makedirs(out, exist_ok=True)
    root = os.path.join(out, "root")
    for f in files:
        src = open("/repo/" + f, newline="").read()
        ms = mutants(src)
        seen = set()
        log = open(os.path.join(out, f.replace("/", "_") + ".log"), "w")
        cap = int(os.environ.get("MUT_CAP", "0"))
        if cap and len(ms) > cap:
            ms = random.Random(3).sample(ms, cap)
        for k, (what, text) in enumerate(ms):
            if text in seen:
                continue
            seen.add(text)
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            for d in ("kernel", "stream", "metric"):
                shutil.copytree("/repo/" + d, os.path.join(root, d), ignore=shutil.ignore_patterns("*test*", "__pycache__", "*.png"))
            if os.path.exists("/repo/__init__.py"):
                shutil.copy("/repo/__init__.py", root)
            open(os.path.join(root, f), "w", newline="").write(text)
            res = "SURVIVED"
            det = ""
            for p in MAP[f]:
                r = subprocess.run([sys.executable, "/verif/check.py", p, "quick"], env=dict(os.environ, USA_ROOT=root, USA_FAST="1"), capture_output=True, text=True)
                if r.returncode == 1:
                    res = "KILLED"
                    det = p
                    break
                if r.returncode != 0:
                    res = "BROKEN"
                    det += " %s rc=%d %s" % (p, r.returncode, (r.stdout + r.stderr)[-200:].replace("\n", " "))
                    break
                h = r.stdout.splitlines()[0]
                u = int(h.split(" undecided")[0].split()[-1])
                if u:
                    det += " %s:undecided=%d[%s]" % (p, u, next((l for l in r.stdout.splitlines() if l.startswith("undecided")), "")[:200])
            log.write("%s %s %s | %s\n" % (res, k, what, det))
            log.flush()
        shutil.rmtree(root, ignore_errors=True)


main()
