"""Development only: validates the torch model.  Runs snippets both on real torch
and in the abstract interpreter and compares.  Never used by a check.
run: PYTHONPATH=/opt/pypath:/verif PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python /verif/dev/diffrun.py"""
import sys, ast, traceback, os, math, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))))
import torch as RT
import usa.interp as I, usa.tensor as TT, usa.terms as T
import snippets

def real(src):
    g = {"OUT": []}
    try:
        exec(compile(src, "<snip>", "exec"), g)
    except Exception as e:
        g["OUT"].append(("EXC", type(e).__name__, str(e)[:100]))
    return g["OUT"]

def absr(src):
    it = I.Interp()
    m = I.Mod("snip", "/repo/snip.py")
    it.mods["snip"] = m
    m.g["OUT"] = I.ListV()
    try:
        for st in ast.parse(src).body:
            it.exec_stmt(st, None, m)
    except TT.AbsRaise as e:
        m.g["OUT"].append(("EXC", e.etype, str(e.msg)[:100]))
    except TT.Unmodelled as e:
        m.g["OUT"].append(("UNMODELLED", str(e)))
    except Exception as e:
        traceback.print_exc()
        m.g["OUT"].append(("CRASH", str(e)))
    return m.g["OUT"], it

def cv(p):
    try:
        return float(T.evaluate(p, {}, {}))
    except Exception as e:
        return "?" + T.show(p)[:40]

def canon_real(x):
    if isinstance(x, RT.Tensor):
        return ("T", list(x.shape), str(x.dtype).replace("torch.", ""), [float(v) for v in x.detach().reshape(-1).tolist()])
    if isinstance(x, (list, tuple)):
        return [canon_real(v) for v in x]
    if isinstance(x, dict):
        return sorted((str(k), canon_real(v)) for k, v in x.items())
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, RT.dtype): return str(x).replace("torch.", "")
    return str(x)

def canon_abs(x):
    if isinstance(x, TT.Tensor):
        return ("T", list(x.shape), x.dtype.name, [cv(p) for p in x.get()])
    if isinstance(x, (list, tuple)):
        return [canon_abs(v) for v in x]
    if isinstance(x, dict):
        return sorted((str(k), canon_abs(v)) for k, v in x.items())
    if isinstance(x, TT.Sym): return cv(x.p)
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, TT.DType): return x.name
    if x.__class__.__name__ == "Fraction": return float(x)
    return str(x)

def same(a, b):
    if isinstance(a, tuple) and a and a[0] == "EXC" and isinstance(b, tuple): return b and b[0] == "EXC" and a[1] == b[1]
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-5 * max(1, abs(a)) or (math.isnan(a) and math.isnan(b))
    return a == b

def main():
    bad = 0; n = 0
    sel = sys.argv[1:]
    for name, src in snippets.all():
        if sel and not any(s in name for s in sel): continue
        n += 1
        r = [canon_real(x) if not (isinstance(x, tuple) and x[:1] == ("EXC",)) else x for x in real(src)]
        a0, it = absr(src)
        a = [canon_abs(x) if not (isinstance(x, tuple) and x and x[0] in ("EXC", "UNMODELLED", "CRASH")) else x for x in a0]
        if not same(r, a):
            bad += 1
            print("DIFF", name)
            if len(r) != len(a): print("   lengths", len(r), len(a), r[-1], a[-1])
            for i, (x, y) in enumerate(zip(r, a)):
                if not same(x, y):
                    print("   #%d\n     real %s\n     abs  %s" % (i, str(x)[:300], str(y)[:300]))
                    if sel == []: break
    print(n, "snippets", bad, "differ")
if "@none" not in sys.argv: main()
