"""Development only: one-line expressions a maintainer could write, run on real torch and in the model.
Classes: DIFF (values differ), RAISE (the model raises where torch does not: would be a false alarm),
MISS (torch raises, the model does not), GAP (not modelled: undecided).
run: PYTHONPATH=/opt/pypath:/verif MPLBACKEND=Agg /opt/venv/bin/python dev/opdiff.py [filter]"""
import sys, collections
_H = __import__("os").path.dirname(__import__("os").path.abspath(__file__))
sys.path.insert(0, _H); sys.path.insert(0, __import__("os").path.dirname(_H))
sys.argv = sys.argv[:1] + ["@none"] + sys.argv[1:]
import diffrun as D
PRE = """
import torch, math, numpy as np
import torch.nn as nn
import torch.nn.functional as F
from functools import reduce
import functools, itertools, operator, collections, copy, warnings, re, random
a=torch.tensor([[1.,-2.,0.],[0.5,3.,-1.5]])
b=torch.tensor([[0.,1.,2.],[1.,0.,-1.]])
i=torch.tensor([[1,-2,0],[5,3,7]])
j=torch.tensor([[0,1,2],[1,0,1]])
k=torch.tensor([1,0,1,1],dtype=torch.int8)
u=torch.tensor([1,0,3,1],dtype=torch.uint8)
m=torch.tensor([[True,False,True],[False,True,True]])
v=torch.tensor([0.25,0.5,-1.])
s=torch.tensor(2.)
z=torch.tensor([3])
l4=torch.arange(24).type(torch.float).view(1,2,3,4)
p=nn.Parameter(torch.tensor([0.5,-0.25]),requires_grad=False)
"""
EX = open(_H + "/opexprs.txt").read().split("\n")

def main():
    cnt = collections.Counter()
    for e in EX:
        e = e.strip()
        if not e or e.startswith("#"): continue
        if sys.argv[2:] and not any(s in e for s in sys.argv[2:]): continue
        parts = e.split(";;")
        src = PRE + "\n".join(x.strip().replace("\\n", "\n") for x in parts[:-1]) + "\nOUT.append(" + parts[-1].strip() + ")\n"
        try: r = [x if isinstance(x, tuple) and x[:1] == ("EXC",) else D.canon_real(x) for x in D.real(src)]
        except Exception as ex: r = ["??", str(ex)]
        a0, it = D.absr(src)
        try: ab = [x if isinstance(x, tuple) and x and x[0] in ("EXC", "UNMODELLED", "CRASH") else D.canon_abs(x) for x in a0]
        except Exception as ex: ab = [("CRASH", str(ex))]
        ra, aa = r[-1] if r else None, ab[-1] if ab else None
        rx = isinstance(ra, tuple) and ra[:1] == ("EXC",)
        ax = isinstance(aa, tuple) and aa[:1] == ("EXC",)
        if isinstance(aa, tuple) and aa[:1] in (("UNMODELLED",), ("CRASH",)):
            c = "GAP" if aa[0] == "UNMODELLED" else "CRASH"
            if rx: c = "ok"
        elif ax and not rx: c = "RAISE"
        elif rx and not ax: c = "MISS"
        elif D.same(r, ab): c = "ok"
        else: c = "DIFF"
        cnt[c] += 1
        if c != "ok": print(c.ljust(6), e[:90].ljust(60), "| real", str(ra)[:110], "| abs", str(aa)[:130])
    print(dict(cnt))
main()
