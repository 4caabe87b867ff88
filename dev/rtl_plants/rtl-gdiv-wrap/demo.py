import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtl
random.seed(0)

def cell(file, name, **par):
    d = rtl.Design(os.getcwd(), file, name, par)
    st = d.start()
    ports = [(n, w) for n, w in d.inputs_of() if n not in ("clk", "rst_n")]
    def step(**i):
        nonlocal st
        v = {n: (i[n], 0) for n, w in ports}
        v.update(clk=(0, 1), rst_n=(1, 0))
        o = d.outputs(st, v)
        st = d.next(st, v)
        assert all(x[1] == 0 for x in o.values())
        return {k: x[0] for k, x in o.items()}
    return step

for dep in (2, 3, 4):
    for trial in range(30):
        s, c, dd = cell("hw/kernel/div/GDIV_B.sv", "GDIV_B", DEP=dep), 2 ** (dep - 1), 0
        m = 2 ** dep - 1
        for t in range(80):
            p = (0.9, 0.1, 0.5)[t // 20 % 3]
            a, b, r = int(random.random() < p), int(random.random() < 0.9), random.randint(0, m)
            q = int(c > r)
            assert s(dividend=a, divisor=b, randNum=r)["quotient"] == q, (dep, trial, t)
            x0, x1 = 1 - (b ^ dd), 1 - (b ^ a)
            x2 = 1 - (x0 ^ (1 - q))
            c = min(max(c + (x1 & x2) - ((1 - x1) & (1 - x2)), 0), m)
            dd = b
