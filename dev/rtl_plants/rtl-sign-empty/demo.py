import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtl
random.seed(0)

def cell(file, name, **par):
    d = rtl.Design(os.getcwd(), file, name, par)
    st = d.start()
    ports = [(n, w) for n, w in d.inputs_of() if n not in ("clk", "rst_n")]
    def step(**i):
        nonlocal st
        v = {n: (i[n], 0) for n, w in ports}
        v.update(clk=(0, 1), rst_n=(1, 0))
        o = d.outputs(st, v)
        st = d.next(st, v)
        assert all(x[1] == 0 for x in o.values())
        return {k: x[0] for k, x in o.items()}
    return step

for dep in (2, 3, 4):
    for trial in range(40):
        s, c = cell("hw/kernel/sign/Sign.sv", "Sign", DEP=dep), 2 ** (dep - 1)
        p = random.random()
        for t in range(60):
            if t % 20 == 0:
                p = random.random()
            b = int(random.random() < p)
            assert s(value=b)["sign"] == int(c < 2 ** (dep - 1)), (dep, trial, t)
            c = min(max(c + 2 * b - 1, 0), 2 ** dep - 1)
