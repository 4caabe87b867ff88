import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtl
random.seed(0)

def cell(file, name, **par):
    d = rtl.Design(os.getcwd(), file, name, par)
    st = d.start()
    ports = [(n, w) for n, w in d.inputs_of() if n not in ("clk", "rst_n")]
    def step(**i):
        nonlocal st
        v = {n: (i[n], 0) for n, w in ports}
        v.update(clk=(0, 1), rst_n=(1, 0))
        o = d.outputs(st, v)
        st = d.next(st, v)
        assert all(x[1] == 0 for x in o.values())
        return {k: x[0] for k, x in o.items()}
    return step

for dep in (1, 2, 3):
    for trial in range(40):
        s, c = cell("hw/stream/shuffle/SkewedSync.sv", "SkewedSync", DEP=dep), 0
        m = 2 ** dep - 1
        for t in range(60):
            p = (0.8, 0.2)[t // 15 % 2]
            a, b = int(random.random() < p), int(random.random() < 1 - p)
            want = a if a == b else (int(c == m) if a else int(c > 0))
            o = s(in0=a, in1=b)
            assert (o["out0"], o["out1"]) == (want, b), (dep, trial, t)
            if a != b:
                c = min(max(c + (1 if a else -1), 0), m)
