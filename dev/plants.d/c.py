plant("bsgen-byte-index", "C08", [("stream/gen.py",
"self.rng[cycle.type(torch.long)%self.len]",
"self.rng[cycle.type(torch.uint8).type(torch.long)%self.len]")],
"a generator whose table is longer than 256 entries, past cycle 255",
"the cycle index is kept in a byte, so only the first 256 numbers of a longer table are ever compared",
r'''
import torch
from UnarySim.stream import RNG, BinGen, BSGen
for width in (8, 9, 10):
    h = {"width": width, "dimr": 1, "rng": "Sobol", "mode": "unipolar"}
    s = {"rtype": torch.float, "stype": torch.float}
    v = torch.tensor([0.3, 0.7, 0.999])
    g = BSGen(BinGen(v, h, s)(), RNG(h, s)(), s)
    ones = sum(g(torch.tensor([c])) for c in range(2 ** width))
    assert torch.equal(ones, (v * 2 ** width).round()), (width, ones)
''')

plant("sobol-few-dims", "C07", [("stream/gen.py",
"torch.quasirandom.SobolEngine(self.dimr).draw(self.seq_len)[:, self.dimr-1]",
"torch.quasirandom.SobolEngine((self.dimr-1) % 16 + 1).draw(self.seq_len)[:, (self.dimr-1) % 16]")],
"a Sobol dimension above 16",
"higher dimensions repeat the tables of the first sixteen, so streams meant to be uncorrelated coincide",
r'''
import torch
from UnarySim.stream import RNG
for d in (1, 8, 16, 17, 23, 40):
    t = RNG({"width": 6, "dimr": d, "rng": "sobol"}, {"rtype": torch.float})()
    w = torch.quasirandom.SobolEngine(d).draw(64)[:, d - 1] * 64
    assert torch.equal(t.data, w.floor()), d
''')

plant("shiftreg-count-type", "C23", [("kernel/shiftreg.py",
"        cnt = torch.sum(self.sr, 0)\n",
"        cnt = torch.sum(self.sr, 0).type(self.stype)\n")],
"an int8 register of 128 or more entries that is full of ones",
"the count is returned in the type of the bits, in which 128 ones wrap around to -128",
r'''
import torch
from UnarySim.kernel import ShiftReg
for n in (8, 127, 128, 200):
    for ty in (torch.float, torch.int8):
        r = ShiftReg({"entry": n}, {"stype": ty})
        for t in range(n + 1):
            _, cnt = r(torch.ones(2, dtype=ty))
        assert cnt.tolist() == [n, n], (n, ty, cnt)
''')

plant("sync-element-count", "C19", [("stream/shuffle.py",
"if list(self.cnt.size()) != list(sum_in.size()):",
"if self.cnt.numel() != sum_in.numel():")],
"streams that are fed in another shape of as many elements, e.g. (2, 3) after (3, 2)",
"the buffer keeps the previous shape: the outputs are broadcast or the call fails",
r'''
import torch
from UnarySim.stream import SkewedSync
u = SkewedSync({"depth": 2}, {"btype": torch.float, "stype": torch.float})
torch.manual_seed(0)
for shape in ((2, 3), (3, 2), (6,), (6, 1), (1, 6), (2,), (1, 2)):
    a, b = torch.randint(0, 2, shape).float(), torch.randint(0, 2, shape).float()
    o, p = u(a, b)
    # an empty buffer: a lone one of the first stream is stored, nothing can be emitted
    assert o.shape == a.shape and torch.equal(p, b), shape
    assert torch.equal(o, a * b), shape
''')

plant("add-count-type", "C10", [("kernel/add.py",
"acc_delta = torch.sum(input.type(self.btype), self.dima) - self.offset",
"acc_delta = torch.sum(input.type(self.stype), self.dima, dtype=self.stype).type(self.btype) - self.offset")],
"int8 streams and a group of 128 or more inputs, most of them one",
"the parallel count is formed in the stream type and wraps around",
r'''
import torch
from UnarySim.kernel import FSUAdd
for ty in (torch.float, torch.int8):
    for n in (4, 100, 127, 128, 200):
        u = FSUAdd({"mode": "unipolar", "scale": n, "dima": 0, "depth": 12, "entry": n}, {"btype": torch.float, "stype": ty})
        got = [int(u(torch.ones(n, 1, dtype=ty))) for _ in range(3)]
        assert got == [1, 1, 1], (ty, n, got)
''')

plant("signabs-acc-type", "C24", [("kernel/signabs.py",
"sign = torch.lt(self.acc, self.buf_half)",
"sign = torch.lt(self.acc.type(self.stype), self.buf_half)")],
"int8 streams and a counter deeper than seven bits",
"the counter is compared in the stream type, in which values from 128 turn negative",
r'''
import torch
from UnarySim.kernel import FSUSignAbs
for depth in (3, 6, 7, 8, 9):
    for ty in (torch.float, torch.int8):
        u = FSUSignAbs({"depth": depth}, {"btype": torch.float, "stype": ty})
        acc, half = 2 ** (depth - 1), 2 ** (depth - 1)
        for t in range(40):
            b = 0 if t < 5 else 1
            acc = min(max(acc + 2 * b - 1, 0), 2 ** depth - 1)
            s, o = u(torch.tensor([b], dtype=ty))
            assert int(s) == int(acc < half) and int(o) == (b ^ int(acc < half)), (depth, ty, t)
''')

plant("linear-bias-byte", "C11", [("kernel/linear.py",
"self.brdx = torch.nn.Parameter(torch.zeros_like(self.bias, dtype=torch.long), requires_grad=False)",
"self.brdx = torch.nn.Parameter(torch.zeros_like(self.bias, dtype=torch.uint8), requires_grad=False)")],
"a layer of width above 8 with bias, past cycle 255",
"the index of the bias generator wraps at 256, so the upper part of a longer table is never used for the bias",
r'''
import torch
from UnarySim.kernel import FSULinearPC
for width in (8, 9, 10):
    N = 2 ** width
    u = FSULinearPC(1, 1, bias=True, weight_ext=torch.zeros(1, 1), bias_ext=torch.tensor([0.3]),
                    hwcfg={"width": width, "mode": "unipolar", "rng": "race", "dimr": 1},
                    swcfg={"btype": torch.float, "rtype": torch.float, "stype": torch.float})
    n = sum(int(u(torch.zeros(1, 1))) for _ in range(N))
    assert n == round(0.3 * N), (width, n)
''')

plant("mul-byte-index", "C09", [("kernel/mul.py",
"            self.rng_idx.data = self.rng_idx.add(in_0.type(torch.long))\n",
"            self.rng_idx.data = self.rng_idx.add(in_0.type(torch.long)).type(torch.uint8).type(torch.long)\n")],
"a static multiplier wider than 8 bits after 256 ones of the first operand",
"the enable index wraps at 256 instead of running through the whole table",
r'''
import torch
from UnarySim.kernel import FSUMul
for width in (8, 9, 10):
    u = FSUMul(torch.tensor([0.3]), {"width": width, "mode": "unipolar", "static": True, "rng": "race", "dimr": 1}, {"rtype": torch.float, "stype": torch.float})
    n = sum(int(u(torch.ones(1))) for _ in range(2 ** width))
    assert n == round(0.3 * 2 ** width), (width, n)
''')

plant("truncnorm-centre", "C27", [("kernel/utils.py",
"torch.logical_or(t < mean - 2*std, t > mean + 2*std)",
"torch.logical_or(t < -mean - 2*std, t > mean + 2*std)")],
"a mean other than zero",
"the lower bound is mirrored, so samples far below the mean are kept",
r'''
import torch
from UnarySim.kernel import truncated_normal
torch.manual_seed(0)
for mean in (0.0, 0.5, 2.0):
    t = truncated_normal(torch.empty(4000), mean=mean, std=0.1)
    assert float((t - mean).abs().max()) <= 0.2 + 1e-5, (mean, float((t - mean).abs().max()))
''')

plant("hub-coding-case", "C18", [("kernel/conv.py",
'        self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])\n',
'        self.wtc = (hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])\n')],
"a weight generator named in upper or mixed case, such as 'TC', in the binary-input convolution",
"the case of the name decides: with temporal input and weight the illegal combination is accepted and the layer cannot be built otherwise",
r'''
import torch
from UnarySim.kernel import HUBConv2d
def make(rngi, rngw):
    return HUBConv2d(1, 1, 2, hwcfg={"widthi": 4, "rngi": rngi, "quantilei": 1, "widthw": 4, "rngw": rngw, "quantilew": 1, "cycle": 8, "rounding": "round", "signmag": True})
for i, w in (("Sobol", "TC"), ("sobol", "tc"), ("Sobol", "Race10")):
    a, b = make(i, w), make(i.lower(), w.lower())
    b.weight.data, b.bias.data = a.weight.data.clone(), a.bias.data.clone()
    x = torch.rand(1, 1, 3, 3)
    assert torch.equal(a(x), b(x)) and torch.equal(a.mapctlee, b.mapctlee), (i, w)
try:
    make("tc", "TC")
except AssertionError:
    pass
else:
    raise SystemExit("temporal coding of both operands accepted")
''')

plant("mgu-no-bias", "C28", [("kernel/rnn.py",
"""        if bias is True:
            assert bias_ext_f.size()[0] == hidden_size, "Incorrect bias_f shape."
            assert bias_ext_n.size()[0] == hidden_size, "Incorrect bias_n shape.\"""",
"""        assert bias_ext_f is None or bias_ext_f.size()[0] == hidden_size, "Incorrect bias_f shape."
        assert (not bias and bias_ext_f is not None) or bias_ext_n.size()[0] == hidden_size, "Incorrect bias_n shape.\"""")],
"a recurrent cell without bias and without bias tensors",
"a cell that needs no bias can no longer be built: its missing bias is asked for its size",
r'''
import torch
from UnarySim.kernel import FSUMGUCell
hw = {"width": 3, "mode": "bipolar", "depth": 8, "depth_ismul": 3, "rng": "Sobol", "dimr": 1}
sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
for bias in (True, False):
    b = torch.zeros(2) if bias else None
    c = FSUMGUCell(1, 2, bias, torch.zeros(2, 3), b, torch.zeros(2, 3), b, torch.zeros(1, 2), hw, sw)
    for _ in range(3):
        o = c(torch.ones(1, 1), torch.zeros(1, 2))
        assert o.shape == (1, 2) and set(o.flatten().tolist()) <= {0.0, 1.0}
''')

plant("cordiv-index-cap", "C21", [("kernel/div.py",
"        self.idx.data = self.idx.add(1)\n",
"        self.idx.data = self.idx.add(1) % 32\n")],
"a quotient history of more than 32 entries",
"only the first 32 random numbers select from the history, so its older or newer part is never read",
r'''
import random, torch
from UnarySim.kernel import CORDIV_kernel
from UnarySim.stream import RNG
random.seed(3)
for entry in (4, 32, 64):
    h = {"entry": entry, "rng": "Sobol", "dimr": 4}
    u = CORDIV_kernel(h, {"stype": torch.float})
    tab = [int(x) for x in RNG({"width": entry.bit_length() - 1, "rng": "Sobol", "dimr": 4}, {"rtype": torch.long})()]
    sr = [k % 2 for k in range(entry)]
    u(torch.ones(1), torch.ones(1))
    sr = sr[1:] + [1]
    for t in range(1, 300):
        y = int(random.random() < 0.5)
        x = y & random.randint(0, 1)
        q = x if y else sr[tab[t % entry]]
        if y:
            sr = sr[1:] + [q]
        got = int(u(torch.tensor([float(x)]), torch.tensor([float(y)])))
        assert got == q, (entry, t)
''')

plant("clipper-plain-module", "C27", [("kernel/utils.py",
"""        # filter the variables to get the ones you want
""",
"""        # filter the variables to get the ones you want
        if not hasattr(module, 'weight'):
            self.frequency = 0
""")],
"a clipper applied to a model in which an activation stands between two layers",
"the layer after the activation is normalised to the full range again instead of being clipped",
r'''
import torch
from UnarySim.kernel import NN_SC_Weight_Clipper
torch.manual_seed(0)
m = torch.nn.Sequential(torch.nn.Linear(3, 3), torch.nn.ReLU(), torch.nn.Linear(3, 2))
c = NN_SC_Weight_Clipper(frequency=2, mode="bipolar", bitwidth=8)
w = [p.data.clone() for p in m.parameters()]
m.apply(c)
for p, q in zip(m.parameters(), w):
    assert torch.equal(p.data, q.clamp(-1, 1).mul(128).round().clamp(-128, 128).div(128))
''')

plant("hubmgu-period-cap", "C26", [("kernel/rnn.py",
"""        for c in range(2**self.hwcfg["width"]):
            idx""",
"""        for c in range(min(2**self.hwcfg["width"], 2**self.hwcfg["depth_ismul"])):
            idx""")],
"a cell whose streams are wider than its in-stream multiplier",
"the run stops after the period of the multiplier instead of the period of the streams",
r'''
import torch
from UnarySim.kernel import HUBMGUCell, FSUMGUCell
from UnarySim.stream import RNG, BinGen, BSGen
torch.manual_seed(1)
for width, ismul in ((3, 3), (3, 4), (4, 2)):
    hw = {"width": width, "mode": "bipolar", "depth": 8, "depth_ismul": ismul, "rng": "Sobol", "dimr": 1}
    sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
    wf, wn, b = torch.rand(2, 4) * 2 - 1, torch.rand(2, 4) * 2 - 1, torch.rand(2) * 2 - 1
    x, h = torch.rand(1, 2) * 2 - 1, torch.rand(1, 2) * 2 - 1
    got = HUBMGUCell(2, 2, True, wf, b, wn, b, hw)(x, h)
    cell = FSUMGUCell(2, 2, True, wf, b, wn, b, h, hw, sw)
    r = RNG(hw, sw)()
    xi, hi = BSGen(BinGen(x, hw, sw)(), r, sw), BSGen(BinGen(h, hw, sw)(), r, sw)
    n = torch.zeros(1, 2)
    for c in range(2 ** width):
        n += cell(xi(torch.tensor([c])), hi(torch.tensor([c])))
    assert torch.equal(got, n / 2 ** width * 2 - 1), (width, ismul)
''')

plant("soft-mgu-clamp", "C26", [("kernel/rnn.py",
"""            self.fg_sigmoid = nn.Sigmoid()
            self.ng_tanh = nn.Tanh()

        self.weight_f = nn.Parameter(torch.empty((hidden_size, hidden_size + input_size)))
        self.weight_n = nn.Parameter(torch.empty((hidden_size, hidden_size + input_size)))
        if bias:
            self.bias_f = nn.Parameter(torch.empty(hidden_size))
            self.bias_n = nn.Parameter(torch.empty(hidden_size))
        else:
            self.register_parameter('bias_f', None)
            self.register_parameter('bias_n', None)
        self.reset_parameters()

    def reset_parameters(self):
        stdv = 1.0 / math.sqrt(self.hidden_size)
        for weight in self.parameters():
            weight.data = truncated_normal(weight, mean=0, std=stdv)

    def forward(self, input: Tensor, hx: Optional[Tensor] = None) -> Tensor:
        if hx is None:
            hx = torch.zeros(input.size()[0], self.hidden_size, dtype=input.dtype, device=input.device)
        
        # forget gate
        self.fg_ug_in = torch.cat((hx, input), 1)
""",
"""            self.fg_sigmoid = nn.Sigmoid()
            self.ng_tanh = nn.Softsign()

        self.weight_f = nn.Parameter(torch.empty((hidden_size, hidden_size + input_size)))
        self.weight_n = nn.Parameter(torch.empty((hidden_size, hidden_size + input_size)))
        if bias:
            self.bias_f = nn.Parameter(torch.empty(hidden_size))
            self.bias_n = nn.Parameter(torch.empty(hidden_size))
        else:
            self.register_parameter('bias_f', None)
            self.register_parameter('bias_n', None)
        self.reset_parameters()

    def reset_parameters(self):
        stdv = 1.0 / math.sqrt(self.hidden_size)
        for weight in self.parameters():
            weight.data = truncated_normal(weight, mean=0, std=stdv)

    def forward(self, input: Tensor, hx: Optional[Tensor] = None) -> Tensor:
        if hx is None:
            hx = torch.zeros(input.size()[0], self.hidden_size, dtype=input.dtype, device=input.device)
        
        # forget gate
        self.fg_ug_in = torch.cat((hx, input), 1)
""")],
"the reference cell built with hard=False",
"the candidate state of the soft cell is squashed by softsign instead of tanh",
r'''
import torch
from UnarySim.kernel import HardMGUCell
torch.manual_seed(0)
for hard in (True, False):
    c = HardMGUCell(2, 3, True, hard)
    x, h = torch.rand(2, 2) * 2 - 1, torch.rand(2, 3) * 2 - 1
    f = (torch.cat((h, x), 1) @ c.weight_f.t() + c.bias_f).clamp(-1, 1)
    f = (f + 1) / 2 if hard else torch.sigmoid(f)
    g = torch.cat((f * h, x), 1) @ c.weight_n.t() + c.bias_n
    g = g.clamp(-1, 1) if hard else torch.tanh(g)
    assert torch.allclose(c(x, h), (g - f * g + f * h).clamp(-1, 1), atol=1e-6), hard
''')

plant("conv-runtime-scale", "C12", [("kernel/conv.py",
"output = self.ACC(pc.unsqueeze(0), scale, entry)",
"output = self.ACC(pc.unsqueeze(0), scale, entry if scale is None else None)")],
"a bipolar convolution called with both a run-time scale and a run-time entry count",
"the run-time entry count is ignored when a scale is given too, so the offset of the bipolar sum is wrong",
r'''
import torch
from UnarySim.kernel import FSUConv2d, FSUConv2dPC
torch.manual_seed(0)
hw = {"width": 3, "mode": "bipolar", "scale": None, "depth": 8, "rng": "Sobol", "dimr": 1}
sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
w = torch.rand(1, 1, 2, 2) * 2 - 1
for scale, entry in ((None, None), (2, None), (None, 6), (2, 6)):
    u = FSUConv2d(1, 1, 2, bias=False, weight_ext=w, hwcfg=hw, swcfg=sw)
    p = FSUConv2dPC(1, 1, 2, bias=False, weight_ext=w, hwcfg=hw, swcfg=sw)
    e, s = entry or 4, scale or 4
    acc = torch.zeros(1, 1, 1, 1)
    for t in range(12):
        x = torch.randint(0, 2, (1, 1, 2, 2)).float()
        acc = (acc + p(x) - (e - s) / 2).clamp(-64, 64)
        o = (acc >= s).float()
        acc = (acc - o * s).clamp(-64, 64)
        assert torch.equal(u(x, scale, entry), o), (scale, entry, t)
''')
