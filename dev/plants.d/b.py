plant("add-runtime-entry", "C10", [("kernel/add.py",
"            if entry is not None:\n                # runtime entry",
"            if (entry is not None) and (self.entry is None):\n                # runtime entry")],
"a bipolar adder configured with an entry count that is overridden at run time",
"the run-time entry count no longer overrides the configured one, so the bipolar offset is that of another adder",
r'''
import itertools, torch
from UnarySim.kernel import FSUAdd

def model(hist, depth, scale, entry):
    lo, hi = -2 ** (depth - 2), 2 ** (depth - 2)
    acc, out, off = 0, [], (entry - scale) / 2
    for s in hist:
        acc = min(max(acc + s - off, lo), hi)
        o = 1 if acc >= scale else 0
        acc = min(max(acc - o * scale, lo), hi)
        out.append(o)
    return out

for entry in (3, 5, 7):
    for hist in itertools.product(range(4), repeat=5):
        u = FSUAdd({"mode": "bipolar", "scale": 1, "dima": 0, "depth": 8, "entry": 4}, {"btype": torch.float, "stype": torch.float})
        got = [int(u(torch.tensor([[1.0]] * s + [[0.0]] * (3 - s)), entry=entry)) for s in hist]
        assert got == model(hist, 8, 1, entry), (entry, hist)
''')

plant("mul-inv-period", "C09", [("kernel/mul.py",
"self.rng_idx_inv.data = self.rng_idx_inv.add(1 - in_0.type(torch.long)) % self.entry",
"self.rng_idx_inv.data = self.rng_idx_inv.add(1 - in_0.type(torch.long)) % (self.entry - 1)")],
"an in-stream bipolar product whose first operand has held more zeros than the table is long",
"the table index for zeros wraps one entry early",
r'''
import random, torch
from UnarySim.kernel import FSUMul
from UnarySim.stream import RNG
random.seed(1)
W = 2
h = {"width": W, "mode": "bipolar", "static": False, "rng": "Sobol", "dimr": 1}
sw = {"rtype": torch.float, "stype": torch.float}
tab = [int(x) for x in RNG(h, sw)()]
N = 2 ** W
for trial in range(30):
    u = FSUMul(hwcfg=h, swcfg=sw)
    sr, i1, i0 = [k % 2 for k in range(N)], 0, 0
    for t in range(40):
        a, b = int(random.random() < 0.3), random.randint(0, 1)
        c = sum(sr)
        want = int(c > tab[i1]) if a else int(not c > tab[i0])
        i1, i0 = (i1 + a) % N, (i0 + 1 - a) % N
        sr = sr[1:] + [b]
        got = int(u(torch.tensor([float(a)]), torch.tensor([float(b)])))
        assert got == want, (trial, t)
''')

plant("shiftreg-odd-fill", "C23", [("kernel/shiftreg.py",
"                self.sr[i].fill_(i%2)",
"                self.sr[i].fill_((i + self.entry)%2)")],
"a register with an odd number of elements",
"registers of odd length start with the opposite pattern, and with one bit too many",
r'''
import torch
from UnarySim.kernel import ShiftReg
for n in range(1, 9):
    u = ShiftReg({"entry": n}, {"stype": torch.float})
    sr = [k % 2 for k in range(n)]
    for t in range(2 * n + 2):
        o, c = u(torch.tensor([[1.0, 0.0]]), index=t % n)
        want = (sr[t % n], sum(sr))
        assert float(o[0, 0]) == want[0] and float(c[0, 0]) == want[1], (n, t)
        sr = sr[1:] + [1]
''')

plant("hubmgu-keep-cell", "C26", [("kernel/rnn.py",
"        rnncell = FSUMGUCell(self.input_size,",
"        rnncell = self.__dict__.get(\"rnncell\")\n        if rnncell is None or rnncell.fg_hx_mul.in_1_prob is not hx:\n            rnncell = FSUMGUCell(self.input_size,"),
("kernel/rnn.py",
"                        hwcfg=self.hwcfg, swcfg=self.swcfg).to(input.device)\n        \n        iSource",
"                        hwcfg=self.hwcfg, swcfg=self.swcfg).to(input.device)\n        self.__dict__[\"rnncell\"] = rnncell\n        \n        iSource")],
"two consecutive steps with the very same hidden state tensor",
"the unary cell of the previous step is used again with everything left in its accumulators",
r'''
import torch
from UnarySim.kernel import HUBMGUCell
torch.manual_seed(3)
h = {"width": 3, "mode": "bipolar", "depth": 10, "depth_ismul": 3, "rng": "Sobol", "dimr": 1}
I, H = 2, 2
w = lambda *s: torch.rand(*s) * 2 - 1
for trial in range(6):
    args = dict(weight_ext_f=w(H, H + I), bias_ext_f=w(H), weight_ext_n=w(H, H + I), bias_ext_n=w(H))
    hx = w(1, H)
    xs = [w(1, I) for _ in range(3)]
    u = HUBMGUCell(I, H, True, hwcfg=h, **args)
    for x in xs:
        a = u(x, hx)
        b = HUBMGUCell(I, H, True, hwcfg=h, **args)(x, hx)
        assert torch.equal(a, b), (a, b)
''')

plant("mgu-output-depth", "C26", [("kernel/rnn.py",
'''            "scale" : 1,
            "dima" : 0,
            "depth" : self.hwcfg["depth"],
            "entry" : 3''',
'''            "scale" : 1,
            "dima" : 0,
            "depth" : self.hwcfg["depth_ismul"],
            "entry" : 3''')],
"a stretch of cycles that fills the accumulator of the output adder",
"the output adder has the depth of the multiplier and saturates early",
r'''
import torch
from UnarySim.kernel import FSUMGUCell, FSUAdd
torch.manual_seed(5)
I, H = 1, 1
w = lambda *s: torch.rand(*s) * 2 - 1
for trial in range(12):
    h = {"width": 4, "mode": "bipolar", "depth": 10, "depth_ismul": 3, "rng": "Sobol", "dimr": 1}
    sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
    u = FSUMGUCell(I, H, True, w(H, H + I), w(H), w(H, H + I), w(H), hx_buffer=w(1, H), hwcfg=h, swcfg=sw)
    ref = 0.0
    for t in range(60):
        bit = float(trial % 2) if t < 30 else float((t + trial) % 2)
        out = u(torch.full((1, I), bit), torch.full((1, H), bit))
        ref += float(u.ng) + 1 - float(u.fg_ng) + float(u.fg_hx) - 1
        ref = min(max(ref, -256), 256)
        o = 1.0 if ref >= 1 else 0.0
        ref -= o
        assert float(out) == o, (trial, t)
''')

plant("stability-in-place", "C05", [("metric/metric.py",
"        self.stability = 1 - self.cycle_to_stable.clamp(1, self.cycle.item()).div(self.cycle)\n",
"        self.stability.copy_(1 - self.cycle_to_stable.clamp(1, self.cycle.item()).div(self.cycle))\n")],
"a stability value kept over later cycles",
"the stability metric hands out its own buffer, which later reports overwrite",
r'''
import torch
from UnarySim.metric import Stability
from UnarySim.metric.metric import Stability
''' .replace("from UnarySim.metric import Stability\n", "") + r'''
s = Stability(torch.tensor([0.5, -0.25]), {"scale": 1, "mode": "bipolar", "threshold": 0.1})
kept = []
for t in range(12):
    s.Monitor(torch.tensor([float(t % 4 != 0), float(t % 3 == 0)]))
    v = s()
    kept.append((v, v.clone()))
for v, c in kept:
    assert torch.equal(v, c)
''')

plant("lfsr-decimate", "C07", [("stream/gen.py",
"        L.next()\n",
"        for _ in range(3):\n            L.next()\n")],
"an even width, for which three divides the period of the register",
"the register is stepped three times per entry, which visits only a third of its states at even widths",
r'''
import torch
from UnarySim.stream import RNG
for w in range(3, 9):
    for k in range(3):
        t = RNG({"width": w, "dimr": 1, "rng": "lfsr"}, {"rtype": torch.float})()
        assert len(set(t.tolist())) == 2 ** w - 1, w
''')

plant("linear-tc-index", "C11", [("kernel/linear.py",
"torch.add(self.wrdx_i1, torch.ones_like(input).unsqueeze(1).type(torch.long), out=self.wrdx_i1)",
"torch.add(self.wrdx_i1, torch.ones_like(input).unsqueeze(1).type(torch.long), out=self.wrdx_i1).remainder_(self.brng.size()[0] if self.has_bias else self.wrng.size()[0] - 1)")],
"a temporal-coded weight without bias, after the table has been read once",
"without bias the weight index wraps one entry too early",
r'''
import torch
from UnarySim.kernel.linear import FSULinearPC
from UnarySim.stream import RNG, BinGen
torch.manual_seed(0)
sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
for mode in ("unipolar", "bipolar"):
    for bias in (True, False):
        for rng in ("race", "tc10"):
            h = {"width": 3, "mode": mode, "rng": rng, "dimr": 1}
            w = torch.rand(2, 3); b = torch.rand(2)
            u = FSULinearPC(3, 2, bias, w, b if bias else None, h, sw)
            tab = RNG(h, sw)(); W = BinGen(w, h, sw)(); B = BinGen(b, h, sw)()
            for t in range(30):
                x = torch.randint(0, 2, (2, 3)).float()
                wb = (W > tab[t % 8]).float()
                want = x @ wb.t()
                if mode == "bipolar":
                    want = want + (1 - x) @ (1 - wb).t()
                if bias:
                    want = want + (B > tab[t % 8]).float()
                assert torch.equal(u(x), want), (mode, bias, rng, t)
''')

plant("conv-odd-pad-order", "C12", [("kernel/conv.py",
"        self.padding_1 = torch.nn.ConstantPad2d((padding_w, padding_w, padding_h, padding_h), 1)",
"        self.padding_1 = torch.nn.ConstantPad2d((padding_h, padding_h, padding_w, padding_w), 1)")],
"a bipolar convolution with different paddings in the two directions, on every second cycle",
"on odd cycles rows are padded by the column padding and the other way round",
r'''
import torch
from UnarySim.kernel.conv import FSUConv2dPC
from UnarySim.kernel.linear import FSULinearPC
torch.manual_seed(0)
sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
h = {"width": 3, "mode": "bipolar", "rng": "Sobol", "dimr": 1}
for pad in (0, 1, (1, 0), (0, 1), (1, 2)):
    w = torch.rand(2, 1, 1, 1) * 2 - 1
    b = torch.rand(2)
    ph, pw = pad if isinstance(pad, tuple) else (pad, pad)
    u = FSUConv2dPC(1, 2, 1, padding=pad, weight_ext=w, bias_ext=b, hwcfg=h, swcfg=sw)
    l = FSULinearPC(1, 2, True, w.view(2, 1), b, h, sw)
    for t in range(8):
        x = torch.randint(0, 2, (1, 1, 3, 3)).float()
        xp = torch.full((1, 1, 3 + 2 * ph, 3 + 2 * pw), float(t % 2))
        xp[:, :, ph:ph + 3, pw:pw + 3] = x
        want = l(xp.reshape(-1, 1)).t().reshape(1, 2, 3 + 2 * ph, 3 + 2 * pw)
        got = u(x)
        assert got.shape == want.shape and torch.equal(got, want), (pad, t)
''')

plant("tlut-grad-quantised", "C14", [("kernel/linear.py",
"""        ctx.save_for_backward(input, weight, bias)

        input_fp32 = input.detach().clone().to(torch.float)
        weight_fp32 = weight.detach().clone().to(torch.float)
        
        input_new""",
"""        input_fp32 = input.detach().clone().to(torch.float)
        weight_fp32 = weight.detach().clone().to(torch.float)
        
        input_new"""),
("kernel/linear.py",
"""            input_new = lshift(input_fp32, rshift_i).type(input.type())
            weight_new = lshift(weight_new, delta + widthw + rshift_w).type(input.type())
        
        output""",
"""            input_new = lshift(input_fp32, rshift_i).type(input.type())
            weight_new = lshift(weight_new, delta + widthw + rshift_w).type(input.type())
        
        ctx.save_for_backward(input_new, weight_new, bias)
        output""")],
"operands that the fixed-point format does not represent exactly",
"the gradients are computed from the quantised operands",
r'''
import torch
from UnarySim.kernel import TLUTLinear
torch.manual_seed(0)
for temporal in ("i", "w"):
    h = {"temporal": temporal, "widtht": 2, "formati": "fxp", "widthi": 4, "quantilei": 1, "formatw": "fxp", "widthw": 4, "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True}
    u = TLUTLinear(3, 2, True, hwcfg=h)
    x = torch.randn(4, 3, requires_grad=True)
    g = torch.randn(4, 2)
    u(x).backward(g)
    assert torch.allclose(x.grad, g @ u.weight.detach())
    assert torch.allclose(u.weight.grad, g.t() @ x.detach())
    assert torch.allclose(u.bias.grad, g.sum(0))
''')

plant("transp-dilation-width", "C17", [("kernel/utils.py",
"w = (h_w[1] - 1)*stride[1] - sum(pad[1]) + dilation[1]*(kernel_size[1]-1) + out_pad[1] + 1",
"w = (h_w[1] - 1)*stride[1] - sum(pad[1]) + dilation[0]*(kernel_size[1]-1) + out_pad[1] + 1")],
"a transposed convolution with different dilations in the two directions",
"the width of a transposed convolution is computed with the vertical dilation",
r'''
import itertools, torch
from UnarySim.kernel.utils import convtransp2d_output_shape as f
for h, w, kh, kw, s, p, dh, dw, o in itertools.product((3, 5), (4,), (1, 3), (2, 3), (2, 3), (0, 1), (1, 2), (1, 2, 3), (0, 1)):
    c = torch.nn.ConvTranspose2d(1, 1, (kh, kw), s, p, o, dilation=(dh, dw))
    assert tuple(c(torch.zeros(1, 1, h, w)).shape[2:]) == f((h, w), (kh, kw), s, p, (dh, dw), o)
''')

plant("linear-coding-check", "C18", [("kernel/linear.py",
'(hwcfg["scale"] != (in_features + bias)):\n            assert self.hwcfg["rng"].lower() not in ["race", "tc", "race10", "tc10"]',
'(hwcfg["scale"] != (in_features + bias)):\n            assert self.hwcfg["rng"].lower() not in ["race", "tc"]')],
"a non-scaled bipolar layer with descending temporal coding",
"the descending temporal generators are no longer refused for non-scaled bipolar addition",
r'''
import torch
from UnarySim.kernel import FSULinear
for rng in ("race", "tc", "race10", "tc10", "TC10"):
    for scale in (1, 2):
        try:
            FSULinear(3, 2, True, torch.zeros(2, 3), torch.zeros(2), {"width": 4, "mode": "Bipolar", "scale": scale, "depth": 8, "rng": rng, "dimr": 1})
        except Exception:
            continue
        raise SystemExit("accepted %s with scale %s" % (rng, scale))
''')

plant("shift-quantile-mix", "C25", [("kernel/utils.py",
"upper_bound_w = torch.quantile(weight, quantile_w_upper)",
"upper_bound_w = torch.quantile(weight, quantile_i_upper)")],
"different quantiles for inputs and weights, and a weight whose bulk is asymmetric",
"one bound of the weight range is taken at the quantile of the input",
r'''
import torch
from UnarySim.kernel.utils import rshift_offset
torch.manual_seed(0)
def bits(t, q, r):
    lo, hi = torch.quantile(t, 0.5 + q / 2), torch.quantile(t, 0.5 - q / 2)
    return getattr(torch.max(lo.abs(), hi.abs()).log2(), r)()
for trial in range(300):
    x, w = torch.randn(4, 5), torch.randn(3, 5) * 2 - trial % 3
    for qi, qw in ((1, 1), (1, 0.5), (0.5, 1), (0.3, 0.9)):
        for r in ("round", "floor", "ceil"):
            a, b, c = rshift_offset(x, w, 7, 5, r, qi, qw)
            i, k = bits(x, qi, r), bits(w, qw, r)
            assert (float(a), float(b), float(c)) == (float(i - 7), float(k - 5), float(7 - i - k))
''')

plant("tlut-weight-width", "C25", [("kernel/linear.py",
'''            if self.hwcfg["formatw"] in ["fxp"]:
                self.width = self.hwcfg["widthw"] - 1''',
'''            if self.hwcfg["formatw"] in ["fxp"]:
                self.width = self.hwcfg["widthi"] - 1''')],
"temporal coding of the weights with widths that differ between inputs and weights",
"the number of digits of the weight is derived from the width of the input",
r'''
import torch
from UnarySim.kernel import TLUTLinear
torch.manual_seed(0)
for wi, ww, wt in ((8, 8, 4), (4, 8, 3), (8, 4, 2), (5, 9, 4)):
    h = {"temporal": "w", "widtht": wt, "formati": "fxp", "widthi": wi, "quantilei": 1, "formatw": "fxp", "widthw": ww, "quantilew": 1, "cycle": None, "rounding": "ceil", "signmag": True}
    w, x = torch.rand(2, 3) * 2 - 1, torch.rand(4, 3) * 2 - 1
    w[0, 0], x[0, 0] = 0.99, 0.99
    u = TLUTLinear(3, 2, False, weight_ext=w, hwcfg=h)
    q = lambda t, n: torch.trunc((t * 2 ** n).clamp(1 - 2 ** n, 2 ** n - 1)) / 2 ** n
    assert torch.allclose(u(x), q(x, wi - 1) @ q(w, ww - 1).t(), atol=1e-6), (wi, ww, wt)
''')

plant("rawscale-clamp", "C27", [("stream/gen.py",
"        output = raw.clamp(lower_bound, upper_bound).div(scale)",
"        output = raw.clamp(-scale, scale).div(scale)")],
"data whose lower and upper quantile bounds differ in magnitude, with a quantile below one",
"outliers on the side with the smaller bound are no longer clipped to that bound",
r'''
import torch
from UnarySim.stream import RawScale
from UnarySim.stream.gen import RawScale
''' .replace("from UnarySim.stream import RawScale\n", "") + r'''
torch.manual_seed(0)
for q in (1, 0.9, 0.5):
    for k in range(50):
        x = torch.randn(30) + 0.7
        lo, hi = torch.quantile(x, 0.5 - q / 2), torch.quantile(x, 0.5 + q / 2)
        want = torch.minimum(torch.maximum(x, lo), hi) / max(abs(lo), abs(hi))
        assert torch.allclose(RawScale({"quantile": q})(x), want)
''')

plant("signabs-ceiling", "C24", [("kernel/signabs.py",
"fill_(2**self.depth - 1).type(self.btype)",
"fill_(2**self.depth - 2).type(self.btype)")],
"enough ones to reach the upper end of the counter, and then enough zeros to come back",
"the counter stops one below its upper end, so the sign flips one cycle too early",
r'''
import itertools, torch
from UnarySim.kernel import FSUSignAbs
for d in (2, 3):
    for hist in itertools.product((0, 1), repeat=9):
        u = FSUSignAbs({"depth": d}, {"btype": torch.float, "stype": torch.float})
        c = 2 ** (d - 1)
        for b in hist:
            c = min(max(c + 2 * b - 1, 0), 2 ** d - 1)
            s, a = u(torch.tensor([float(b)]))
            assert (int(s), int(a)) == (int(c < 2 ** (d - 1)), int(c < 2 ** (d - 1)) ^ b), (d, hist)
''')

plant("shiftreg-any-mask", "C13", [("kernel/shiftreg.py",
"            self.sr.data = mask_val * sr_shift + (1 - mask_val) * sr_no_shift",
"            self.sr.data = torch.where(mask_val.amax(-1, keepdim=True) > 0, sr_shift, sr_no_shift)")],
"a masked shift of several elements with different masks",
"one enabled element lets the registers of its whole row shift",
r'''
import torch
from UnarySim.kernel import ShiftReg
torch.manual_seed(0)
X = torch.randint(0, 2, (20, 2, 3)).float(); M = torch.randint(0, 2, (20, 2, 3)).float()
def run(x, m):
    u = ShiftReg({"entry": 4}, {"stype": torch.float})
    return torch.stack([u(a, mask=b, index=k % 4)[0] for k, (a, b) in enumerate(zip(x, m))])
full = run(X, M)
for i in range(2):
    for j in range(3):
        assert torch.equal(full[:, i:i + 1, j:j + 1], run(X[:, i:i + 1, j:j + 1], M[:, i:i + 1, j:j + 1]))
''')

plant("sync-uninitialised", "C06", [("stream/shuffle.py",
"self.cnt.data = torch.zeros_like(sum_in).type(self.btype)",
"self.cnt.data = torch.empty_like(sum_in).type(self.btype).clamp_(0, self.upper.item())")],
"a multi-element stream, on memory that was used before",
"the buffer of a synchroniser starts with whatever the memory held",
r'''
import torch
from UnarySim.stream import SkewedSync
bad = 0
for n in (7, 64, 1000, 4096):
    for k in range(20):
        junk = [torch.full((n,), 3.0) for _ in range(16)]
        del junk
        u = SkewedSync({"depth": 2}, {"btype": torch.float, "stype": torch.float})
        a, b = u(torch.zeros(n), torch.ones(n))
        bad += int(a.sum())
        del a, b, u
assert bad == 0, bad
''')

plant("stability-least-cycle", "C15", [("metric/metric.py",
"self.cycle_to_stable.clamp(1, self.cycle.item())",
"self.cycle_to_stable.clamp(0, self.cycle.item())")],
"a stream that never exceeds the threshold",
"a stream that was always stable gets a stability of one, without the required least cycle",
r'''
import torch
from UnarySim.metric.metric import Stability
for th in (0.05, 0.6, 3.0):
    s = Stability(torch.tensor([0.5, 1.0]), {"scale": 1, "mode": "unipolar", "threshold": th})
    last, ones = [0, 0], [0, 0]
    for t in range(1, 13):
        x = [float(t % 2), 1.0]
        s.Monitor(torch.tensor(x))
        for i, v in enumerate((0.5, 1.0)):
            ones[i] += x[i]
            if abs(ones[i] / t - v) > th:
                last[i] = t
        want = [1 - min(max(l, 1), t) / t for l in last]
        assert torch.allclose(s(), torch.tensor(want)), (th, t)
''')

plant("bsgen-saturate", "C08", [("stream/gen.py",
"self.rng[cycle.type(torch.long)%self.len]",
"self.rng[cycle.type(torch.long).clamp(0, self.len - 1)]")],
"a cycle index beyond the length of the table",
"indices beyond the table stay at its last entry instead of starting over",
r'''
import torch
from UnarySim.stream import RNG, BinGen, BSGen
sw = {"rtype": torch.float, "stype": torch.float}
for rng in ("Sobol", "race", "tc10"):
    h = {"width": 3, "mode": "unipolar", "rng": rng, "dimr": 1}
    t = RNG(h, sw)(); b = BinGen(torch.arange(9) / 8, h, sw)()
    g = BSGen(b, t, sw)
    for c in range(20):
        assert torch.equal(g(torch.tensor([c])), (b > t[c % 8]).float()), (rng, c)
''')

plant("sync-two", "C01", [("stream/shuffle.py",
"mul_(cnt_not_min * (1 - in_1) + (0 - cnt_not_max) * in_1))",
"mul_(cnt_not_min * (1 - in_1 * cnt_not_max) + (0 - cnt_not_max) * in_1))")],
"an unpaired one of the first stream on a full buffer",
"a full synchroniser emits a two",
r'''
import torch
from UnarySim.stream import SkewedSync
for d in (1, 2, 3):
    u = SkewedSync({"depth": d}, {"btype": torch.float, "stype": torch.float})
    for t in range(2 ** d + 3):
        a, b = u(torch.ones(2), torch.zeros(2))
        assert all(float(x) in (0.0, 1.0) for x in a), (d, t, a)
''')

plant("tlut-noclone", "C03", [("kernel/linear.py",
"""        if temporal in ["i", "input"]:
            input_fp32 = input.detach().clone().type(torch.float)
            mantissa""",
"""        if temporal in ["i", "input"]:
            input_fp32 = input.detach().type(torch.float)
            mantissa"""),
("kernel/linear.py",
"""        input_fp32 = input.detach().clone().to(torch.float)
        weight_fp32 = weight.detach().clone().to(torch.float)

        rshift_i, rshift_w, _ = rshift_offset(input_fp32, weight_fp32, width, width, rounding, quantilei, quantilew)
""",
"""        input_fp32 = input.detach().to(torch.float)
        weight_fp32 = weight.detach().to(torch.float)

        rshift_i, rshift_w, _ = rshift_offset(input_fp32, weight_fp32, width, width, rounding, quantilei, quantilew)
""")],
"mixed fixed and floating point formats and a single-precision input, for which the conversion does not copy",
"the truncated temporal operand is written back into the tensor of the caller",
r'''
import torch
from UnarySim.kernel import TLUTLinear
torch.manual_seed(0)
for fi, fw in (("fxp", "fxp"), ("fxp", "float32"), ("float32", "fxp"), ("float32", "float32")):
    for temporal in ("i", "w"):
        h = {"temporal": temporal, "widtht": 3, "formati": fi, "widthi": 6, "quantilei": 1, "formatw": fw, "widthw": 6, "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True}
        w = torch.randn(2, 3); x = torch.randn(4, 3)
        u = TLUTLinear(3, 2, True, weight_ext=w, hwcfg=h)
        cx, cw = x.clone(), w.clone()
        u(x)
        assert torch.equal(x, cx) and torch.equal(w, cw), (fi, fw, temporal)
''')

plant("add-entry-default", "C04", [("kernel/add.py",
'        self.hwcfg["entry"] = hwcfg["entry"]\n',
'        self.hwcfg["entry"] = hwcfg["entry"]\n        self.hwcfg_user = hwcfg\n'),
("kernel/add.py",
'                    self.hwcfg["entry"] = input.size()[self.dima]\n',
'                    self.hwcfg["entry"] = input.size()[self.dima]\n                    self.hwcfg_user["entry"] = self.entry\n')],
"one configuration dictionary used for two adders with different numbers of inputs",
"an adder that derives its entry count from its first input writes it into the configuration of the caller",
r'''
import torch
from UnarySim.kernel import FSUAdd
h = {"mode": "bipolar", "scale": None, "dima": 0, "depth": 8, "entry": None}
c = dict(h)
FSUAdd(h)(torch.ones(3, 2))
assert h == c, h
a = FSUAdd(); a(torch.ones(3, 2))
b = FSUAdd(); b(torch.ones(5, 2))
assert b.hwcfg["entry"] == 5 and float(b.scale_carry) == 5
''')

plant("cordiv-stale-read", "C21", [("kernel/div.py",
"        dontcare1, dontcare2 = self.sr(quotient.type(self.stype), mask=divisor_eq_1)",
"        dontcare1, dontcare2 = self.sr(quotient.type(self.stype), mask=torch.maximum(divisor_eq_1, dividend.type(self.stype)))")],
"a dividend bit that arrives while the divisor is zero (unsynchronised operands)",
"the history also shifts for dividend bits without divisor",
r'''
import random, torch
from UnarySim.kernel import CORDIV_kernel
from UnarySim.stream import RNG
random.seed(2)
for n in (2, 4):
    tab = [int(x) for x in RNG({"width": {2: 1, 4: 2}[n], "dimr": 4, "rng": "Sobol"}, {"rtype": torch.long})()]
    for trial in range(20):
        u = CORDIV_kernel({"entry": n, "rng": "Sobol", "dimr": 4}, {"stype": torch.float})
        sr = [k % 2 for k in range(n)]
        for t in range(20):
            a, b = random.randint(0, 1), random.randint(0, 1)
            q = a if b else sr[tab[t % n]]
            if b:
                sr = sr[1:] + [q]
            got = int(u(torch.tensor([float(a)]), torch.tensor([float(b)])))
            assert got == q, (n, trial, t)
''')

plant("sqrt-emit-swap", "C22", [("kernel/sqrt.py",
"""        output_uni = self.bi2uni_emit(output)
        emit_out = output_inv_scrambled & output_uni""",
"""        output_uni = self.bi2uni_emit(1 - output_inv_scrambled)
        emit_out = output_inv_scrambled & output_uni""")],
"the bipolar emitting square root, on histories where the register delays the output",
"the emission takes the unipolar form of a delayed output",
r'''
import itertools, torch
from UnarySim.kernel import FSUSqrt
def model(hist, n):
    acc, bal, e, sr, out = 0, 0, 0, [k % 2 for k in range(n)], []
    for x in hist:
        acc = min(acc + x + e, 256)
        o = int(acc >= 1)
        acc -= o
        inv = sr[0]
        sr = sr[1:] + [1 - o]
        bal = min(max(bal + 2 * o - 1, -2), 2)
        u = int(bal >= 1)
        bal -= u
        e = inv & u
        out.append(o)
    return out
for n in (2, 4):
    for hist in itertools.product((0, 1), repeat=8):
        u = FSUSqrt({"mode": "bipolar", "jk_trace": True, "emit": True, "entry_kn": 1, "entry_sr": n, "rng": "Sobol", "dimr": 4}, {"stype": torch.float, "btype": torch.float})
        assert [int(u(torch.tensor([float(x)]))) for x in hist] == model(hist, n), hist
''')

plant("uni2bi-room", "C20", [("stream/shuffle.py",
"""        self.acc_max = 2**(self.depth-2)
        # min value in the accumulator
        self.acc_min = -2**(self.depth-2)

    def forward(self, input):
        # calculate (input+1)/2""",
"""        self.acc_max = 2**(self.depth-2) - 1
        # min value in the accumulator
        self.acc_min = -2**(self.depth-2)

    def forward(self, input):
        # calculate (input+1)/2""")],
"a small buffer (depth 3), or a stored one followed by a one",
"the upper bound of the buffer is one too small, so at small depths stored value is lost",
r'''
import itertools, torch
from UnarySim.stream import Uni2Bi
for d in (3, 4, 5):
    for hist in itertools.product((0, 1), repeat=8):
        u = Uni2Bi({"depth": d}, {"btype": torch.float, "stype": torch.float})
        acc = 0
        for x in hist:
            acc = min(max(acc + x + 1, -2 ** (d - 2)), 2 ** (d - 2))
            o = int(acc >= 2)
            acc -= 2 * o
            assert int(u(torch.tensor([float(x)]))) == o, (d, hist)
''')

plant("corr-bound-depth", "C16", [("metric/metric.py",
"                torch.min(a_plus_b, a_plus_c).mul_(self.len).sub_(a_plus_b.mul(a_plus_c)), \n",
"                torch.min(a_plus_b.mul(self.len - a_plus_c), a_plus_c.mul(self.len - a_plus_c)), \n")],
"positively correlated streams where the second is the sparser one",
"the normalisation of positive correlation uses the complement of the wrong stream",
r'''
import random, torch
from UnarySim.metric.metric import Correlation
random.seed(0)
for trial in range(200):
    n = random.randint(2, 12)
    x = [random.randint(0, 1) for _ in range(n)]; y = [random.randint(0, 1) for _ in range(n)]
    u = Correlation()
    for a, b in zip(x, y):
        u.Monitor(torch.tensor([float(a)]), torch.tensor([float(b)]))
    a = sum(p & q for p, q in zip(x, y)); b = sum(x) - a; c = sum(y) - a; d = n - a - b - c
    k = a * d - b * c
    den = min(a + b, a + c) * n - (a + b) * (a + c) if k > 0 else (a + b) * (a + c) - max(a - d, 0) * n
    assert abs(float(u()) - k / max(den, 1)) < 1e-6, (x, y)
''')

RTL = r'''
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtl
random.seed(0)

def cell(file, name, **par):
    d = rtl.Design(os.getcwd(), file, name, par)
    st = d.start()
    ports = [(n, w) for n, w in d.inputs_of() if n not in ("clk", "rst_n")]
    def step(**i):
        nonlocal st
        v = {n: (i[n], 0) for n, w in ports}
        v.update(clk=(0, 1), rst_n=(1, 0))
        o = d.outputs(st, v)
        st = d.next(st, v)
        assert all(x[1] == 0 for x in o.values())
        return {k: x[0] for k, x in o.items()}
    return step
'''

plant("rtl-sign-empty", "C29", [("hw/kernel/sign/Sign.sv",
"assign cntEmpty = ~(|cnt);",
"assign cntEmpty = ~(|cnt[DEP-1:1]);")],
"enough zeros to reach the lower end of the counter, and then enough ones to come back",
"the sign counter stops one above its lower end",
RTL + r'''
for dep in (2, 3, 4):
    for trial in range(40):
        s, c = cell("hw/kernel/sign/Sign.sv", "Sign", DEP=dep), 2 ** (dep - 1)
        p = random.random()
        for t in range(60):
            if t % 20 == 0:
                p = random.random()
            b = int(random.random() < p)
            assert s(value=b)["sign"] == int(c < 2 ** (dep - 1)), (dep, trial, t)
            c = min(max(c + 2 * b - 1, 0), 2 ** dep - 1)
''')

plant("rtl-sync-stuck", "C29", [("hw/stream/shuffle/SkewedSync.sv",
"            if (in_ne) begin\n                /*",
"            if (in_ne & ~cntFull) begin\n                /*")],
"a buffer that has filled up and is then drained",
"a full buffer is never drained, it keeps emitting stored ones",
RTL + r'''
for dep in (1, 2, 3):
    for trial in range(40):
        s, c = cell("hw/stream/shuffle/SkewedSync.sv", "SkewedSync", DEP=dep), 0
        m = 2 ** dep - 1
        for t in range(60):
            p = (0.8, 0.2)[t // 15 % 2]
            a, b = int(random.random() < p), int(random.random() < 1 - p)
            want = a if a == b else (int(c == m) if a else int(c > 0))
            o = s(in0=a, in1=b)
            assert (o["out0"], o["out1"]) == (want, b), (dep, trial, t)
            if a != b:
                c = min(max(c + (1 if a else -1), 0), m)
''')

plant("rtl-gdiv-wrap", "C29", [("hw/kernel/div/GDIV_B.sv",
"if(inc & ~dec & ~cntFull) begin",
"if(inc & ~dec) begin")],
"a quotient that stays at its upper end for a whole counter range",
"the counter of the bipolar divider wraps from its upper end to zero",
RTL + r'''
for dep in (2, 3, 4):
    for trial in range(30):
        s, c, dd = cell("hw/kernel/div/GDIV_B.sv", "GDIV_B", DEP=dep), 2 ** (dep - 1), 0
        m = 2 ** dep - 1
        for t in range(80):
            p = (0.9, 0.1, 0.5)[t // 20 % 3]
            a, b, r = int(random.random() < p), int(random.random() < 0.9), random.randint(0, m)
            q = int(c > r)
            assert s(dividend=a, divisor=b, randNum=r)["quotient"] == q, (dep, trial, t)
            x0, x1 = 1 - (b ^ dd), 1 - (b ^ a)
            x2 = 1 - (x0 ^ (1 - q))
            c = min(max(c + (x1 & x2) - ((1 - x1) & (1 - x2)), 0), m)
            dd = b
''')
