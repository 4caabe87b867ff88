plant("add-late-clamp", "C02", [("kernel/add.py",
"self.accumulator.data = self.accumulator.add(acc_delta).clamp(self.acc_min, self.acc_max)",
"self.accumulator.data = self.accumulator.add(acc_delta)")],
"a shallow accumulator (or a long run of ones) so that the sum before emission exceeds the upper bound",
"the accumulator is only clamped after the scale has been subtracted, so it holds more than its depth allows and emits extra ones later",
r'''
import itertools, torch
from UnarySim.kernel import FSUAdd

def model(hist, depth, scale, offset):
    lo, hi = -2 ** (depth - 2), 2 ** (depth - 2)
    acc, out = 0, []
    for s in hist:
        acc = min(max(acc + s - offset, lo), hi)
        o = 1 if acc >= scale else 0
        acc = min(max(acc - o * scale, lo), hi)
        out.append(o)
    return out

bad = 0
for depth, scale, n, mode in [(3, 1, 3, "unipolar"), (4, 2, 4, "unipolar"), (3, 1, 3, "bipolar"), (4, 3, 5, "bipolar")]:
    for hist in itertools.product([0, n], repeat=6):
        u = FSUAdd({"mode": mode, "scale": scale, "dima": 0, "depth": depth, "entry": None},
                   {"btype": torch.float, "stype": torch.float})
        got = [int(u(torch.tensor([[1.0]] * s + [[0.0]] * (n - s)))) for s in hist]
        want = model(hist, depth, scale, (n - scale) / 2 if mode == "bipolar" else 0)
        bad += got != want
assert bad == 0, bad
''')

plant("shiftreg-inplace", "C05", [("kernel/shiftreg.py",
"self.sr.data = mask_val * sr_shift + (1 - mask_val) * sr_no_shift",
"self.sr.data.copy_(mask_val * sr_shift + (1 - mask_val) * sr_no_shift)")],
"a masked shift whose returned element is read after the register has moved on",
"the element returned by a masked shift is a view of the register storage and changes with the shift",
r'''
import torch
from UnarySim.kernel import ShiftReg
u = ShiftReg({"entry": 4}, {"stype": torch.float})
sr = [[0, 1, 0, 1] for _ in range(3)]
torch.manual_seed(0)
kept = []
for t in range(12):
    x = torch.randint(0, 2, (3,)).float(); m = torch.randint(0, 2, (3,)).float()
    want = [r[t % 4] for r in sr]
    out, cnt = u(x, mask=m, index=t % 4)
    assert cnt.tolist() == [sum(r) for r in sr]
    kept.append((out, want))
    for i in range(3):
        if m[i]:
            sr[i] = sr[i][1:] + [int(x[i])]
for out, want in kept:
    assert out.tolist() == want, (out.tolist(), want)
''')

plant("mul-cfg-in-place", "C04", [("kernel/mul.py",
'''        self.hwcfg={}
        self.hwcfg["width"] = hwcfg["width"]
        self.hwcfg["mode"] = hwcfg["mode"].lower()''',
'''        self.hwcfg = hwcfg
        self.hwcfg["width"] = hwcfg["width"]
        self.hwcfg["mode"] = hwcfg["mode"].lower()''')],
"a configuration dictionary with an upper-case mode or generator name, or the default configuration",
"normalising the mode and generator names writes into the dictionary of the caller and into the default argument",
r'''
import copy, torch
from UnarySim.kernel import FSUMul
cfg = {"width": 4, "mode": "Bipolar", "static": False, "rng": "Sobol", "dimr": 1}
sw = {"rtype": torch.float, "stype": torch.float}
keep = copy.deepcopy(cfg)
u = FSUMul(None, cfg, sw)
u(torch.ones(2), torch.ones(2))
assert cfg == keep, cfg
d = copy.deepcopy(FSUMul.__init__.__defaults__[1])
FSUMul()
assert FSUMul.__init__.__defaults__[1] == d
''')

plant("sync-shared-room", "C13", [("stream/shuffle.py",
"cnt_not_max = torch.ne(self.cnt, self.upper.item()).type(self.stype)",
"cnt_not_max = torch.ne(self.cnt.max(), self.upper.item()).type(self.stype)")],
"two elements with different histories, one of which fills its buffer",
"a full buffer of one element stops every other element of the synchroniser from storing its ones",
r'''
import torch
from UnarySim.stream import SkewedSync
torch.manual_seed(1)
a = (torch.rand(60, 4) < torch.tensor([0.9, 0.5, 0.3, 0.6])).float()
b = (torch.rand(60, 4) < torch.tensor([0.1, 0.5, 0.4, 0.5])).float()
hw, sw = {"depth": 2}, {"btype": torch.float, "stype": torch.float}
whole = SkewedSync(hw, sw)
each = [SkewedSync(hw, sw) for _ in range(4)]
for t in range(60):
    o, _ = whole(a[t], b[t])
    for i in range(4):
        p, _ = each[i](a[t, i:i + 1], b[t, i:i + 1])
        assert o[i].item() == p.item(), (t, i)
''')

plant("rng-down-offset", "C07", [("stream/gen.py",
"self.rng_seq.data = torch.flip(torch.tensor([x/self.seq_len for x in range(self.seq_len)]).mul_(self.seq_len), [0])",
"self.rng_seq.data = torch.tensor([1 - x/self.seq_len for x in range(self.seq_len)]).mul_(self.seq_len)")],
"the descending temporal generator (race10 or tc10)",
"the descending table counts from two-to-the-width down to one, so it is out of range and never zero",
r'''
import torch
from UnarySim.stream import RNG
for w in range(1, 9):
    for r in ["race10", "TC10"]:
        t = RNG({"width": w, "dimr": 1, "rng": r}, {"rtype": torch.float})()
        assert t.tolist() == list(range(2 ** w - 1, -1, -1)), (w, r)
''')

plant("bingen-half-up", "C08", [("stream/gen.py",
"self.binary.data = self.binary.round().type(self.rtype)",
"self.binary.data = self.binary.add(0.5).floor().type(self.rtype)")],
"a source value that lies exactly half way between two representable integers, with an even lower one",
"halfway values are rounded up and no longer to the nearest even integer, so the stream carries one more 1",
r'''
import torch
from UnarySim.stream import BinGen
for mode in ["unipolar", "bipolar"]:
    for w in range(1, 8):
        v = torch.arange(0, 2 ** (w + 1) + 1) / 2 ** (w + 1)
        src = v if mode == "unipolar" else v * 2 - 1
        b = BinGen(src, {"width": w, "mode": mode}, {"rtype": torch.float})()
        assert b.tolist() == [float(round(x * 2 ** w)) for x in v.tolist()], (mode, w)
''')

plant("proge-clamp-first", "C15", [("metric/metric.py",
"self.source = torch.clamp(source/self.scale, -1., 1.)",
"self.source = torch.clamp(source, -1., 1.)/self.scale")],
"a source value beyond one together with a scale above one",
"the source is clamped before it is scaled, so that the error of a scaled result is measured against the wrong value",
r'''
import torch
from UnarySim.metric import ProgError
src = torch.tensor([-3.0, -1.0, -0.25, 0.5, 1.5, 3.0])
for scale in [1, 2, 4]:
    for mode in ["unipolar", "bipolar"]:
        u = ProgError(src, {"scale": scale, "mode": mode})
        ones = 0
        for t in range(1, 8):
            b = float(t % 3 == 0); ones += b
            u.Monitor(torch.full((6,), b))
            pp, pe = u()
            m = ones / t
            m = 2 * m - 1 if mode == "bipolar" else m
            want = [m - max(-1.0, min(1.0, s / scale)) for s in src.tolist()]
            assert torch.allclose(pe, torch.tensor(want), atol=1e-6), (scale, mode, t)
''')

plant("corr-delay-alias", "C05", [("metric/metric.py",
"self.in_1_d.data = in_1.clone().detach()",
"self.in_1_d.data = in_1.detach()")],
"a caller that reuses one buffer for the bits of successive cycles",
"the monitor keeps the caller's tensor as its delayed bit, so overwriting the buffer changes the statistics",
r'''
import torch
from UnarySim.metric import Correlation
torch.manual_seed(0)
bits = torch.randint(0, 2, (40, 3)).float()
a, b = Correlation(), Correlation()
buf = torch.zeros(3)
for t in range(40):
    a.Monitor(bits[t].clone())
    buf.copy_(bits[t])
    b.Monitor(buf)
assert torch.equal(a(), b())
''')

plant("conv-shape-stride", "C17", [("kernel/utils.py",
"w = math.floor((h_w[1] + sum(pad[1]) - dilation[1]*(kernel_size[1]-1) - 1) / stride[1] + 1)",
"w = math.floor((h_w[1] + sum(pad[1]) - dilation[1]*(kernel_size[1]-1) - 1) / stride[0] + 1)")],
"different strides in the two directions",
"the output width is computed with the vertical stride",
r'''
import itertools, torch
from UnarySim.kernel import conv2d_output_shape
for hw, k, s, p, d in itertools.product([(7, 9), 8], [(2, 3), 2], [(2, 1), (1, 3), 2], [(1, 0), 1], [(1, 2), 1]):
    t2 = lambda v: v if isinstance(v, tuple) else (v, v)
    ref = torch.nn.functional.conv2d(torch.zeros(1, 1, *t2(hw)), torch.zeros(1, 1, *t2(k)), None, s, p, d).shape[2:]
    assert tuple(ref) == tuple(conv2d_output_shape(hw, k, s, p, d)), (hw, k, s, p, d)
''')

plant("sqrt-assert-entry", "C18", [("kernel/sqrt.py",
"assert math.ceil(math.log2(self.entry_sr)) == math.floor(math.log2(self.entry_sr)) , \\",
"assert math.ceil(math.log2(self.entry_kn)) == math.floor(math.log2(self.entry_kn)) , \\")],
"a register length that is not a power of two",
"the length of the emission register is no longer checked, so an illegal length is accepted",
r'''
import torch
from UnarySim.kernel import FSUSqrt
for kn, sr, legal in [(1, 2, True), (2, 8, True), (1, 3, False), (4, 6, False), (3, 4, False)]:
    try:
        FSUSqrt({"mode": "bipolar", "jk_trace": True, "emit": True, "entry_kn": kn, "entry_sr": sr,
                 "rng": "Sobol", "dimr": 4}, {"stype": torch.float, "btype": torch.float})
        ok = True
    except AssertionError:
        ok = False
    assert ok == legal, (kn, sr)
''')

plant("sync-bound-linear", "C19", [("stream/shuffle.py",
"self.upper = torch.nn.Parameter(torch.Tensor([2**self.depth - 1]).type(self.btype), requires_grad=False)",
"self.upper = torch.nn.Parameter(torch.Tensor([2*self.depth - 1]).type(self.btype), requires_grad=False)")],
"a buffer depth other than 1 or 2",
"the buffer holds twice its depth minus one ones and not two-to-the-depth minus one, so ones are emitted early",
r'''
import torch
from UnarySim.stream import SkewedSync
torch.manual_seed(3)
for depth in [1, 2, 3, 4]:
    u = SkewedSync({"depth": depth}, {"btype": torch.float, "stype": torch.float})
    cnt = 0
    for t in range(300):
        a, b = int(torch.rand(()) < (0.8 if t % 60 < 30 else 0.2)), int(torch.rand(()) < 0.4)
        o, _ = u(torch.tensor([float(a)]), torch.tensor([float(b)]))
        if a + b == 1:
            if a:
                want = 0 if cnt < 2 ** depth - 1 else 1
                cnt = min(cnt + 1, 2 ** depth - 1)
            else:
                want = 1 if cnt else 0
                cnt = max(cnt - 1, 0)
        else:
            want = a
        assert int(o) == want, (depth, t)
''')

plant("bi2uni-low-bound", "C20", [("stream/shuffle.py",
"""        # calculate (2*input-1)/1
        # input bitstreams are [input, input, 0]
        self.accumulator.data = self.accumulator.add(input.type(self.btype)*2 - 1).clamp(self.acc_min, self.acc_max)""",
"""        # calculate (2*input-1)/1
        # input bitstreams are [input, input, 0]
        self.accumulator.data = self.accumulator.add(input.type(self.btype)*2 - 1).clamp(0, self.acc_max)""")],
"a stream whose zeros come before the ones that make up for them",
"the converter forgets negative balances, so the unipolar stream has more value than its bipolar input",
r'''
import itertools, torch
from UnarySim.stream import Bi2Uni
for depth in [3, 4, 5]:
    for bits in itertools.product([0, 1], repeat=8):
        u = Bi2Uni({"depth": depth}, {"stype": torch.float, "btype": torch.float})
        acc, lo, hi = 0, -2 ** (depth - 2), 2 ** (depth - 2)
        for t, b in enumerate(bits):
            acc = min(max(acc + 2 * b - 1, lo), hi)
            o = int(acc >= 1)
            acc -= o
            assert int(u(torch.tensor([float(b)]))) == o, (depth, bits, t)
''')

plant("cordiv-index-gated", "C21", [("kernel/div.py",
"self.idx.data = self.idx.add(1)",
"self.idx.data = self.idx.add(divisor_eq_1.max().type(torch.long))")],
"cycles without a valid divisor followed by cycles that read the history",
"the generator of the quotient history advances only on cycles with a divisor, so the chosen history bit differs",
r'''
import torch
from UnarySim.kernel import CORDIV_kernel
from UnarySim.stream import RNG
torch.manual_seed(0)
for entry in [2, 4, 8]:
    w = entry.bit_length() - 1
    tab = RNG({"width": w, "dimr": 4, "rng": "Sobol"}, {"rtype": torch.long})().tolist()
    u = CORDIV_kernel({"entry": entry, "rng": "Sobol", "dimr": 4}, {"stype": torch.float})
    sr = [i % 2 for i in range(entry)]
    u(torch.ones(1), torch.ones(1)); sr = sr[1:] + [1]
    for t in range(1, 80):
        s = int(torch.rand(()) < 0.5); d = s & int(torch.rand(()) < 0.6)
        want = d if s else sr[tab[t % entry]]
        got = int(u(torch.tensor([float(d)]), torch.tensor([float(s)])))
        assert got == want, (entry, t)
        if s:
            sr = sr[1:] + [want]
''')

plant("sqrt-shallow-adder", "C22", [("kernel/sqrt.py",
'''                "dima" : 0,
                "depth" : 10,''',
'''                "dima" : 0,
                "depth" : 3,''')],
"an emission form whose accumulated surplus passes the small bound",
"the non-scaled adder of the emission form saturates early and loses ones",
r'''
import torch
from UnarySim.kernel import FSUSqrt
torch.manual_seed(0)
for sr_len in [2, 4, 8]:
    u = FSUSqrt({"mode": "unipolar", "jk_trace": True, "emit": True, "entry_kn": 1, "entry_sr": sr_len,
                 "rng": "Sobol", "dimr": 4}, {"stype": torch.float, "btype": torch.float})
    sr = [i % 2 for i in range(sr_len)]
    acc, emit = 0, 0
    for t in range(400):
        x = int(torch.rand(()) < (0.9 if t % 50 > 20 else 0.3))
        acc = min(max(acc + x + emit, -256), 256)
        o = int(acc >= 1)
        acc -= o
        assert int(u(torch.tensor([float(x)]))) == o, (sr_len, t)
        emit = sr[0] & o
        sr = sr[1:] + [1 - o]
''')

plant("relu-bound", "C24", [("kernel/relu.py",
"self.buf_max = 2**self.depth - 1",
"self.buf_max = 2**self.depth")],
"a run of ones long enough to saturate the counter, followed by zeros",
"the activation counter saturates one count too high and takes one zero longer to react",
r'''
import torch
from UnarySim.kernel import FSUReLU
torch.manual_seed(0)
for depth in [1, 2, 3]:
    u = FSUReLU({"depth": depth}, {"btype": torch.float, "stype": torch.float})
    half, top = 2 ** (depth - 1), 2 ** depth - 1
    acc = half
    for t in range(400):
        x = int(torch.rand(()) < (0.95 if t % 40 < 20 else 0.1))
        o = x | (1 - int(acc >= half))
        acc = min(max(acc + 2 * o - 1, 0), top)
        assert int(u(torch.tensor([float(x)]))) == o, (depth, t)
''')

plant("corr-abs-diff", "C16", [("metric/metric.py",
"a_plus_b.mul(a_plus_c).sub(torch.max(a_minus_d, all_0_tensor).mul_(self.len)),",
"a_plus_b.mul(a_plus_c).sub(a_minus_d.abs().mul_(self.len)),")],
"a negatively correlated pair with more 00 than 11 outcomes",
"the denominator of the negative branch uses the absolute difference of the 11 and 00 counts",
r'''
import torch
from UnarySim.metric import Correlation
torch.manual_seed(0)
for k in range(200):
    n = 20
    x = (torch.rand(n) < torch.rand(())).float(); y = (torch.rand(n) < torch.rand(())).float()
    u = Correlation()
    for t in range(n):
        u.Monitor(x[t:t + 1], y[t:t + 1])
    a = float((x * y).sum()); b = float((x * (1 - y)).sum()); c = float(((1 - x) * y).sum()); d = n - a - b - c
    num = a * d - b * c
    den = n * min(a + b, a + c) - (a + b) * (a + c) if num > 0 else (a + b) * (a + c) - n * max(a - d, 0)
    want = num / max(den, 1)
    assert abs(float(u()) - want) < 1e-5, (k, float(u()), want)
''')

plant("uni2bi-type", "C01", [("stream/shuffle.py",
"""        output = torch.ge(self.accumulator, 2).type(self.btype)
        self.accumulator.sub_(output * 2).clamp(self.acc_min, self.acc_max)
        return output.type(self.stype)""",
"""        output = torch.ge(self.accumulator, 2).type(self.btype)
        self.accumulator.sub_(output * 2).clamp(self.acc_min, self.acc_max)
        return output""")],
"a stream type that differs from the buffer type",
"the converter returns its bits in the buffer type and not in the configured stream type",
r'''
import torch
from UnarySim.stream import Uni2Bi
for st in [torch.float, torch.int8, torch.float16, torch.long]:
    for bt in [torch.float, torch.float64]:
        u = Uni2Bi({"depth": 4}, {"stype": st, "btype": bt})
        for t in range(6):
            o = u(torch.tensor([1, 0, t % 2]).type(st))
            assert o.dtype == st and set(o.tolist()) <= {0, 1}
''')

plant("bingen-writes-source", "C03", [("stream/gen.py",
"self.binary.data = self.binary * (2**self.width)",
"self.binary.data.mul_(2**self.width)")],
"a unipolar source whose tensor the caller still uses",
"scaling in place multiplies the caller's source tensor in unipolar mode",
r'''
import torch
from UnarySim.stream import BinGen
for mode in ["unipolar", "bipolar"]:
    src = torch.tensor([0.25, 0.5, 0.75])
    for k in range(2):
        b = BinGen(src, {"width": 4, "mode": mode}, {"rtype": torch.float})()
        assert src.tolist() == [0.25, 0.5, 0.75], mode
''')

plant("truncnorm-single-pass", "C27", [("kernel/utils.py",
"""            t = torch.where(cond, torch.nn.init.normal_(torch.ones_like(t), mean=mean, std=std), t)
        else:
            break""",
"""            t = torch.where(cond, torch.nn.init.normal_(torch.ones_like(t), mean=mean, std=std), t)
        break""")],
"a redraw that again falls outside the two deviations (about one value in five hundred)",
"out-of-range values are redrawn once only, so some stay beyond two deviations",
r'''
import torch
from UnarySim.kernel import truncated_normal
torch.manual_seed(0)
for mean, std in [(0.0, 0.01), (1.0, 0.5)]:
    t = truncated_normal(torch.zeros(40000), mean=mean, std=std)
    assert t.min() >= mean - 2 * std - 1e-6 and t.max() <= mean + 2 * std + 1e-6
''')

plant("linear-bias-grad", "C14", [("kernel/linear.py",
"""        return grad_input, grad_weight, grad_bias, None, None, None, None, None, None, None, None, None, None, None


# Inherit from Function
class TLUTLinearFXPFPFunction""",
"""        return grad_input, grad_weight, grad_bias, None, None, None, None, None, None, None, None, None, None


# Inherit from Function
class TLUTLinearFXPFPFunction"""), ("kernel/linear.py",
"""        if ctx.needs_input_grad[0]:
            grad_input = grad_output.matmul(weight)
        if ctx.needs_input_grad[1]:
            grad_weight = grad_output.t().matmul(input)
        if bias is not None and ctx.needs_input_grad[2]:
            grad_bias = grad_output.sum(0)

        return grad_input, grad_weight, grad_bias, None, None, None, None, None, None, None
""",
"""        if ctx.needs_input_grad[0]:
            grad_input = grad_output.matmul(weight)
        if ctx.needs_input_grad[1]:
            grad_weight = grad_output.t().matmul(input)
        if bias is not None and ctx.needs_input_grad[2]:
            grad_bias = grad_output.mean(0)

        return grad_input, grad_weight, grad_bias, None, None, None, None, None, None, None
""")],
"training a table-look-up layer with fixed-point operands, or one with float operands, a bias and more than one batch row",
"the fixed-point form returns one gradient too few and the float form averages the bias gradient over the batch",
r'''
import torch
from UnarySim.kernel import TLUTLinear
torch.manual_seed(0)
for fi, fw in [("fxp", "fxp"), ("fxp", "float32"), ("float32", "fxp"), ("float32", "float32")]:
    hw = {"temporal": "i", "widtht": 4, "formati": fi, "widthi": 8, "quantilei": 1, "formatw": fw, "widthw": 8,
          "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True}
    u = TLUTLinear(3, 2, True, hwcfg=hw)
    x = torch.rand(4, 3, requires_grad=True)
    g = torch.rand(4, 2)
    u(x).backward(g)
    assert torch.allclose(x.grad, g @ u.weight.detach())
    assert torch.allclose(u.weight.grad, g.t() @ x.detach())
    assert torch.allclose(u.bias.grad, g.sum(0))
''')

plant("linear-index-shared", "C13", [("kernel/linear.py",
"""        torch.add(self.wrdx_i1, input.unsqueeze(1).type(torch.long), out=self.wrdx_i1)
        
        ibit_i1 = input.unsqueeze(1).type(torch.float)
        obin_i1 = torch.empty(0, device=input.device)
        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
        obin_i1.squeeze_(1)
        
        if self.has_bias is True:
            bbit = self.bbsg(self.brdx).type(torch.float)
            self.brdx.add_(1)
            obin_i1 += bbit.unsqueeze(0).expand_as(obin_i1)

        if self.mode == "unipolar":
            return obin_i1
        
        if self.mode == "bipolar":
            # generate weight and bias bits for current cycle
            wbit_i0 = 1 - self.wbsg_i0""",
"""        torch.add(self.wrdx_i1, input[0:1].unsqueeze(1).type(torch.long), out=self.wrdx_i1)
        
        ibit_i1 = input.unsqueeze(1).type(torch.float)
        obin_i1 = torch.empty(0, device=input.device)
        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
        obin_i1.squeeze_(1)
        
        if self.has_bias is True:
            bbit = self.bbsg(self.brdx).type(torch.float)
            self.brdx.add_(1)
            obin_i1 += bbit.unsqueeze(0).expand_as(obin_i1)

        if self.mode == "unipolar":
            return obin_i1
        
        if self.mode == "bipolar":
            # generate weight and bias bits for current cycle
            wbit_i0 = 1 - self.wbsg_i0""")],
"a batch of at least two rows with different bits",
"the generator indices of every batch row advance with the bits of the first row",
r'''
import torch
from UnarySim.kernel import FSULinearPC
torch.manual_seed(0)
sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
for mode in ["unipolar", "bipolar"]:
    hw = {"width": 4, "mode": mode, "rng": "Sobol", "dimr": 1}
    W = torch.rand(2, 3); 
    whole = FSULinearPC(3, 2, bias=False, weight_ext=W, hwcfg=hw, swcfg=sw)
    rows = [FSULinearPC(3, 2, bias=False, weight_ext=W, hwcfg=hw, swcfg=sw) for _ in range(3)]
    for t in range(40):
        x = torch.randint(0, 2, (3, 3)).float()
        o = whole(x)
        for i in range(3):
            assert torch.equal(o[i:i + 1], rows[i](x[i:i + 1])), (mode, t, i)
''')

plant("hub-early-cycle", "C25", [("kernel/linear.py",
"""        # scale weight with batch to range 0~2^widthw-1
        buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
        torch.abs(rshift(weight, rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
        torch.clamp(buf_w_no_batch, 0, cycle-1, out=buf_w_no_batch)""",
"""        # scale weight with batch to range 0~2^widthw-1
        buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
        torch.abs(rshift(weight, rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
        torch.clamp(buf_w_no_batch, 0, mapcbsg.size()[0]-1, out=buf_w_no_batch)""")],
"an early-terminated run (cycle below the maximum) with a weight whose magnitude reaches the cycle count",
"weights are no longer limited by the configured cycle count",
r'''
import torch
from UnarySim.kernel import HUBLinear
torch.manual_seed(0)
for cyc in [None, 128, 64, 32]:
    hw = {"widthi": 8, "rngi": "Sobol", "quantilei": 1, "widthw": 8, "rngw": "Sobol", "quantilew": 1,
          "cycle": cyc if cyc else 128, "rounding": "round", "signmag": True}
    c = min(cyc or 128, 128)
    W, x = torch.rand(2, 3) * 2 - 1, torch.rand(4, 3) * 2 - 1
    u = HUBLinear(3, 2, False, weight_ext=W.clone(), hwcfg=hw)
    got = u(x).detach()
    ri, rw, ro = [float(v) for v in (u.rshift_i, u.rshift_w, u.rshift_o)]
    m = u.mapctlee
    for i in range(4):
        for j in range(2):
            s = 0.0
            for k in range(3):
                bi = min(int(abs(torch.round(x[i, k] / 2 ** ri))), c - 1)
                bw = min(int(abs(torch.round(W[j, k] / 2 ** rw))), c - 1)
                s += float(torch.sign(x[i, k]) * torch.sign(W[j, k]) * m[bi, bw])
            assert abs(float(got[i, j]) - s / 2 ** ro) < 1e-4, (cyc, i, j)
''')

plant("mgu-sum-order", "C26", [("kernel/rnn.py",
"""        self.fg_ng = self.fg * self.ng
        self.fg_ng_inv = 0 - self.fg_ng
        hy = HUBHardtanh()(self.ng + self.fg_ng_inv + self.fg_hx)""",
"""        self.fg_ng = self.fg * self.ng
        self.fg_ng_inv = 0 - self.fg_ng
        hy = HUBHardtanh()(HUBHardtanh()(self.ng + self.fg_hx) + self.fg_ng_inv)""")],
"a new gate and a gated hidden state whose sum exceeds the unit range before the last term is added",
"the intermediate sum saturates before the product of the gates is subtracted",
r'''
import torch
import torch.nn.functional as F
from UnarySim.kernel import HardMGUCell
torch.manual_seed(0)
for bias in [True, False]:
    u = HardMGUCell(3, 4, bias=bias)
    with torch.no_grad():
        for p in u.parameters():
            p.mul_(4)
    x, h = torch.rand(50, 3) * 2 - 1, torch.rand(50, 4) * 2 - 1
    ht = lambda v: v.clamp(-1, 1)
    fg = (ht(F.linear(torch.cat((h, x), 1), u.weight_f, u.bias_f)) + 1) / 2
    ng = ht(F.linear(torch.cat((fg * h, x), 1), u.weight_n, u.bias_n))
    want = ht(ng - fg * ng + fg * h)
    assert torch.allclose(u(x, h), want, atol=1e-5), bias
''')

plant("conv-pad-parity", "C12", [("kernel/conv.py",
"""    def FSUConv2d_PC_wtc(self, input):
        output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)

        if True in self.even_cycle_flag:
            input_padding = self.padding_0(input)
        else:
            input_padding = self.padding_1(input)

        # if unipolar mode, even_cycle_flag is always False to pad 0.
        self.even_cycle_flag.data = self.bipolar_mode ^ self.even_cycle_flag""",
"""    def FSUConv2d_PC_wtc(self, input):
        output_size = conv2d_output_shape((input.size()[2], input.size()[3]), kernel_size=self.kernel_size, dilation=self.dilation, pad=self.padding, stride=self.stride)

        if True in self.even_cycle_flag:
            input_padding = self.padding_0(input)
        else:
            input_padding = self.padding_1(input)

        # if unipolar mode, even_cycle_flag is always False to pad 0.
        self.even_cycle_flag.data = self.bipolar_mode & self.even_cycle_flag""")],
"a padded unary convolution with temporally coded weights",
"with temporal weights the padding stops alternating in bipolar mode, and in unipolar mode pads ones from the second cycle on",
r'''
import torch
from UnarySim.kernel import FSUConv2dPC, FSULinearPC
torch.manual_seed(0)
sw = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
for rng in ["Sobol", "Race"]:
    for mode in ["unipolar", "bipolar"]:
        hw = {"width": 4, "mode": mode, "rng": rng, "dimr": 1}
        W = torch.rand(2, 1, 2, 2)
        u = FSUConv2dPC(1, 2, 2, padding=1, bias=False, weight_ext=W, hwcfg=hw, swcfg=sw)
        v = FSULinearPC(4, 2, bias=False, weight_ext=W.view(2, 4), hwcfg=hw, swcfg=sw)
        for t in range(20):
            x = torch.randint(0, 2, (1, 1, 3, 3)).float()
            p = torch.nn.functional.pad(x, (1, 1, 1, 1), value=float(mode == "bipolar" and t % 2 == 1))
            cols = torch.nn.functional.unfold(p, 2)[0].t().contiguous()
            want = v(cols).t().reshape(1, 2, 4, 4)
            assert torch.equal(u(x), want), (rng, mode, t)
''')

plant("rng-engine-cache", "C06", [("stream/gen.py",
"self.rng_seq.data = torch.quasirandom.SobolEngine(self.dimr).draw(self.seq_len)[:, self.dimr-1].view(self.seq_len).mul_(self.seq_len)",
"self.rng_seq.data = RNG.engine.setdefault(self.dimr, torch.quasirandom.SobolEngine(self.dimr)).draw(self.seq_len)[:, self.dimr-1].view(self.seq_len).mul_(self.seq_len)"),
("stream/gen.py",
'''class RNG(torch.nn.Module):
    """
    Random number generator to return a random sequence of size [2**width] and type torch.nn.Parameter.
    """
''',
'''class RNG(torch.nn.Module):
    """
    Random number generator to return a random sequence of size [2**width] and type torch.nn.Parameter.
    """
    # engines already built, by dimension
    engine = {}
''')],
"a second Sobol generator of the same dimension in the same process",
"generators share one engine per dimension, so the second table continues where the first one ended",
r'''
import torch
from UnarySim.stream import RNG
for w in range(1, 6):
    hw, sw = {"width": w, "dimr": 2, "rng": "Sobol"}, {"rtype": torch.float}
    want = torch.quasirandom.SobolEngine(2).draw(2 ** w)[:, 1].mul(2 ** w).floor().tolist()
    for k in range(3):
        assert RNG(hw, sw)().tolist() == want, (w, k)
''')
