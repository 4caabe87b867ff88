# behaviour-preserving edits that use less common parts of the language
L, U, G, SH, MT = "kernel/linear.py", "kernel/utils.py", "stream/gen.py", "stream/shuffle.py", "metric/metric.py"
SETS["j"] = [
    # FSUSqrt: in unipolar mode the flip-flop holds 0 whenever the output is 0
    ("kernel/sqrt.py", "            trace = self.jkff(output, torch.ones_like(output))",
     "            # trace and the flip-flop agree, and a set trace forces the output to 1\n            trace = self.jkff(output, output if self.mode == \"unipolar\" else torch.ones_like(output))"),
    # a generator of digits, shared by the T-LUT functions
    (L, "# Inherit from Function\nclass TLUTLinearFXPFXPFunction", """def _digits(value, widtht, degree, bounds):
    \"\"\"the widtht-bit digits of value, the least significant one first\"\"\"
    lo, hi = bounds
    for _ in range(degree):
        value = rshift(value, widtht)
        yield lshift(torch.frac(value), widtht).clamp(lo, hi)
        value = torch.trunc(value)


# Inherit from Function
class TLUTLinearFXPFXPFunction"""),
    (L, """            for i in range(degree):
                weight_fp32 = rshift(weight_fp32, widtht)
                torch.frac(weight_fp32, out=frac)
                torch.trunc(weight_fp32, out=weight_fp32)
                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
                torch.add(rshift(frac, widtht), rshift(weight_new, widtht), out=weight_new)
""", """            for digit in _digits(weight_fp32, widtht, degree, (cycle_neg+1, cycle_pos-1)):
                weight_new = rshift(digit, widtht) + rshift(weight_new, widtht)
"""),
    (L, """        mantissa = lshift(mantissa, width)
        for i in range(degree):
            mantissa = rshift(mantissa, widtht)
            torch.frac(mantissa, out=frac)
            torch.trunc(mantissa, out=mantissa)
            torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
            torch.add(rshift(frac, widtht), rshift(mantissa_new, widtht), out=mantissa_new)
""", """        digits = _digits(lshift(mantissa, width), widtht, degree, bounds=(cycle_neg+1, cycle_pos-1))
        while (digit := next(digits, None)) is not None:
            mantissa_new = rshift(digit, widtht) + rshift(mantissa_new, widtht)
"""),
    # a context attribute instead of a saved None
    (L, """        ctx.save_for_backward(input, weight, bias)
        
        # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
        # input preparation""", """        ctx.bias_used = bias is not None
        ctx.save_for_backward(input, weight, bias)
        
        # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
        # input preparation"""),
    # memoised shape helpers, a context manager around no_grad
    (U, "import math\n", "import math\nfrom contextlib import contextmanager\nfrom functools import lru_cache\n"),
    (U, "def num2tuple(num):\n    return", "@lru_cache(maxsize=None)\ndef num2tuple(num):\n    return"),
    (U, "def rshift_offset(", """@contextmanager
def _no_history():
    old = torch.is_grad_enabled()
    torch.set_grad_enabled(False)
    try:
        yield
    finally:
        torch.set_grad_enabled(old)


def rshift_offset("""),
    (U, "    with torch.no_grad():\n        quantile_i_upper", "    with _no_history():\n        quantile_i_upper"),
    (U, """        if rounding == "round":
            imax_int = imax_int.round()
            wmax_int = wmax_int.round()
        elif rounding == "floor":
            imax_int = imax_int.floor()
            wmax_int = wmax_int.floor()
        elif rounding == "ceil":
            imax_int = imax_int.ceil()
            wmax_int = wmax_int.ceil()
""", """        match rounding:
            case "round" | "floor" | "ceil":
                imax_int, wmax_int = (getattr(x, rounding)() for x in (imax_int, wmax_int))
"""),
    # RNG families as an enumeration with string values; itertools in the LFSR
    (G, "from math import log2, ceil, floor\n", """from math import log2, ceil, floor
from enum import Enum
from itertools import islice

class Family(str, Enum):
    SOBOL = "sobol"
    RC = "rc"
    RACE = "race"
    TC = "tc"
    RACE10 = "race10"
    TC10 = "tc10"
    LFSR = "lfsr"
    SYS = "sys"
"""),
    (G, """        assert self.rng in ["sobol", "race", "lfsr", "sys", "rc", "tc", "race10", "tc10"], \\""",
     """        assert self.rng in [f.value for f in Family], \\"""),
    (G, """        if (self.rng == "sobol") or (self.rng == "rc"):""", """        family = Family(self.rng)
        if family in (Family.SOBOL, Family.RC):"""),
    (G, """        elif (self.rng == "race") or (self.rng == "tc"):""", """        elif family is Family.RACE or family is Family.TC:"""),
    (G, """    lfsr_seq = []
    for i in range(2**width):
        value = 0
        for j in range(width):
            value = value + L.state[j]*2**(width-1-j)
        lfsr_seq.append(value)
        L.next()
    return lfsr_seq
""", """    def states():
        while True:
            yield sum(bit * 2**(width-1-j) for j, bit in enumerate(L.state))
            L.next()
    return list(islice(states(), 2**width))
"""),
    # a frozen dataclass for the accumulator range and a cached property
    (SH, "import torch\n", "import torch\nfrom dataclasses import dataclass\nfrom functools import cached_property\n\n@dataclass(frozen=True)\nclass AccRange:\n    depth: int\n\n    @property\n    def hi(self):\n        return 2**(self.depth-2)\n\n    @property\n    def lo(self):\n        return -self.hi\n\n    def __call__(self, value):\n        return value.clamp(self.lo, self.hi)\n"),
    (SH, """        self.accumulator.data = self.accumulator.add(input.type(self.btype)*2 - 1).clamp(self.acc_min, self.acc_max)
""", """        self.accumulator.data = self.acc_range(self.accumulator.add(input.type(self.btype)*2 - 1))
"""),
    (SH, """    def forward(self, input):
        # calculate (2*input-1)/1
""", """    @cached_property
    def acc_range(self):
        return AccRange(self.depth)

    def forward(self, input):
        # calculate (2*input-1)/1
"""),
    # named counts
    (MT, """        ad_minus_bc = self.paired_11_a * self.paired_00_d - self.paired_10_b * self.paired_01_c
""", """        from collections import namedtuple
        counts = namedtuple("counts", "a b c d")(self.paired_11_a, self.paired_10_b, c=self.paired_01_c, d=self.paired_00_d)
        ad_minus_bc = counts.a * counts.d - counts.b * counts.c
"""),
    (MT, """        in_1_is_0 = torch.eq(in_1, 0).type(torch.float)
        in_1_is_1 = 1 - in_1_is_0
        in_2_is_0 = torch.eq(in_2, 0).type(torch.float)
        in_2_is_1 = 1 - in_2_is_0
""", """        (in_1_is_0, in_1_is_1), (in_2_is_0, in_2_is_1) = map(
            lambda x: ((z := torch.eq(x, 0).type(torch.float)), 1 - z), (in_1, in_2))
"""),
    # an exception used for the early case
    ("kernel/add.py", """        if self.first:
            if entry is not None:""", """        try:
            if not self.first:
                raise StopIteration
            if entry is not None:"""),
    ("kernel/add.py", """            self.first = False
        else:
            pass
""", """            self.first = False
        except StopIteration:
            pass
"""),
    # a descriptor-free mixin with __init_subclass__-free defaults
    ("kernel/relu.py", """        output = input.type(torch.int8) | (1 - half_prob_flag)
""", """        bits = iter([input.type(torch.int8), 1 - half_prob_flag])
        output = next(bits) | next(bits)
"""),
]
