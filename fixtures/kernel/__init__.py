"""Deliberately broken (and one correct) units: every rule must fire on its unit and stay silent on
the correct one.  Never imported, only analysed."""
import torch

TABLE = [0]


class Good(torch.nn.Module):
    """running OR of the input bits"""
    def __init__(self, hwcfg={"width": 2}):
        super(Good, self).__init__()
        self.width = hwcfg["width"]
        self.acc = torch.nn.Parameter(torch.zeros(1).type(torch.float), requires_grad=False)

    def forward(self, input):
        self.acc.data = torch.max(self.acc, input)
        return self.acc + 0


class WritesInput(Good):
    def forward(self, input):
        r = super(WritesInput, self).forward(input)
        input.mul_(0)
        return r


class WritesConfig(Good):
    def __init__(self, hwcfg={"width": 2}):
        super(WritesConfig, self).__init__(hwcfg)
        hwcfg["width"] = 3


class KeepsConfig(Good):
    def __init__(self, hwcfg={"width": 2}):
        super(KeepsConfig, self).__init__(hwcfg)
        self.hwcfg = hwcfg

    def forward(self, input):
        return super(KeepsConfig, self).forward(input) * (self.hwcfg["width"] - 1)


class SharesState(Good):
    def __init__(self, hwcfg={"width": 2}):
        super(SharesState, self).__init__(hwcfg)
        self.table = TABLE

    def forward(self, input):
        self.table[0] = 1
        return super(SharesState, self).forward(input) * (1 - self.table[0])


class ReturnsState(Good):
    def forward(self, input):
        self.acc.data = torch.max(self.acc, input)
        self.acc.data.mul_(input)
        return self.acc.data


class Random(Good):
    def forward(self, input):
        return super(Random, self).forward(input) * torch.rand(1)


class CountsUp(Good):
    def forward(self, input):
        self.acc.data = torch.clamp(self.acc + input, 0, 5)
        return torch.ge(self.acc, 5).type(torch.float) * 2


class Mixes(Good):
    def forward(self, input):
        return torch.gt(torch.sum(super(Mixes, self).forward(input)), 1).type(torch.float) + input * 0


class Crashes(Good):
    def forward(self, input):
        r = super(Crashes, self).forward(input)
        if torch.sum(r).item() == 2:
            raise ValueError("full")
        return r


class Strict(Good):
    def __init__(self, hwcfg={"width": 2}):
        super(Strict, self).__init__(hwcfg)
        assert hwcfg["width"] == 2, "Error"


class BadGradF(torch.autograd.Function):
    @staticmethod
    def forward(ctx, input, weight, bias=None):
        ctx.save_for_backward(input, weight, bias)
        return torch.matmul(input, weight.t()).round()

    @staticmethod
    def backward(ctx, g):
        input, weight, bias = ctx.saved_tensors
        return g.matmul(weight), input.t().matmul(g), None


class BadGrad(torch.nn.Module):
    def __init__(self, weight):
        super(BadGrad, self).__init__()
        self.weight = weight

    def forward(self, input):
        return BadGradF.apply(input, self.weight, None)
