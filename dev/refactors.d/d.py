SETS["d"] = [
# rnn
("kernel/rnn.py", """        self.hwcfg = {}
        self.hwcfg["width"] = hwcfg["width"]
        self.hwcfg["mode"] = hwcfg["mode"].lower()
        self.hwcfg["depth"] = hwcfg["depth"]
        self.hwcfg["depth_ismul"] = hwcfg["depth_ismul"]
        self.hwcfg["rng"] = hwcfg["rng"].lower()
        self.hwcfg["dimr"] = hwcfg["dimr"]

        self.swcfg = {}
        self.swcfg["btype"] = swcfg["btype"]
        self.swcfg["rtype"] = swcfg["rtype"]
        self.swcfg["stype"] = swcfg["stype"]

        self.input_size = input_size
        self.hidden_size = hidden_size

        assert self.hwcfg["mode"]""", """        names = ("width", "mode", "depth", "depth_ismul", "rng", "dimr")
        self.hwcfg = {k: hwcfg[k].lower() if k in ("mode", "rng") else hwcfg[k] for k in names}
        self.swcfg = dict((k, swcfg[k]) for k in ("btype", "rtype", "stype"))

        self.input_size, self.hidden_size = input_size, hidden_size

        assert self.hwcfg["mode"]"""),
("kernel/rnn.py", """        hwcfg_linear={
            "width" : self.hwcfg["width"],
            "mode" : self.hwcfg["mode"],
            "scale" : 1,
            "depth" : self.hwcfg["depth"],
            "rng" : self.hwcfg["rng"],
            "dimr" : self.hwcfg["dimr"]
        }
        self.fg_ug_tanh = FSULinear(hidden_size + input_size, hidden_size, bias=bias, 
                                            weight_ext=weight_ext_f, bias_ext=bias_ext_f, 
                                            hwcfg=hwcfg_linear, swcfg=swcfg)
        self.ng_ug_tanh = FSULinear(hidden_size + input_size, hidden_size, bias=bias, 
                                            weight_ext=weight_ext_n, bias_ext=bias_ext_n, 
                                            hwcfg=hwcfg_linear, swcfg=swcfg)
""", """        def gate(weight, b):
            cfg = dict(self.hwcfg, scale=1)
            cfg.pop("depth_ismul")
            return FSULinear(hidden_size + input_size, hidden_size, bias=bias, weight_ext=weight, bias_ext=b, hwcfg=cfg, swcfg=swcfg)
        self.fg_ug_tanh = gate(weight_ext_f, bias_ext_f)
        self.ng_ug_tanh = gate(weight_ext_n, bias_ext_n)
"""),
("kernel/rnn.py", """        hwcfg_hx_mul={
            "width" : self.hwcfg["width"],
            "mode" : self.hwcfg["mode"],
            "static" : True,
            "rng" : self.hwcfg["rng"],
            "dimr" : self.hwcfg["dimr"]
        }
        self.fg_hx_mul = FSUMul(in_1_prob=hx_buffer, hwcfg=hwcfg_hx_mul, swcfg=swcfg)
        hwcfg_ng_mul={
            "width" : self.hwcfg["depth_ismul"],
            "mode" : self.hwcfg["mode"],
            "static" : False,
            "rng" : self.hwcfg["rng"],
            "dimr" : self.hwcfg["dimr"]
        }
        self.fg_ng_mul = FSUMul(in_1_prob=None, hwcfg=hwcfg_ng_mul, swcfg=swcfg)
""", """        for name, prob, static, width in (("fg_hx_mul", hx_buffer, True, self.hwcfg["width"]),
                                          ("fg_ng_mul", None, False, self.hwcfg["depth_ismul"])):
            cfg = {"width": width, "static": static}
            cfg.update({k: v for k, v in self.hwcfg.items() if k in ("mode", "rng", "dimr")})
            setattr(self, name, FSUMul(in_1_prob=prob, hwcfg=cfg, swcfg=swcfg))
"""),
("kernel/rnn.py", """        self.check_forward_hidden(input, hx, '')

        # forget gate
        self.fg_ug_in = torch.cat((hx, input), 1)
        self.fg_in = self.fg_ug_tanh(self.fg_ug_in)
        self.fg = self.fg_sigmoid(torch.stack([self.fg_in, torch.ones_like(self.fg_in)], dim=0))
        
        # new gate
        self.fg_hx = self.fg_hx_mul(self.fg)
        self.ng_ug_in = torch.cat((self.fg_hx, input), 1)
        self.ng = self.ng_ug_tanh(self.ng_ug_in)

        # output
        self.fg_ng = self.fg_ng_mul(self.fg, self.ng)
        self.fg_ng_inv = 1 - self.fg_ng
        hy = self.hy_add(torch.stack([self.ng, self.fg_ng_inv, self.fg_hx], dim=0))
        return hy
""", """        self.check_forward_hidden(input, hx)
        self._forget_gate(input, hx)
        self._new_gate(input)
        return self._output()

    def _forget_gate(self, input, hx):
        self.fg_ug_in = torch.hstack((hx, input))
        self.fg_in = self.fg_ug_tanh(self.fg_ug_in)
        one = torch.full_like(self.fg_in, 1)
        self.fg = self.fg_sigmoid(torch.stack((one, self.fg_in)))

    def _new_gate(self, input):
        self.fg_hx = self.fg_hx_mul(self.fg)
        self.ng_ug_in = torch.cat([self.fg_hx, input], dim=-1)
        self.ng = self.ng_ug_tanh(self.ng_ug_in)

    def _output(self):
        self.fg_ng = self.fg_ng_mul(self.fg, self.ng)
        self.fg_ng_inv = torch.logical_not(self.fg_ng).type(self.fg_ng.dtype)
        return self.hy_add(torch.stack((self.fg_hx, self.ng, self.fg_ng_inv), 0))
"""),
("kernel/rnn.py", """        self.hwcfg_ope = copy.deepcopy(self.hwcfg)
        self.hwcfg_ope["scale"] = 1
""", """        self.hwcfg_ope = {**self.hwcfg, "scale": 1}
"""),
("kernel/rnn.py", """        iSource = BinGen(input, self.hwcfg, self.swcfg)().to(input.device)
        iRNG = RNG(self.hwcfg, self.swcfg)().to(input.device)
        iBSG = BSGen(iSource, iRNG, self.swcfg).to(input.device)

        hSource = BinGen(hx, self.hwcfg, self.swcfg)().to(input.device)
        hRNG = RNG(self.hwcfg, self.swcfg)().to(input.device)
        hBSG = BSGen(hSource, hRNG, self.swcfg).to(input.device)

        oPE""", """        rng = RNG(self.hwcfg, self.swcfg)().to(input.device)
        def stream(value):
            source = BinGen(value, self.hwcfg, self.swcfg)().to(input.device)
            return source, BSGen(source, rng, self.swcfg).to(input.device)
        iSource, iBSG = stream(input)
        hSource, hBSG = stream(hx)

        oPE"""),
("kernel/rnn.py", """        for c in range(2**self.hwcfg["width"]):
            idx = torch.zeros(iSource.size(), dtype=torch.long, device=input.device)
            iBS = iBSG(idx + c)

            hdx = torch.zeros(hSource.size(), dtype=torch.long, device=input.device)
            hBS = hBSG(hdx + c)

            oBS = rnncell(iBS, hBS)
            oPE.Monitor(oBS)

        hy = oPE()[0]
        return hy
""", """        cycle = 0
        while cycle < 1 << self.hwcfg["width"]:
            bits = [bsg(torch.full(src.shape, cycle, dtype=torch.long, device=input.device))
                    for src, bsg in ((iSource, iBSG), (hSource, hBSG))]
            oPE.Monitor(rnncell(*bits))
            cycle += 1

        pp, _ = oPE()
        return pp
"""),
("kernel/rnn.py", """        self.fg_ug_in = torch.cat((hx, input), 1)
        self.fg_in = HUBHardtanh()(F.linear(self.fg_ug_in, self.weight_f, self.bias_f))
        self.fg = self.fg_sigmoid(self.fg_in)
        
        # new gate
        self.fg_hx = self.fg * hx
        self.ng_ug_in = torch.cat((self.fg_hx, input), 1)
        self.ng = self.ng_tanh(F.linear(self.ng_ug_in, self.weight_n, self.bias_n))

        # output
        self.fg_ng = self.fg * self.ng
        self.fg_ng_inv = 0 - self.fg_ng
        hy = HUBHardtanh()(self.ng + self.fg_ng_inv + self.fg_hx)
        return hy
""", """        clip = HUBHardtanh()
        self.fg_ug_in = torch.cat((hx, input), 1)
        fg_lin = torch.matmul(self.fg_ug_in, self.weight_f.t())
        if self.bias:
            fg_lin = fg_lin + self.bias_f
        self.fg_in = clip(fg_lin)
        self.fg = self.fg_sigmoid(self.fg_in)
        
        # new gate
        self.fg_hx = torch.mul(hx, self.fg)
        self.ng_ug_in = torch.cat((self.fg_hx, input), 1)
        self.ng = self.ng_tanh(F.linear(self.ng_ug_in, self.weight_n, self.bias_n))

        # output
        self.fg_ng = self.ng * self.fg
        self.fg_ng_inv = -self.fg_ng
        return clip(self.fg_hx + self.ng - self.fg_ng)
"""),
# HUB convolution
("kernel/conv.py", """        self.mapctler = torch.nn.Parameter(torch.empty(self.cycle_max), requires_grad=False)
        cycle_ctlerval = torch.empty(0)
        torch.cat(self.cycle_max*[torch.arange(self.cycle_max, dtype=torch.float).unsqueeze(1)], 1, out=cycle_ctlerval)
        cycle_ctlerbit = torch.empty(0)
        torch.gt(cycle_ctlerval, self.rngctler.unsqueeze(0), out=cycle_ctlerbit)
        self.mapctler.data = torch.sum(cycle_ctlerbit, 1).squeeze_().type(torch.long)

        # dim 0 is input index, dim 1 is weight index
        # the tensor value is the actual weight value produced by the rngctlee, under a specific input and weight
        self.mapctlee = torch.nn.Parameter(torch.empty(self.cycle_max, self.cycle_max), requires_grad=False)
        cycle_ctleebit = torch.empty(0)
        torch.gt(cycle_ctlerval, self.rngctlee.unsqueeze(0), out=cycle_ctleebit)
        for c in range(self.cycle_max):
            self.mapctlee.data[c] = torch.sum(cycle_ctleebit[:, 0:self.mapctler.data[c]], 1).squeeze_()
        
        self.rshift_i = None
        self.rshift_w = None
        self.rshift_o = None
""", """        value = torch.arange(self.cycle_max, dtype=torch.float).view(-1, 1)
        self.mapctler = torch.nn.Parameter((value > self.rngctler).sum(dim=1).type(torch.long), requires_grad=False)

        # dim 0 is input index, dim 1 is weight index
        # the tensor value is the actual weight value produced by the rngctlee, under a specific input and weight
        prefix = torch.cumsum((value > self.rngctlee).type(torch.float), dim=1)
        prefix = torch.cat((torch.zeros(self.cycle_max, 1), prefix), 1)
        self.mapctlee = torch.nn.Parameter(torch.index_select(prefix, 1, self.mapctler).t().contiguous(), requires_grad=False)

        self.rshift_i = self.rshift_w = self.rshift_o = None
"""),
("kernel/conv.py", """        input_im2col = torch.nn.functional.unfold(input, self.kernel_size, self.dilation, self.padding, self.stride)
        input_transpose = input_im2col.transpose(1, 2)
        input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])

        weight = self.weight.view(self.weight.size()[0], -1)
        mm_out = HUBLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.cycle_act, self.mapctlee)
        mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
        mm_out_transpose = mm_out_reshape.transpose(1, 2)
        output = torch.nn.functional.fold(mm_out_transpose, output_size, (1, 1))

        if self.bias is None:
            return output
        else:
            return output + self.bias.view([1, self.bias.size()[0], 1, 1])
""", """        n = input.size(0)
        cols = torch.nn.functional.unfold(input, self.kernel_size, dilation=self.dilation, padding=self.padding, stride=self.stride)
        rows = cols.permute(0, 2, 1).flatten(0, 1)
        out = HUBLinearFunction.apply(rows, self.weight.flatten(1), None, self.rshift_i, self.rshift_w, self.rshift_o, self.cycle_act, self.mapctlee)
        out = out.view(n, output_size[0], output_size[1], self.out_channels).permute(0, 3, 1, 2)
        if self.bias is not None:
            out = out + self.bias[None, :, None, None]
        return out
"""),
("kernel/conv.py", """        if (self.hwcfg["formati"] in ["fxp"]) and (self.hwcfg["formatw"] in ["fxp"]):
            self.mode = "fxpfxp"
        elif (self.hwcfg["formati"] not in ["fxp"]) and (self.hwcfg["formatw"] not in ["fxp"]):
            self.mode = "fpfp"
        else:
            self.mode = "fxpfp"
""", """        n_fxp = [self.hwcfg[k] for k in ("formati", "formatw")].count("fxp")
        self.mode = ("fpfp", "fxpfp", "fxpfxp")[n_fxp]
"""),
("kernel/conv.py", """        if self.hwcfg["temporal"] in ["i", "input"]:
            if self.hwcfg["formati"] in ["fxp"]:
                self.width = self.hwcfg["widthi"] - 1
            elif self.hwcfg["formati"] in ["bfloat16"]:
                self.width = 8
            elif self.hwcfg["formati"] in ["float16"]:
                self.width = 11
            elif self.hwcfg["formati"] in ["float32"]:
                self.width = 24
        elif self.hwcfg["temporal"] in ["w", "weight"]:
            if self.hwcfg["formatw"] in ["fxp"]:
                self.width = self.hwcfg["widthw"] - 1
            elif self.hwcfg["formatw"] in ["bfloat16"]:
                self.width = 8
            elif self.hwcfg["formatw"] in ["float16"]:
                self.width = 11
            elif self.hwcfg["formatw"] in ["float32"]:
                self.width = 24
        
        self.degree = int(math.ceil(self.width / self.hwcfg["widtht"]))
        self.delta = int(self.degree * self.hwcfg["widtht"] - self.width)
""", """        side = self.hwcfg["temporal"][0]
        mantissa = dict(bfloat16=8, float16=11, float32=24)
        self.width = mantissa.get(self.hwcfg["format" + side], self.hwcfg["width" + side] - 1)

        self.degree, rest = divmod(self.width, self.hwcfg["widtht"])
        self.delta = 0
        if rest:
            self.degree += 1
            self.delta = self.hwcfg["widtht"] - rest
"""),
# linear
("kernel/linear.py", """        buf_i = torch.empty(0, dtype=torch.long, device=input.device)
        torch.abs(rshift(input, rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
        torch.clamp(buf_i, 0, cycle-1, out=buf_i)
        
        # actual input: its sign
        act_input = torch.empty(0, device=input.device)
        torch.sign(input, out=act_input)
        act_input.unsqueeze_(1)
        
""", """        def level(x, offset):
            return rshift(x, offset).round().type(torch.long).abs().clamp(min=0, max=cycle - 1)
        buf_i = level(input, rshift_i)[:, None, :]
        act_input = input.sign()[:, None, :]
"""),
("kernel/linear.py", """        buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
        torch.abs(rshift(weight, rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
        torch.clamp(buf_w_no_batch, 0, cycle-1, out=buf_w_no_batch)
        buf_w = torch.empty(0, dtype=torch.long, device=weight.device)
        torch.cat(batch*[buf_w_no_batch], 0, out=buf_w)

        # get actual weight for calculation
        sign_wght_no_batch = torch.empty(0, device=weight.device)
        torch.sign(weight, out=sign_wght_no_batch)
        sign_wght_no_batch.unsqueeze_(0)
        act_wght = torch.empty(0, device=weight.device)
        torch.cat(batch*[sign_wght_no_batch], 0, out=act_wght)
        torch.mul(mapcbsg[buf_i, buf_w], act_wght, out=act_wght)
        
        output = torch.empty(0, device=weight.device)
        torch.matmul(act_input, act_wght.transpose(1, 2), out=output)
        
        output = rshift(output, rshift_o).squeeze_(1)
        
        if bias is not None:
            output += bias.unsqueeze(0).expand_as(output)
        return output
""", """        buf_w = level(weight, rshift_w).unsqueeze(0).expand(batch, -1, -1)
        product = mapcbsg[buf_i, buf_w] * weight.sign() * act_input
        output = rshift(product.sum(dim=-1), rshift_o)
        if bias is not None:
            output = output + bias
        return output
"""),
# metrics
("metric/metric.py", """        self.pp.data = self.one_cnt.div(self.cycle)
        if self.mode == "bipolar":
            self.pp.data = self.pp.mul(2).sub(1)
        self.pe.data = self.pp.sub(self.source)
        return self.pp, self.pe
""", """        ratio = self.one_cnt / self.cycle
        self.pp.data = 2 * ratio - 1 if self.mode == "bipolar" else ratio
        self.pe.data = self.pp - self.source
        return (self.pp, self.pe)
"""),
("metric/metric.py", """        self.cycle_to_stable.add_(torch.gt(self.pe.abs(), self.threshold).type(torch.float).mul_(self.cycle - self.cycle_to_stable))
        
    def forward(self):
        self.stability = 1 - self.cycle_to_stable.clamp(1, self.cycle.item()).div(self.cycle)
""", """        unstable = abs(self.pe) > self.threshold
        self.cycle_to_stable = torch.where(unstable, self.cycle.data.expand_as(self.cycle_to_stable), self.cycle_to_stable)
        
    def forward(self):
        total = self.cycle.item()
        self.stability = 1 - torch.clamp(self.cycle_to_stable, min=1, max=total) / total
"""),
# utils
("kernel/utils.py", """        quantile_i_upper = 0.5 - quantilei / 2
        quantile_i_lower = 0.5 + quantilei / 2
        lower_bound_i = torch.quantile(input, quantile_i_lower)
        upper_bound_i = torch.quantile(input, quantile_i_upper)
        scale_i = torch.max(lower_bound_i.abs(), upper_bound_i.abs())
        imax_int = scale_i.log2()

        quantile_w_upper = 0.5 - quantilew / 2
        quantile_w_lower = 0.5 + quantilew / 2
        lower_bound_w = torch.quantile(weight, quantile_w_lower)
        upper_bound_w = torch.quantile(weight, quantile_w_upper)
        scale_w = torch.max(lower_bound_w.abs(), upper_bound_w.abs())
        wmax_int = scale_w.log2()

        if rounding == "round":
            imax_int = imax_int.round()
            wmax_int = wmax_int.round()
        elif rounding == "floor":
            imax_int = imax_int.floor()
            wmax_int = wmax_int.floor()
        elif rounding == "ceil":
            imax_int = imax_int.ceil()
            wmax_int = wmax_int.ceil()
""", """        imax_int = _log2_range(input, quantilei, rounding)
        wmax_int = _log2_range(weight, quantilew, rounding)
"""),
("kernel/utils.py", """def rshift_offset(""", """_ROUNDING = {"round": torch.round, "floor": torch.floor, "ceil": torch.ceil}


def _log2_range(data, quantile, rounding):
    bounds = [torch.quantile(data, 0.5 + s * quantile / 2).abs() for s in (1, -1)]
    exponent = torch.maximum(*bounds).log2()
    if rounding in _ROUNDING:
        exponent = _ROUNDING[rounding](exponent)
    return exponent


def rshift_offset("""),
("kernel/utils.py", """        if hasattr(module, 'weight'):
            w = module.weight.data
            self.clipping(w)
        
        if hasattr(module, 'bias') and module.bias is not None:
            w = module.bias.data
            self.clipping(w)
""", """        for name in ('weight', 'bias'):
            parameter = getattr(module, name, None)
            if parameter is not None:
                self.clipping(parameter.data)
"""),
("kernel/utils.py", """            if self.method == "norm":
                w.sub_(torch.min(w)).div_(torch.max(w) - torch.min(w)) \\
                .mul_(self.scale)""", """            if self.method == "norm":
                low, high = w.min().clone(), w.max().clone()
                w.sub_(low).div_(high - low) \\
                .mul_(self.scale)"""),
("kernel/utils.py", """    h_w, kernel_size, stride, pad, dilation = num2tuple(h_w), \\
        num2tuple(kernel_size), num2tuple(stride), num2tuple(pad), num2tuple(dilation)
    pad = num2tuple(pad[0]), num2tuple(pad[1])
    
    h = math.floor((h_w[0] + sum(pad[0]) - dilation[0]*(kernel_size[0]-1) - 1) / stride[0] + 1)
    w = math.floor((h_w[1] + sum(pad[1]) - dilation[1]*(kernel_size[1]-1) - 1) / stride[1] + 1)
    
    return h, w
""", """    h_w, kernel_size, stride, pad, dilation = map(num2tuple, (h_w, kernel_size, stride, pad, dilation))
    return tuple((n + sum(num2tuple(p)) - d*(k - 1) - 1) // s + 1
                 for n, k, s, p, d in zip(h_w, kernel_size, stride, pad, dilation))
"""),
("kernel/utils.py", """    return (math.floor(p_h/2), math.ceil(p_h/2)), (math.floor(p_w/2), math.ceil(p_w/2))


def convtransp2d_get""", """    return tuple((p // 2, p - p // 2) for p in (p_h, p_w))


def convtransp2d_get"""),
# activations
("kernel/relu.py", """        half_prob_flag = torch.ge(self.acc, self.buf_half).type(torch.int8)
        # only when input is 0 and flag is 1, output 0; otherwise 1
        output = input.type(torch.int8) | (1 - half_prob_flag)
        # update the accumulator based on output, thus acc update is after output generation
        self.acc.data = self.acc.add(output.mul(2).sub(1).type(self.btype)).clamp(0, self.buf_max)
""", """        below = self.acc < self.buf_half
        # only when input is 0 and flag is 1, output 0; otherwise 1
        output = torch.logical_or(input, below)
        # update the accumulator based on output, thus acc update is after output generation
        step = torch.where(output, 1, -1).type(self.btype)
        self.acc.data = torch.clamp(self.acc + step, min=0, max=self.buf_max)
"""),
("kernel/sigmoid.py", """        hwcfg_add = {}
        hwcfg_add["depth"] = hwcfg["depth"]
        hwcfg_add["mode"] = hwcfg["mode"].lower()
        hwcfg_add["scale"] = 2
        hwcfg_add["dima"] = 0
        hwcfg_add["entry"] = None
        self.sadd = FSUAdd(hwcfg_add, swcfg)
""", """        self.sadd = FSUAdd(dict(self.hwcfg, scale=2, dima=0, entry=2), swcfg)
"""),
("kernel/sigmoid.py", """        return torch.nn.Hardsigmoid()(x * self.scale)""", """        return torch.nn.functional.relu6(self.scale * x + 3) / 6"""),
]
