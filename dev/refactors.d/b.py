_LIN_CFG = """        self.hwcfg = {}
        self.hwcfg["width"] = hwcfg["width"]
        self.hwcfg["mode"] = hwcfg["mode"].lower()
        self.hwcfg["rng"] = hwcfg["rng"].lower()
        self.hwcfg["dimr"] = hwcfg["dimr"]

        self.swcfg = {}
        self.swcfg["btype"] = swcfg["btype"]
        self.swcfg["rtype"] = swcfg["rtype"]
        self.swcfg["stype"] = swcfg["stype"]
"""
_PROD1 = """        ibit_i1 = input.unsqueeze(1).type(torch.float)
        obin_i1 = torch.empty(0, device=input.device)
        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
        obin_i1.squeeze_(1)
        
        if self.has_bias is True:
            bbit = self.bbsg(self.brdx).type(torch.float)
            self.brdx.add_(1)
            obin_i1 += bbit.unsqueeze(0).expand_as(obin_i1)

        if self.mode == "unipolar":
            return obin_i1
"""
SETS["b"] = [
("kernel/linear.py", _LIN_CFG, """        self.hwcfg = {key : hwcfg[key] for key in ("width", "mode", "rng", "dimr")}
        for key in ("mode", "rng"):
            self.hwcfg[key] = self.hwcfg[key].lower()

        self.swcfg = dict((key, swcfg[key]) for key in ["btype", "rtype", "stype"])
"""),
("kernel/linear.py", """        self.scale = hwcfg["scale"]
        if self.scale is None:
            scale_add = in_features + bias
        else:
            scale_add = self.scale
        hwcfg_acc = copy.deepcopy(self.hwcfg)
        hwcfg_acc["scale"] = scale_add
        hwcfg_acc["entry"] = in_features + bias
        # the pc result is unsqueezed before fed to the accumulator, so accumulation dim of FSUAdd is 0.
        hwcfg_acc["dima"] = 0
        self.ACC = FSUAdd(
            hwcfg_acc,
            self.swcfg)""", """        entries = in_features + bias
        self.scale = hwcfg["scale"]
        scale_add = entries if self.scale is None else self.scale
        # the pc result is unsqueezed before fed to the accumulator, so accumulation dim of FSUAdd is 0.
        self.ACC = FSUAdd(dict(self.hwcfg, scale=scale_add, entry=entries, dima=0), self.swcfg)"""),
("kernel/linear.py", """        if hwcfg["rng"].lower() in ["race", "tc", "race10", "tc10"]:
            self.wtc = True
        else:
            self.wtc = False
""", """        self.wtc = self.hwcfg["rng"] in {"race", "tc", "race10", "tc10"}
"""),
("kernel/linear.py", _PROD1, """        ibit_i1, obin_i1 = self._products(input, wbit_i1)
        self._add_bias(obin_i1)

        if self.mode == "unipolar":
            return obin_i1
"""),
("kernel/linear.py", """    def FSULinear_PC_wrc(self, input):""", """    def _products(self, input, wbit):
        ibit = input.unsqueeze(1).type(torch.float)
        obin = torch.bmm(ibit, wbit.transpose(-1, -2))
        return ibit, obin[:, 0]

    def _add_bias(self, count):
        if not self.has_bias:
            return
        bbit = self.bbsg(self.brdx).type(torch.float)
        self.brdx += 1
        count.add_(bbit[None, :])

    def FSULinear_PC_wrc(self, input):"""),
("kernel/linear.py", """        torch.add(self.wrdx_i1, input.unsqueeze(1).type(torch.long), out=self.wrdx_i1)
""", """        self.wrdx_i1 = self.wrdx_i1 + input[:, None, :].long()
"""),
("kernel/linear.py", """        torch.add(self.wrdx_i1, torch.ones_like(input).unsqueeze(1).type(torch.long), out=self.wrdx_i1)
""", """        self.wrdx_i1 = self.wrdx_i1 + 1
"""),
("kernel/linear.py", """            torch.add(self.wrdx_i0, 1 - input.unsqueeze(1).type(torch.long), out=self.wrdx_i0)
""", """            self.wrdx_i0 += 1 - input.long().unsqueeze(1)
"""),
("kernel/linear.py", """        if self.wtc:
            return self.FSULinear_PC_wtc(input).type(self.swcfg["stype"])
        else:
            return self.FSULinear_PC_wrc(input).type(self.swcfg["stype"])""", """        count = {True: self.FSULinear_PC_wtc, False: self.FSULinear_PC_wrc}[self.wtc]
        return count(input).to(self.swcfg["stype"])"""),
# HUB
("kernel/linear.py", """        self.mapctler = torch.nn.Parameter(torch.empty(self.cycle_max), requires_grad=False)
        cycle_ctlerval = torch.empty(0)
        torch.cat(self.cycle_max*[torch.arange(self.cycle_max, dtype=torch.float).unsqueeze(1)], 1, out=cycle_ctlerval)
        cycle_ctlerbit = torch.empty(0)
        torch.gt(cycle_ctlerval, self.rngctler.unsqueeze(0), out=cycle_ctlerbit)
        self.mapctler.data = torch.sum(cycle_ctlerbit, 1).squeeze_().type(torch.long)
""", """        values = torch.arange(self.cycle_max, dtype=torch.float).unsqueeze(1)
        cycle_ctlerval = values.repeat(1, self.cycle_max)
        cycle_ctlerbit = (cycle_ctlerval > self.rngctler).float()
        self.mapctler = torch.nn.Parameter(cycle_ctlerbit.sum(1).long(), requires_grad=False)
"""),
("kernel/linear.py", """        cycle_ctleebit = torch.empty(0)
        torch.gt(cycle_ctlerval, self.rngctlee.unsqueeze(0), out=cycle_ctleebit)
        for c in range(self.cycle_max):
            self.mapctlee.data[c] = torch.sum(cycle_ctleebit[:, 0:self.mapctler.data[c]], 1).squeeze_()
        """, """        cycle_ctleebit = torch.gt(cycle_ctlerval, self.rngctlee.unsqueeze(0)).float()
        for c, ones in enumerate(self.mapctler.tolist()):
            self.mapctlee.data[c] = cycle_ctleebit[:, :ones].sum(dim=1)
        """),
("kernel/linear.py", """        if (self.itc) and (not self.wtc):
            # cbsg controller is input
            self.rngctler = self.irng
            self.rngctlee = self.wrng
        elif (not self.itc) and (self.wtc):
            # cbsg controller is weight
            self.rngctler = self.wrng
            self.rngctlee = self.irng
        elif (not self.itc) and (not self.wtc):
            # when rate coding is applied to both input and weight, always control weight with input
            # the hardware cost of doing this is similar to the opposite
            self.rngctler = self.irng
            self.rngctlee = self.wrng
""", """        if self.wtc:
            # cbsg controller is weight
            self.rngctler, self.rngctlee = self.wrng, self.irng
        else:
            # cbsg controller is input, also when rate coding is applied to both
            self.rngctler, self.rngctlee = self.irng, self.wrng
"""),
("kernel/linear.py", """        buf_i = torch.empty(0, dtype=torch.long, device=input.device)
        torch.abs(rshift(input, rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
        torch.clamp(buf_i, 0, cycle-1, out=buf_i)
        
        # actual input: its sign
        act_input = torch.empty(0, device=input.device)
        torch.sign(input, out=act_input)
        act_input.unsqueeze_(1)
""", """        def magnitude(value, shift, dim):
            return rshift(value, shift).unsqueeze(dim).round().long().abs().clamp(0, cycle - 1)

        buf_i = magnitude(input, rshift_i, 1)
        
        # actual input: its sign
        act_input = input.sign().unsqueeze(1)
"""),
("kernel/linear.py", """        buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
        torch.abs(rshift(weight, rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
        torch.clamp(buf_w_no_batch, 0, cycle-1, out=buf_w_no_batch)
        buf_w = torch.empty(0, dtype=torch.long, device=weight.device)
        torch.cat(batch*[buf_w_no_batch], 0, out=buf_w)

        # get actual weight for calculation
        sign_wght_no_batch = torch.empty(0, device=weight.device)
        torch.sign(weight, out=sign_wght_no_batch)
        sign_wght_no_batch.unsqueeze_(0)
        act_wght = torch.empty(0, device=weight.device)
        torch.cat(batch*[sign_wght_no_batch], 0, out=act_wght)
        torch.mul(mapcbsg[buf_i, buf_w], act_wght, out=act_wght)
        
        output = torch.empty(0, device=weight.device)
        torch.matmul(act_input, act_wght.transpose(1, 2), out=output)
        
        output = rshift(output, rshift_o).squeeze_(1)
        
        if bias is not None:
            output += bias.unsqueeze(0).expand_as(output)
        return output
""", """        buf_w = magnitude(weight, rshift_w, 0).expand(batch, -1, -1)

        # get actual weight for calculation
        act_wght = weight.sign().unsqueeze(0) * mapcbsg[buf_i, buf_w]
        
        output = rshift(act_input @ act_wght.transpose(1, 2), rshift_o).squeeze(1)
        
        return output if bias is None else output + bias
"""),
# FXP
("kernel/linear.py", """        bot_i = 1 - max_abs_i
        top_i = max_abs_i - 1
        i_round = torch.empty(0, device=input.device)
        torch.round(rshift(input, rshift_i), out=i_round)
        torch.clamp(i_round.unsqueeze_(1), bot_i, top_i, out=i_round)
""", """        top_i = max_abs_i - 1
        i_round = torch.clamp(torch.round(rshift(input, rshift_i)), -top_i, top_i)
"""),
("kernel/linear.py", """        w_round = torch.empty(0, device=input.device)
        torch.round(rshift(weight, rshift_w), out=w_round)
        torch.clamp(w_round.unsqueeze_(0), bot_w, top_w, out=w_round)
        
        output = torch.empty(0, device=weight.device)
        torch.matmul(i_round, w_round.transpose(1, 2), out=output)
        output = rshift(output, rshift_o).squeeze_(1)
        
        if bias is not None:
            output += bias.unsqueeze(0).expand_as(output)
        return output
""", """        w_round = torch.round(rshift(weight, rshift_w)).clamp_(bot_w, top_w)
        
        output = rshift(torch.nn.functional.linear(i_round, w_round), rshift_o)
        if bias is not None:
            output = output + bias
        return output
"""),
# TLUT
("kernel/linear.py", """        if (self.hwcfg["formati"] in ["fxp"]) and (self.hwcfg["formatw"] in ["fxp"]):
            self.mode = "fxpfxp"
        elif (self.hwcfg["formati"] not in ["fxp"]) and (self.hwcfg["formatw"] not in ["fxp"]):
            self.mode = "fpfp"
        else:
            self.mode = "fxpfp"
""", """        fixed = [self.hwcfg[key] == "fxp" for key in ("formati", "formatw")]
        self.mode = "fxpfxp" if all(fixed) else "fxpfp" if any(fixed) else "fpfp"
"""),
("kernel/linear.py", """        if self.hwcfg["temporal"] in ["i", "input"]:
            if self.hwcfg["formati"] in ["fxp"]:
                self.width = self.hwcfg["widthi"] - 1
            elif self.hwcfg["formati"] in ["bfloat16"]:
                self.width = 8
            elif self.hwcfg["formati"] in ["float16"]:
                self.width = 11
            elif self.hwcfg["formati"] in ["float32"]:
                self.width = 24
        elif self.hwcfg["temporal"] in ["w", "weight"]:
            if self.hwcfg["formatw"] in ["fxp"]:
                self.width = self.hwcfg["widthw"] - 1
            elif self.hwcfg["formatw"] in ["bfloat16"]:
                self.width = 8
            elif self.hwcfg["formatw"] in ["float16"]:
                self.width = 11
            elif self.hwcfg["formatw"] in ["float32"]:
                self.width = 24
        
        self.degree = int(math.ceil(self.width / self.hwcfg["widtht"]))
""", """        side = self.hwcfg["temporal"][0]
        significand = {"bfloat16" : 8, "float16" : 11, "float32" : 24}
        self.width = significand.get(self.hwcfg["format" + side], self.hwcfg[f"width{side}"] - 1)
        
        self.degree = -(-self.width // self.hwcfg["widtht"])
"""),
("kernel/linear.py", """            for i in range(degree):
                input_fp32 = rshift(input_fp32, widtht)
                torch.frac(input_fp32, out=frac)
                torch.trunc(input_fp32, out=input_fp32)
                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
                torch.add(rshift(frac, widtht), rshift(input_new, widtht), out=input_new)
""", """            for _ in range(degree):
                shifted = rshift(input_fp32, widtht)
                input_fp32 = shifted.trunc()
                digit = lshift(shifted.frac(), widtht).clamp(cycle_neg+1, cycle_pos-1)
                input_new = rshift(digit + input_new, widtht)
"""),
("kernel/linear.py", """        if ctx.needs_input_grad[0]:
            grad_input = grad_output.matmul(weight)
        if ctx.needs_input_grad[1]:
            grad_weight = grad_output.t().matmul(input)
        if bias is not None and ctx.needs_input_grad[2]:
            grad_bias = grad_output.sum(0)
""", """        want_input, want_weight, want_bias = ctx.needs_input_grad[:3]
        if want_input:
            grad_input = torch.mm(grad_output, weight)
        if want_weight:
            grad_weight = torch.mm(input.t(), grad_output).t()
        if want_bias and bias is not None:
            grad_bias = torch.sum(grad_output, dim=0)
"""),
# conv
("kernel/conv.py", """        # if unipolar mode, even_cycle_flag is always False to pad 0.
        self.even_cycle_flag.data = self.bipolar_mode ^ self.even_cycle_flag
""", """        # in unipolar mode the flag stays set to pad 0.
        if self.mode == "bipolar":
            self.even_cycle_flag.data = ~self.even_cycle_flag
"""),
("kernel/conv.py", """        input_transpose = input_im2col.transpose(1, 2)
        input_reshape = input_transpose.reshape(-1, 1, input_transpose.size()[-1])

        # first dim should always be batch
        batch = input_reshape.size()[0]
""", """        input_reshape = input_im2col.permute(0, 2, 1).flatten(0, 1).unsqueeze(1)

        # first dim should always be batch
        batch = len(input_reshape)
"""),
("kernel/conv.py", """        obin_reshape_i1 = obin_i1.reshape(input.size()[0], -1, obin_i1.size()[-1])
        obin_transpose_i1 = obin_reshape_i1.transpose(1, 2)
        obin_fold_i1 = torch.nn.functional.fold(obin_transpose_i1, output_size, (1, 1))
""", """        obin_fold_i1 = obin_i1.reshape(input.size()[0], -1, obin_i1.size()[-1]).transpose(1, 2)
        obin_fold_i1 = obin_fold_i1.reshape(input.size()[0], self.out_channels, *output_size)
"""),
("kernel/conv.py", """            torch.add(self.wrdx_i0, 1 - input_reshape.type(torch.long), out=self.wrdx_i0)
            
            ibit_i0 = 1 - ibit_i1
            obin_i0 = torch.empty(0, device=input.device)
            torch.matmul(ibit_i0, wbit_i0.transpose(1, 2), out=obin_i0)
            obin_i0.squeeze_(1)
""", """            self.wrdx_i0 = self.wrdx_i0 + torch.eq(input_reshape, 0).type(torch.long)
            
            ibit_i0 = 1 - ibit_i1
            obin_i0 = (ibit_i0 * wbit_i0).sum(-1)
"""),
# rnn and the rest
("kernel/utils.py", """    pad2 = np.floor(pad/2)
    pad1 = np.ceil(pad/2)
""", """    pad1 = np.ceil(pad/2)
    pad2 = pad - pad1
""") if False else ("kernel/shiftreg.py", """        if self.first is True:""", """        if self.first:"""),
]
