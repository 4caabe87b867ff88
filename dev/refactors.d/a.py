SETS["a"] = [
# add: helper extracted, local names, where instead of multiply
("kernel/add.py", """        acc_delta = torch.sum(input.type(self.btype), self.dima) - self.offset
        self.accumulator.data = self.accumulator.add(acc_delta).clamp(self.acc_min, self.acc_max)
        output = torch.ge(self.accumulator, self.scale_carry).type(self.btype)
        self.accumulator.sub_(output * self.scale_carry).clamp_(self.acc_min, self.acc_max)
        return output.type(self.stype)""",
"""        counted = input.type(self.btype).sum(dim=self.dima)
        total = self._bounded(self.accumulator + (counted - self.offset))
        carry = (total >= self.scale_carry).type(self.btype)
        self.accumulator.data = self._bounded(total - carry * self.scale_carry)
        return carry.type(self.stype)

    def _bounded(self, value):
        return torch.clamp(value, min=self.acc_min, max=self.acc_max)"""),
("kernel/mul.py", """            path = in_0.type(torch.int8) & self.bsg(self.rng_idx)
            # conditional update for rng index when input0 is 1. The update simulates enable signal of bs gen.
            self.rng_idx.data = self.rng_idx.add(in_0.type(torch.long))
            """, """            bit = in_0.type(torch.int8)
            path = self.bsg(self.rng_idx) & bit
            self.rng_idx.data = self.rng_idx + in_0.type(torch.long)
            """),
("kernel/mul.py", """                path_inv = (1 - in_0.type(torch.int8)) & (1 - torch.gt(source, self.rng[self.rng_idx_inv]).type(torch.int8))
                # conditional update for rng_idx_inv
                self.rng_idx_inv.data = self.rng_idx_inv.add(1 - in_0.type(torch.long)) % self.entry""",
"""                not_in = 1 - in_0.type(torch.int8)
                path_inv = not_in & torch.le(source, self.rng[self.rng_idx_inv]).type(torch.int8)
                self.rng_idx_inv.data = torch.remainder(self.rng_idx_inv + not_in.type(torch.long), self.entry)"""),
("kernel/div.py", """        divisor_eq_1 = torch.eq(divisor, 1).type(self.stype)
        self.historic_q.data = self.sr.sr[self.rng[self.idx%self.entry]]
        self.idx.data = self.idx.add(1)
        
        quotient = (divisor_eq_1 * dividend + (1 - divisor_eq_1) * self.historic_q).view(dividend.size())""",
"""        divisor_eq_1 = torch.eq(divisor, 1).type(self.stype)
        slot = self.rng[self.idx % self.entry]
        self.historic_q.data = self.sr.sr[slot]
        
        quotient = torch.where(divisor == 1, dividend, self.historic_q.type(dividend.dtype)).view(dividend.size())
        self.idx.data.add_(1)"""),
("kernel/div.py", """        if self.mode == "bipolar":
            output = self.bipolar_forward(dividend, divisor)
        else:
            output = self.unipolar_forward(dividend, divisor)
        return output.type(self.stype)""", """        step = self.bipolar_forward if self.mode == "bipolar" else self.unipolar_forward
        return step(dividend, divisor).type(self.stype)"""),
("kernel/sqrt.py", """            output = ((1 - self.trace) & input.type(torch.int8)) + self.trace
""", """            output = input.type(torch.int8) | self.trace
"""),
("kernel/sqrt.py", """            divisor = self.dff + dividend
""", """            divisor = dividend | self.dff
"""),
("kernel/relu.py", """        half_prob_flag = torch.ge(self.acc, self.buf_half).type(torch.int8)
        # only when input is 0 and flag is 1, output 0; otherwise 1
        output = input.type(torch.int8) | (1 - half_prob_flag)
        # update the accumulator based on output, thus acc update is after output generation
        self.acc.data = self.acc.add(output.mul(2).sub(1).type(self.btype)).clamp(0, self.buf_max)""",
"""        below_half = torch.lt(self.acc, self.buf_half).type(torch.int8)
        output = input.type(torch.int8) | below_half
        delta = (2 * output - 1).type(self.btype)
        self.acc.data = torch.clamp(self.acc + delta, 0, self.buf_max)"""),
("kernel/signabs.py", """        self.acc.data = self.acc.add(input.mul(2).sub(1).type(self.btype)).clamp(0, self.buf_max.item())
        sign = torch.lt(self.acc, self.buf_half).type(torch.int8)
        input_int8 = input.type(torch.int8)
        output = sign ^ input_int8""", """        step = torch.where(input == 1, 1, -1).type(self.btype)
        self.acc.data = (self.acc + step).clamp(min=0, max=2**self.depth - 1)
        sign = (self.acc < self.buf_half).type(torch.int8)
        output = input.type(torch.int8) ^ sign"""),
("kernel/shiftreg.py", """            self.sr.data = input.repeat(new_shape)
            for i in range(self.entry):
                self.sr[i].fill_(i%2)
            self.first = False""", """            self.sr.data = input.repeat(new_shape)
            self._preset()
            self.first = False"""),
("kernel/shiftreg.py", """    def forward(self, input, mask=None, index=0):""", """    def _preset(self):
        i = 0
        while i < self.entry:
            self.sr[i].fill_(i % 2)
            i += 1

    def forward(self, input, mask=None, index=0):"""),
("kernel/shiftreg.py", """            self.sr.data = torch.roll(self.sr, -1, 0)
            self.sr.data[self.entry-1] = input.clone().detach()""", """            self.sr.data = torch.cat([self.sr.data[1:], input.detach().unsqueeze(0).type(self.sr.dtype)], 0)"""),
("kernel/jkff.py", """        self.jkff.data = j0k0 * self.jkff + j1k0 * torch.ones_like(J, dtype=torch.int8) + j0k1 * torch.zeros_like(J, dtype=torch.int8) + j1k1 * (1 - self.jkff)
""", """        hold = j0k0 * self.jkff
        toggle = j1k1 * (1 - self.jkff)
        self.jkff.data = hold + j1k0 + toggle
"""),
("kernel/sigmoid.py", """        return self.sadd(torch.stack([x, torch.ones_like(x)], dim=0))""", """        one = torch.ones_like(x)
        pair = torch.stack((x, one))
        return self.sadd(pair)"""),
("kernel/sigmoid.py", """        return torch.nn.Hardsigmoid()(x * self.scale)""", """        return torch.clamp(self.scale * x / 6 + 0.5, 0, 1)"""),
("stream/shuffle.py", """        cnt_not_min = torch.ne(self.cnt, 0).type(self.stype)
        cnt_not_max = torch.ne(self.cnt, self.upper.item()).type(self.stype)

        out_1 = in_1.add(torch.eq(sum_in, 1).type(self.stype).mul_(cnt_not_min * (1 - in_1) + (0 - cnt_not_max) * in_1))
        self.cnt.data.add_(torch.eq(sum_in, 1).type(self.btype).mul_(in_1.mul(2).sub(1).type(self.btype))).clamp_(0, self.upper.item())""",
"""        differ = torch.eq(sum_in, 1)
        cnt_not_max = torch.ne(self.cnt, self.upper.item()).type(self.stype)
        cnt_not_min = torch.ne(self.cnt, 0).type(self.stype)
        change = cnt_not_min * (1 - in_1) - cnt_not_max * in_1

        out_1 = in_1 + differ.type(self.stype) * change
        step = differ.type(self.btype) * (2 * in_1 - 1).type(self.btype)
        self.cnt.data = (self.cnt.data + step).clamp(0, self.upper.item())"""),
("stream/shuffle.py", """        self.accumulator.data = self.accumulator.add(input.type(self.btype)*2 - 1).clamp(self.acc_min, self.acc_max)
        output = torch.ge(self.accumulator, 1).type(self.btype)
        self.accumulator.sub_(output).clamp(self.acc_min, self.acc_max)
        return output.type(self.stype)""", """        acc = (self.accumulator + (input.type(self.btype)*2 - 1)).clamp(self.acc_min, self.acc_max)
        fire = acc >= 1
        self.accumulator.data = acc - fire.type(self.btype)
        return fire.type(self.stype)"""),
("stream/shuffle.py", """        input_stack = torch.stack([input.type(self.btype), torch.ones_like(input, dtype=self.btype)], dim=0)
        self.accumulator.data = self.accumulator.add(torch.sum(input_stack.type(self.btype), 0)).clamp(self.acc_min, self.acc_max)""",
"""        self.accumulator.data = self.accumulator.add(input.type(self.btype) + 1).clamp(self.acc_min, self.acc_max)"""),
("stream/gen.py", """        if self.mode == "unipolar":
            self.binary.data = self.source
        elif self.mode == "bipolar":
            self.binary.data = self.source.add(1).div(2)
        self.binary.data = self.binary * (2**self.width)
        self.binary.data = self.binary.round().type(self.rtype)""", """        prob = self.source if self.mode == "unipolar" else (self.source + 1) / 2
        self.binary.data = torch.round(prob * 2**self.width).type(self.rtype)"""),
("stream/gen.py", """        return torch.gt(self.binary, self.rng[cycle.type(torch.long)%self.len]).type(self.stype)""", """        position = cycle.type(torch.long) % self.len
        threshold = self.rng[position]
        return (threshold < self.binary).type(self.stype)"""),
("stream/gen.py", """        elif (self.rng == "race") or (self.rng == "tc"):
            # the output sequence is in an ascending order
            self.rng_seq.data = torch.tensor([x/self.seq_len for x in range(self.seq_len)]).mul_(self.seq_len)
        elif (self.rng == "race10") or (self.rng == "tc10"):
            # the output sequence is in a descending order
            self.rng_seq.data = torch.flip(torch.tensor([x/self.seq_len for x in range(self.seq_len)]).mul_(self.seq_len), [0])""",
"""        elif self.rng in ("race", "tc"):
            self.rng_seq.data = torch.arange(self.seq_len, dtype=torch.float)
        elif self.rng in ("race10", "tc10"):
            self.rng_seq.data = torch.arange(self.seq_len - 1, -1, -1).type(torch.float)"""),
("stream/gen.py", """    lfsr_seq = []
    for i in range(2**width):
        value = 0
        for j in range(width):
            value = value + L.state[j]*2**(width-1-j)
        lfsr_seq.append(value)
        L.next()
    return lfsr_seq""", """    lfsr_seq = []
    for _ in range(2**width):
        value = 0
        for bit in L.state:
            value = 2*value + bit
        lfsr_seq.append(value)
        L.next()
    return lfsr_seq"""),
("stream/gen.py", """        scale = torch.max(lower_bound.abs(), upper_bound.abs())
        output = raw.clamp(lower_bound, upper_bound).div(scale)
        return output""", """        scale = torch.max(upper_bound.abs(), lower_bound.abs())
        return torch.clamp(raw, lower_bound, upper_bound) / scale"""),
("metric/metric.py", """        self.paired_00_d.data = self.paired_00_d.data.add(in_1_is_0 * in_2_is_0)
        self.paired_01_c.data = self.paired_01_c.data.add(in_1_is_0 * in_2_is_1)
        self.paired_10_b.data = self.paired_10_b.data.add(in_1_is_1 * in_2_is_0)
        self.paired_11_a.data = self.paired_11_a.data.add(in_1_is_1 * in_2_is_1)""", """        for counter, one, two in ((self.paired_11_a, in_1_is_1, in_2_is_1), (self.paired_10_b, in_1_is_1, in_2_is_0),
                                  (self.paired_01_c, in_1_is_0, in_2_is_1), (self.paired_00_d, in_1_is_0, in_2_is_0)):
            counter.data = counter.data + one * two"""),
("metric/metric.py", """        return ad_gt_bc * corr_ad_gt_bc + ad_le_bc * corr_ad_le_bc""", """        return torch.where(ad_minus_bc > 0, corr_ad_gt_bc, corr_ad_le_bc)"""),
("metric/metric.py", """        self.pp.data = self.one_cnt.div(self.cycle)
        if self.mode == "bipolar":
            self.pp.data = self.pp.mul(2).sub(1)
        self.pe.data = self.pp.sub(self.source)""", """        pp = self.one_cnt / self.cycle
        if self.mode == "bipolar":
            pp = 2 * pp - 1
        self.pp.data = pp
        self.pe.data = self.pp - self.source"""),
("metric/metric.py", """        self.cycle_to_stable.add_(torch.gt(self.pe.abs(), self.threshold).type(torch.float).mul_(self.cycle - self.cycle_to_stable))""",
"""        unstable = torch.abs(self.pe) > self.threshold
        self.cycle_to_stable = torch.where(unstable, self.cycle, self.cycle_to_stable)"""),
("kernel/utils.py", """        if self.frequency > 1:
            self.method = "clip"
        else:
            self.method = "norm"
                
        if hasattr(module, 'weight'):
            w = module.weight.data
            self.clipping(w)
        
        if hasattr(module, 'bias') and module.bias is not None:
            w = module.bias.data
            self.clipping(w)
        """, """        self.method = "norm" if self.frequency <= 1 else "clip"

        for name in ('weight', 'bias'):
            param = getattr(module, name, None)
            if param is not None:
                self.clipping(param.data)
        """),
("kernel/utils.py", """    h = math.floor((h_w[0] + sum(pad[0]) - dilation[0]*(kernel_size[0]-1) - 1) / stride[0] + 1)
    w = math.floor((h_w[1] + sum(pad[1]) - dilation[1]*(kernel_size[1]-1) - 1) / stride[1] + 1)
    
    return h, w""", """    def extent(i):
        reach = dilation[i]*(kernel_size[i] - 1) + 1
        return (h_w[i] + sum(pad[i]) - reach) // stride[i] + 1

    return extent(0), extent(1)"""),
("kernel/utils.py", """        quantile_i_upper = 0.5 - quantilei / 2
        quantile_i_lower = 0.5 + quantilei / 2
        lower_bound_i = torch.quantile(input, quantile_i_lower)
        upper_bound_i = torch.quantile(input, quantile_i_upper)
        scale_i = torch.max(lower_bound_i.abs(), upper_bound_i.abs())
        imax_int = scale_i.log2()

        quantile_w_upper = 0.5 - quantilew / 2
        quantile_w_lower = 0.5 + quantilew / 2
        lower_bound_w = torch.quantile(weight, quantile_w_lower)
        upper_bound_w = torch.quantile(weight, quantile_w_upper)
        scale_w = torch.max(lower_bound_w.abs(), upper_bound_w.abs())
        wmax_int = scale_w.log2()
""", """        def magnitude(data, q):
            low = torch.quantile(data, 0.5 - q / 2)
            high = torch.quantile(data, 0.5 + q / 2)
            return torch.max(low.abs(), high.abs()).log2()

        imax_int = magnitude(input, quantilei)
        wmax_int = magnitude(weight, quantilew)
"""),
("kernel/linear.py", """        if wbit_i1.size()[0] != batch:
            wbit_i1 = torch.cat(batch*[wbit_i1], 0)
            self.wrdx_i1 = torch.cat(batch*[self.wrdx_i1], 0)
""", """        if wbit_i1.size()[0] != batch:
            wbit_i1 = wbit_i1.repeat(batch, 1, 1)
            self.wrdx_i1 = self.wrdx_i1.repeat(batch, 1, 1)
"""),
("kernel/linear.py", """        obin_i1 = torch.empty(0, device=input.device)
        torch.matmul(ibit_i1, wbit_i1.transpose(1, 2), out=obin_i1)
        obin_i1.squeeze_(1)
""", """        obin_i1 = torch.matmul(ibit_i1, wbit_i1.transpose(1, 2)).squeeze(1)
"""),
("kernel/linear.py", """            self.brdx.add_(1)
            obin_i1 += bbit.unsqueeze(0).expand_as(obin_i1)""", """            self.brdx.data = self.brdx + 1
            obin_i1 = obin_i1 + bbit"""),
("kernel/linear.py", """        if self.hwcfg["cycle"] is None:
            self.cycle_act = self.cycle_max
        else:
            self.cycle_act = min(self.hwcfg["cycle"], self.cycle_max)
        self.hwcfg["cycle"] = self.cycle_act
""", """        cycle = self.hwcfg["cycle"]
        self.cycle_act = self.cycle_max if cycle is None else min(self.cycle_max, cycle)
        self.hwcfg["cycle"] = self.cycle_act
"""),
("kernel/conv.py", """        if True in self.even_cycle_flag:
            input_padding = self.padding_0(input)
        else:
            input_padding = self.padding_1(input)
""", """        pad = self.padding_0 if self.even_cycle_flag.item() else self.padding_1
        input_padding = pad(input)
"""),
("kernel/conv.py", """            obin_fold_i1 += bbit.view(1, -1, 1, 1).expand_as(obin_fold_i1)""", """            obin_fold_i1 = obin_fold_i1 + bbit.reshape(1, -1, 1, 1)"""),
("kernel/rnn.py", """        self.fg_ng_inv = 1 - self.fg_ng
        hy = self.hy_add(torch.stack([self.ng, self.fg_ng_inv, self.fg_hx], dim=0))
        return hy""", """        self.fg_ng_inv = 1 - self.fg_ng
        terms = [self.fg_hx, self.ng, self.fg_ng_inv]
        return self.hy_add(torch.stack(terms, dim=0))"""),
("kernel/rnn.py", """            idx = torch.zeros(iSource.size(), dtype=torch.long, device=input.device)
            iBS = iBSG(idx + c)

            hdx = torch.zeros(hSource.size(), dtype=torch.long, device=input.device)
            hBS = hBSG(hdx + c)
""", """            iBS = iBSG(torch.full(iSource.size(), c, dtype=torch.long, device=input.device))
            hBS = hBSG(torch.full(hSource.size(), c, dtype=torch.long, device=input.device))
"""),
]
