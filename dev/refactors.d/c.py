SETS["c"] = [
("kernel/mul.py", """    def FSUMul_forward(self, in_0, in_1=None):
        if self.static is True:""", """    def _threshold(self, in_1):
        if self.static is True:
            return self.source_gen
        return self.sr(in_1)[1]

    def _cond(self, source, idx):
        # conditional bits of the second operand at the given index
        return (source > self.rng[idx % self.entry]).to(torch.int8)

    def FSUMul_forward(self, in_0, in_1=None):
        source = self._threshold(in_1)
        if self.static is True:"""),
("kernel/mul.py", """            path = in_0.type(torch.int8) & self.bsg(self.rng_idx)
""", """            path = in_0.type(torch.int8) & self._cond(source, self.rng_idx)
"""),
("kernel/mul.py", """            _, source = self.sr(in_1)
            path = in_0.type(torch.int8) & torch.gt(source, self.rng[self.rng_idx]).type(torch.int8)
""", """            path = in_0.type(torch.int8) * self._cond(source, self.rng_idx)
"""),
("kernel/mul.py", """                return path | path_inv
        else:""", """                return path + path_inv
        else:"""),
("kernel/div.py", """        divisor_eq_1 = torch.eq(divisor, 1).type(self.stype)
        self.historic_q.data = self.sr.sr[self.rng[self.idx%self.entry]]
        self.idx.data = self.idx.add(1)
        
        quotient = (divisor_eq_1 * dividend + (1 - divisor_eq_1) * self.historic_q).view(dividend.size())
        
        # shift register update based on whether divisor is valid
        dontcare1, dontcare2 = self.sr(quotient.type(self.stype), mask=divisor_eq_1)
        
        return quotient.type(self.stype)""", """        valid = divisor == 1
        self.historic_q.data = torch.index_select(self.sr.sr, 0, self.rng[self.idx % len(self.rng)])
        self.idx.data = self.idx + 1
        
        quotient = self.historic_q.expand(1, *dividend.shape)[0] if self.historic_q.dim() > dividend.dim() else self.historic_q.expand_as(dividend)
        quotient = torch.where(valid, dividend.type(self.stype), quotient)
        
        # the dividend enters the shift register where the divisor is valid
        self.sr(dividend.type(self.stype), mask=valid)
        
        return quotient.type(self.stype)"""),
("kernel/div.py", """        bi_quotient = sign_dividend.type(torch.int8) ^ sign_divisor.type(torch.int8) ^ bi_abs_quotient.type(torch.int8)
        return bi_quotient""", """        sign = torch.ne(sign_dividend, sign_divisor)
        return torch.where(sign, 1 - bi_abs_quotient, bi_abs_quotient)"""),
("kernel/sqrt.py", """    def unipolar_emit(self, output):
        output_inv = 1 - output
        output_inv_scrambled, dontcare = self.sr(output_inv, index=self.idx.item()%self.entry_sr)
        emit_out = output_inv_scrambled & output
        return emit_out
    
    def bipolar_emit(self, output):
        output_inv = 1 - output
        output_inv_scrambled, dontcare = self.sr(output_inv, index=self.idx.item()%self.entry_sr)
        output_uni = self.bi2uni_emit(output)
        emit_out = output_inv_scrambled & output_uni
        return emit_out
""", """    def _scrambled_inverse(self, output):
        return self.sr(1 - output, index=int(self.idx) % self.entry_sr)[0]

    def unipolar_emit(self, output):
        return self._scrambled_inverse(output) & output
    
    def bipolar_emit(self, output):
        output_uni = self.bi2uni_emit(output)
        return output_uni & self._scrambled_inverse(output)
"""),
("kernel/sqrt.py", """        if self.emit is True:
            if list(self.emit_out.size()) != list(input.size()):
                self.emit_out.data = torch.zeros_like(input).type(torch.int8)
            in_stack = torch.stack([input.type(torch.int8), self.emit_out], dim=0)
            output = self.nsadd(in_stack)
            if self.mode == "bipolar":
                self.emit_out.data = self.bipolar_emit(output)
            else:
                self.emit_out.data = self.unipolar_emit(output)
        else:
            output = ((1 - self.trace) & input.type(torch.int8)) + self.trace
            if self.mode == "bipolar":
                self.trace.data = self.bipolar_trace(output)
            else:
                self.trace.data = self.unipolar_trace(output)
        return output.type(self.stype)""", """        bits = input.type(torch.int8)
        if not self.emit:
            output = torch.where(self.trace == 1, self.trace, bits)
            feedback = getattr(self, self.mode + "_trace")
            self.trace.data = feedback(output)
            return output.type(self.stype)
        if self.emit_out.shape != input.shape:
            self.emit_out.data = torch.zeros(input.shape, dtype=torch.int8)
        output = self.nsadd(torch.stack([bits, self.emit_out]))
        feedback = getattr(self, self.mode + "_emit")
        self.emit_out.data = feedback(output)
        return output.type(self.stype)"""),
("kernel/add.py", """            if entry is not None:
                # runtime entry will override the default value
                self.entry = entry
                self.hwcfg["entry"] = entry
            else:
                if self.entry is None:
                    self.entry = input.size()[self.dima]
                    self.hwcfg["entry"] = input.size()[self.dima]
                else:
                    self.entry = self.entry
                    self.hwcfg["entry"] = self.entry

            if scale is not None:
                # runtime scale will override the default value
                self.scale_carry.fill_(scale)
                self.hwcfg["scale"] = scale
            else:
                if self.scale is None:
                    self.scale_carry.fill_(self.entry)
                    self.hwcfg["scale"] = self.entry
                else:
                    self.scale_carry.fill_(self.scale)
                    self.hwcfg["scale"] = self.scale
""", """            self.entry = next(e for e in (entry, self.entry, input.size()[self.dima]) if e is not None)
            self.hwcfg["entry"] = self.entry

            chosen = scale if scale is not None else self.scale
            if chosen is None:
                chosen = self.entry
            self.scale_carry.data = torch.full_like(self.scale_carry, chosen)
            self.hwcfg["scale"] = chosen
"""),
("kernel/add.py", """                self.offset.data = (self.entry - self.scale_carry)/2
""", """                self.offset.data = 0.5 * (self.entry - self.scale_carry)
"""),
("stream/gen.py", """        return torch.gt(self.binary, self.rng[cycle.type(torch.long)%self.len]).type(self.stype)""",
"""        return torch.where(self.binary > self.rng[cycle.long() & (self.len - 1)], 1, 0).type(self.stype)"""),
("stream/gen.py", """        if self.mode == "unipolar":
            self.binary.data = self.source
        elif self.mode == "bipolar":
            self.binary.data = self.source.add(1).div(2)
        self.binary.data = self.binary * (2**self.width)
        self.binary.data = self.binary.round().type(self.rtype)""", """        scaled = self._level(source) * (1 << self.width)
        self.binary.data = scaled.round().type(self.rtype)"""),
("stream/gen.py", """    def forward(self):
        return self.binary
""", """    def _level(self, value):
        return {"unipolar" : lambda v: v, "bipolar" : lambda v: (v + 1) / 2}[self.mode](value)

    def forward(self):
        return self.binary
"""),
("stream/gen.py", """            self.rng_seq.data = torch.quasirandom.SobolEngine(self.dimr).draw(self.seq_len)[:, self.dimr-1].view(self.seq_len).mul_(self.seq_len)
""", """            engine = torch.quasirandom.SobolEngine(dimension=self.dimr)
            points = engine.draw(self.seq_len)[:, -1]
            self.rng_seq.data = points * self.seq_len
"""),
("stream/shuffle.py", """        out_1 = in_1.add(torch.eq(sum_in, 1).type(self.stype).mul_(cnt_not_min * (1 - in_1) + (0 - cnt_not_max) * in_1))
        self.cnt.data.add_(torch.eq(sum_in, 1).type(self.btype).mul_(in_1.mul(2).sub(1).type(self.btype))).clamp_(0, self.upper.item())
        return out_1, in_2""", """        lone_1 = (in_1 == 1) & (in_2 == 0)
        lone_2 = (in_1 == 0) & (in_2 == 1)
        out_1 = in_1.clone()
        out_1[lone_1 & (cnt_not_max == 1)] = 0
        out_1[lone_2 & (cnt_not_min == 1)] = 1
        self.cnt.data = torch.clamp(self.cnt + lone_1.type(self.btype) - lone_2.type(self.btype), 0, self.upper.item())
        return out_1, in_2"""),
("kernel/shiftreg.py", """            mask_val = mask.type(self.stype)
            sr_shift = torch.roll(self.sr, -1, 0)
            sr_shift[self.entry-1] = input.clone().detach()
            sr_no_shift = self.sr.clone().detach()
            self.sr.data = mask_val * sr_shift + (1 - mask_val) * sr_no_shift""", """            shifted = torch.cat((self.sr.data[1:], input.detach().type(self.sr.dtype).unsqueeze(0)))
            self.sr.data = torch.where(mask.bool(), shifted, self.sr.data)"""),
("kernel/shiftreg.py", """            new_shape = [1 for _ in range(len(input.shape))]
            new_shape.insert(0, self.entry)
            self.sr.data = input.repeat(new_shape)
            for i in range(self.entry):
                self.sr[i].fill_(i%2)
            self.first = False""", """            column = torch.arange(self.entry).remainder(2).type(input.dtype)
            self.sr.data = column.view(-1, *[1] * input.dim()).expand(self.entry, *input.shape).clone()
            self.first = False"""),
("kernel/relu.py", """        output = input.type(torch.int8) | (1 - half_prob_flag)
""", """        output = torch.max(input.type(torch.int8), 1 - half_prob_flag)
"""),
("kernel/signabs.py", """        sign = torch.lt(self.acc, self.buf_half).type(torch.int8)
        input_int8 = input.type(torch.int8)
        output = sign ^ input_int8""", """        negative = ~(self.acc >= self.buf_half)
        sign = negative.type(torch.int8)
        output = (negative != (input == 1)).type(torch.int8)"""),
("kernel/jkff.py", """        self.jkff.data = j0k0 * self.jkff + j1k0 * torch.ones_like(J, dtype=torch.int8) + j0k1 * torch.zeros_like(J, dtype=torch.int8) + j1k1 * (1 - self.jkff)
""", """        # characteristic equation Q+ = J(1-Q) + (1-K)Q
        inverted = 1 - self.jkff
        self.jkff.data = (j1k0 + j1k1) * inverted + (j0k0 + j1k0) * self.jkff
"""),
("metric/metric.py", """        in_1_is_0 = torch.eq(in_1, 0).type(torch.float)
        in_1_is_1 = 1 - in_1_is_0
        in_2_is_0 = torch.eq(in_2, 0).type(torch.float)
        in_2_is_1 = 1 - in_2_is_0
        self.paired_00_d.data = self.paired_00_d.data.add(in_1_is_0 * in_2_is_0)
        self.paired_01_c.data = self.paired_01_c.data.add(in_1_is_0 * in_2_is_1)
        self.paired_10_b.data = self.paired_10_b.data.add(in_1_is_1 * in_2_is_0)
        self.paired_11_a.data = self.paired_11_a.data.add(in_1_is_1 * in_2_is_1)
""", """        one, two = in_1 != 0, in_2 != 0
        self.paired_00_d.data = self.paired_00_d + (~one & ~two)
        self.paired_01_c.data = self.paired_01_c + (~one & two)
        self.paired_10_b.data = self.paired_10_b + (one & ~two)
        self.paired_11_a.data = self.paired_11_a + (one & two)
"""),
("metric/metric.py", """        corr_ad_gt_bc = ad_minus_bc.div(
            torch.max(
                torch.min(a_plus_b, a_plus_c).mul_(self.len).sub_(a_plus_b.mul(a_plus_c)), 
                all_1_tensor
            )
        )
        corr_ad_le_bc = ad_minus_bc.div(
            torch.max(
                a_plus_b.mul(a_plus_c).sub(torch.max(a_minus_d, all_0_tensor).mul_(self.len)),
                all_1_tensor
            )
        )
""", """        independent = a_plus_b * a_plus_c
        most = self.len * torch.minimum(a_plus_b, a_plus_c)
        least = self.len * a_minus_d.clamp(min=0)
        corr_ad_gt_bc = ad_minus_bc / (most - independent).clamp(min=1)
        corr_ad_le_bc = ad_minus_bc / torch.clamp(independent - least, min=1)
"""),
("kernel/utils.py", """    p_h = ((h_w_out[0] - 1)*stride[0] - h_w_in[0] + dilation[0]*(kernel_size[0]-1) + 1)
    p_w = ((h_w_out[1] - 1)*stride[1] - h_w_in[1] + dilation[1]*(kernel_size[1]-1) + 1)
    
    return (math.floor(p_h/2), math.ceil(p_h/2)), (math.floor(p_w/2), math.ceil(p_w/2))


def convtransp2d_get_padding""", """    halves = []
    for o, i, k, s, d in zip(h_w_out, h_w_in, kernel_size, stride, dilation):
        total = (o - 1)*s + d*(k - 1) + 1 - i
        halves.append((total//2, total - total//2))

    return tuple(halves)


def convtransp2d_get_padding"""),
("kernel/utils.py", """    h = (h_w[0] - 1)*stride[0] - sum(pad[0]) + dilation[0]*(kernel_size[0]-1) + out_pad[0] + 1
    w = (h_w[1] - 1)*stride[1] - sum(pad[1]) + dilation[1]*(kernel_size[1]-1) + out_pad[1] + 1
    
    return h, w
""", """    return tuple((h_w[i] - 1)*stride[i] - pad[i][0] - pad[i][1] + dilation[i]*(kernel_size[i]-1) + out_pad[i] + 1 for i in range(2))
"""),
("kernel/utils.py", """        if self.mode == "unipolar":
            if self.method == "norm":
                w.sub_(torch.min(w)).div_(torch.max(w) - torch.min(w)) \\
                .mul_(self.scale).round_().clamp_(0.0,self.scale).div_(self.scale)
            elif self.method == "clip":
                w.clamp_(0.0,1.0) \\
                .mul_(self.scale).round_().clamp_(0.0,self.scale).div_(self.scale)
            else:""", """        if self.mode == "unipolar":
            if self.method in ("norm", "clip"):
                if self.method == "norm":
                    w.sub_(torch.min(w))
                    w.div_(torch.max(w) - torch.min(w))
                else:
                    w.clamp_(0.0, 1.0)
                w.copy_(torch.clamp(torch.round(w * self.scale), 0.0, self.scale) / self.scale)
            else:"""),
("kernel/utils.py", """        cond = torch.logical_or(t < mean - 2*std, t > mean + 2*std)
        if torch.sum(cond):
            t = torch.where(cond, torch.nn.init.normal_(torch.ones_like(t), mean=mean, std=std), t)
        else:
            break
    return t""", """        outside = (t < mean - 2*std) | (t > mean + 2*std)
        if not outside.any():
            return t
        fresh = torch.nn.init.normal_(torch.empty_like(t), mean=mean, std=std)
        t = torch.where(outside, fresh, t)"""),
]
