From 7137104dc8491a00c43b64af11a323fbb200099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 01/18] fix: FSUReLU uses stype for the output and btype for
 its counter

---
 kernel/relu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/relu.py b/kernel/relu.py
index 156cd91..7cbcca2 100644
--- a/kernel/relu.py
+++ b/kernel/relu.py
@@ -23,8 +23,8 @@ class FSUReLU(torch.nn.Module):
         self.swcfg["stype"] = swcfg["stype"]
 
         self.depth = hwcfg["depth"]
-        self.stype = swcfg["btype"]
-        self.btype = swcfg["stype"]
+        self.stype = swcfg["stype"]
+        self.btype = swcfg["btype"]
 
         self.buf_max = 2**self.depth - 1
         self.buf_half = 2**(self.depth - 1)
-- 
2.43.0


From 044ab191840a39967c5e711aa87710ee8cd987c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 02/18] fix: JKFF output no longer aliases the flip-flop state
 for int8 streams

---
 kernel/jkff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/jkff.py b/kernel/jkff.py
index b0f3935..287f1b8 100644
--- a/kernel/jkff.py
+++ b/kernel/jkff.py
@@ -28,6 +28,6 @@ class JKFF(torch.nn.Module):
         j1k1 = j1 & k1
         
         self.jkff.data = j0k0 * self.jkff + j1k0 * torch.ones_like(J, dtype=torch.int8) + j0k1 * torch.zeros_like(J, dtype=torch.int8) + j1k1 * (1 - self.jkff)
-        return self.jkff.type(self.stype)
+        return self.jkff.data.clone().type(self.stype)
 
     
\ No newline at end of file
-- 
2.43.0


From a6d645046e16c270489bb0633b9c2c1b3e31bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 03/18] fix: convtransp2d_get_padding halves the total padding
 only once

---
 kernel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 128534b..0c0a704 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -99,8 +99,8 @@ def convtransp2d_get_padding(h_w_in, h_w_out, kernel_size=1, stride=1, dilation=
     h_w_in, h_w_out, kernel_size, stride, dilation, out_pad = num2tuple(h_w_in), num2tuple(h_w_out), \
         num2tuple(kernel_size), num2tuple(stride), num2tuple(dilation), num2tuple(out_pad)
         
-    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0]) / 2
-    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1]) / 2
+    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0])
+    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1])
     
     return (math.floor(p_h/2), math.ceil(p_h/2)), (math.floor(p_w/2), math.ceil(p_w/2))
 
-- 
2.43.0


From 7b353b79eee25116023399a4e5ef6f96f562fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 04/18] fix: progerror_report reads the source of ProgError

---
 kernel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 0c0a704..05bb9a2 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -129,8 +129,8 @@ def tensor_unary_outlier(tensor, name="tensor"):
 
 def progerror_report(progerror, name="progerror", report_value=False, report_relative=False):
     if report_value:
-        min = progerror.in_value.min().item()
-        max = progerror.in_value.max().item()
+        min = progerror.source.min().item()
+        max = progerror.source.max().item()
         std, mean = torch.std_mean(progerror()[0])
         print("{:30s}".format(name) + \
                 ", Binary   Value range," + "{:12f}".format(min) + ", {:12f}".format(max) + \
-- 
2.43.0


From 2f9bbd4abca42f6534319683c4e136e9b4e8f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 05/18] fix: NN_SC_Weight_Clipper skips layers without bias

---
 kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 05bb9a2..8dbea49 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -27,7 +27,7 @@ class NN_SC_Weight_Clipper(object):
             w = module.weight.data
             self.clipping(w)
         
-        if hasattr(module, 'bias'):
+        if hasattr(module, 'bias') and module.bias is not None:
             w = module.bias.data
             self.clipping(w)
         
-- 
2.43.0


From b17513465629d7b07691d76d9194d35888cca2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 06/18] fix: Correlation.Monitor accepts multi-element bit
 streams

---
 metric/metric.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metric/metric.py b/metric/metric.py
index 175ad52..cdc7aa4 100644
--- a/metric/metric.py
+++ b/metric/metric.py
@@ -23,10 +23,10 @@ class Correlation(torch.nn.Module):
         in_1_is_1 = 1 - in_1_is_0
         in_2_is_0 = torch.eq(in_2, 0).type(torch.float)
         in_2_is_1 = 1 - in_2_is_0
-        self.paired_00_d.data.add_(in_1_is_0 * in_2_is_0)
-        self.paired_01_c.data.add_(in_1_is_0 * in_2_is_1)
-        self.paired_10_b.data.add_(in_1_is_1 * in_2_is_0)
-        self.paired_11_a.data.add_(in_1_is_1 * in_2_is_1)
+        self.paired_00_d.data = self.paired_00_d.data.add(in_1_is_0 * in_2_is_0)
+        self.paired_01_c.data = self.paired_01_c.data.add(in_1_is_0 * in_2_is_1)
+        self.paired_10_b.data = self.paired_10_b.data.add(in_1_is_1 * in_2_is_0)
+        self.paired_11_a.data = self.paired_11_a.data.add(in_1_is_1 * in_2_is_1)
         self.len.data.add_(1)
     
     def forward(self):
-- 
2.43.0


From ec1388c2f7c381a5f364bfcad0f1ca043a4ea8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 07/18] fix: FSULinearPC and FSUConv2dPC define the bias RNG
 also without external bias

---
 kernel/conv.py   | 2 ++
 kernel/linear.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kernel/conv.py b/kernel/conv.py
index 75086b6..9122df2 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -190,6 +190,8 @@ class FSUConv2dPC(torch.nn.Conv2d):
             assert bias_ext.size()[0] == out_channels, \
                 "Error: the hw config 'out_channels' in " + str(self) + " class unmatches the binary bias shape."
             self.bias.data = BinGen(bias_ext, self.hwcfg, self.swcfg)()
+
+        if bias:
             # RNG for bias, same as RNG for weight
             hwcfg_brng = {
                 "width" : hwcfg["width"],
diff --git a/kernel/linear.py b/kernel/linear.py
index 1f3c9c6..c3a0d22 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -168,6 +168,8 @@ class FSULinearPC(torch.nn.Linear):
             assert bias_ext.size()[0] == out_features, \
                 "Error: the hw config 'out_features' in " + str(self) + " class unmatches the binary bias shape."
             self.bias.data = BinGen(bias_ext, self.hwcfg, self.swcfg)()
+
+        if bias:
             # RNG for bias, same as RNG for weight
             hwcfg_brng = {
                 "width" : hwcfg["width"],
-- 
2.43.0


From ccb61ea5b0ad5c6057b211e1688b14411589fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 08/18] fix: FSUConv2dPC pads height and width when padding is
 a tuple

---
 kernel/conv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index 9122df2..1738100 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -214,8 +214,9 @@ class FSUConv2dPC(torch.nn.Conv2d):
             
         # indicator of even/odd cycle
         self.even_cycle_flag = torch.nn.Parameter(torch.ones(1, dtype=torch.bool), requires_grad=False)
-        self.padding_0 = torch.nn.ConstantPad2d(self.padding, 0)
-        self.padding_1 = torch.nn.ConstantPad2d(self.padding, 1)
+        padding_h, padding_w = num2tuple(self.padding)
+        self.padding_0 = torch.nn.ConstantPad2d((padding_w, padding_w, padding_h, padding_h), 0)
+        self.padding_1 = torch.nn.ConstantPad2d((padding_w, padding_w, padding_h, padding_h), 1)
         self.bipolar_mode = torch.nn.Parameter(torch.tensor([self.mode == "bipolar"], dtype=torch.bool), requires_grad=False)
 
     def FSUConv2d_PC_wrc(self, input):
-- 
2.43.0


From 180ef4d846081624943cf1d318e5142a18b877bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 09/18] fix: HUBLinear and HUBConv2d accept cycle None as the
 full cycle count

---
 kernel/conv.py   | 8 ++++++--
 kernel/linear.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index 1738100..963abcc 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -399,7 +399,7 @@ class HUBConv2d(torch.nn.Conv2d):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
@@ -422,7 +422,11 @@ class HUBConv2d(torch.nn.Conv2d):
         # maximum possible run cycle
         self.cycle_max = 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"])
         # actual run cycle
-        self.cycle_act = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        if self.hwcfg["cycle"] is None:
+            self.cycle_act = self.cycle_max
+        else:
+            self.cycle_act = min(self.hwcfg["cycle"], self.cycle_max)
+        self.hwcfg["cycle"] = self.cycle_act
 
         assert groups == 1, \
             "Error: the 'groups' in " + str(self) + " class requires to be 1."
diff --git a/kernel/linear.py b/kernel/linear.py
index c3a0d22..2a3ba02 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -315,7 +315,7 @@ class HUBLinear(torch.nn.Linear):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
-- 
2.43.0


From 784f0b11d49eba44889ccaa83417ba21b45d330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 10/18] fix: floating point shifts of the HUB, FXP and TLUT
 layers no longer use the removed shift operators

---
 kernel/linear.py | 68 ++++++++++++++++++++++++------------------------
 kernel/utils.py  | 14 ++++++++++
 2 files changed, 48 insertions(+), 34 deletions(-)

diff --git a/kernel/linear.py b/kernel/linear.py
index 2a3ba02..c5347db 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -2,7 +2,7 @@ import torch
 import math
 import copy
 from UnarySim.stream import RNG, BinGen, BSGen
-from UnarySim.kernel import FSUAdd, rshift_offset
+from UnarySim.kernel import FSUAdd, rshift_offset, lshift, rshift
 from torch.cuda.amp import autocast
 
 class FSULinear(torch.nn.Module):
@@ -446,7 +446,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale input to range 0~2^widthi-1
         buf_i = torch.empty(0, dtype=torch.long, device=input.device)
-        torch.abs((input >> rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
+        torch.abs(rshift(input, rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
         torch.clamp(buf_i, 0, cycle-1, out=buf_i)
         
         # actual input: its sign
@@ -459,7 +459,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale weight with batch to range 0~2^widthw-1
         buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
-        torch.abs((weight >> rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
+        torch.abs(rshift(weight, rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
         torch.clamp(buf_w_no_batch, 0, cycle-1, out=buf_w_no_batch)
         buf_w = torch.empty(0, dtype=torch.long, device=weight.device)
         torch.cat(batch*[buf_w_no_batch], 0, out=buf_w)
@@ -475,7 +475,7 @@ class HUBLinearFunction(torch.autograd.Function):
         output = torch.empty(0, device=weight.device)
         torch.matmul(act_input, act_wght.transpose(1, 2), out=output)
         
-        output = (output >> rshift_o).squeeze_(1)
+        output = rshift(output, rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -586,7 +586,7 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_i = 1 - max_abs_i
         top_i = max_abs_i - 1
         i_round = torch.empty(0, device=input.device)
-        torch.round(input >> rshift_i, out=i_round)
+        torch.round(rshift(input, rshift_i), out=i_round)
         torch.clamp(i_round.unsqueeze_(1), bot_i, top_i, out=i_round)
         
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
@@ -596,12 +596,12 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_w = 1 - max_abs_w
         top_w = max_abs_w - 1
         w_round = torch.empty(0, device=input.device)
-        torch.round(weight >> rshift_w, out=w_round)
+        torch.round(rshift(weight, rshift_w), out=w_round)
         torch.clamp(w_round.unsqueeze_(0), bot_w, top_w, out=w_round)
         
         output = torch.empty(0, device=weight.device)
         torch.matmul(i_round, w_round.transpose(1, 2), out=output)
-        output = (output >> rshift_o).squeeze_(1)
+        output = rshift(output, rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -783,29 +783,29 @@ class TLUTLinearFXPFXPFunction(torch.autograd.Function):
 
         rshift_i, rshift_w, _ = rshift_offset(input_fp32, weight_fp32, widthi, widthw, rounding, quantilei, quantilew)
         
-        torch.trunc((input_fp32 >> rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
-        torch.trunc((weight_fp32 >> rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
+        torch.trunc(rshift(input_fp32, rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
+        torch.trunc(rshift(weight_fp32, rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
 
         if temporal in ["i", "input"]:
             frac = torch.zeros_like(input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = rshift(input_fp32, widtht)
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + widthi + rshift_i)).type(weight.type())
-            weight_new = (weight_fp32 << rshift_w).type(weight.type())
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(input_new, widtht), out=input_new)
+            input_new = lshift(input_new, delta + widthi + rshift_i).type(weight.type())
+            weight_new = lshift(weight_fp32, rshift_w).type(weight.type())
         elif temporal in ["w", "weight"]:
             frac = torch.zeros_like(weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = rshift(weight_fp32, widtht)
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
-            input_new = (input_fp32 << rshift_i).type(input.type())
-            weight_new = (weight_new << (delta + widthw + rshift_w)).type(input.type())
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(weight_new, widtht), out=weight_new)
+            input_new = lshift(input_fp32, rshift_i).type(input.type())
+            weight_new = lshift(weight_new, delta + widthw + rshift_w).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -855,27 +855,27 @@ class TLUTLinearFXPFPFunction(torch.autograd.Function):
         if temporal in ["i", "input"]:
             input_new = torch.zeros_like(input_fp32)
             frac = torch.zeros_like(input_fp32)
-            torch.trunc((input_fp32 >> rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
+            torch.trunc(rshift(input_fp32, rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = rshift(input_fp32, widtht)
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + width + rshift_i)).type(weight.type())
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(input_new, widtht), out=input_new)
+            input_new = lshift(input_new, delta + width + rshift_i).type(weight.type())
             weight_new = weight
         elif temporal in ["w", "weight"]:
             weight_new = torch.zeros_like(weight_fp32)
             frac = torch.zeros_like(weight_fp32)
-            torch.trunc((weight_fp32 >> rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
+            torch.trunc(rshift(weight_fp32, rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = rshift(weight_fp32, widtht)
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(weight_new, widtht), out=weight_new)
             input_new = input
-            weight_new = (weight_new << (delta + width + rshift_w)).type(input.type())
+            weight_new = lshift(weight_new, delta + width + rshift_w).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -931,15 +931,15 @@ class TLUTLinearFPFPFunction(torch.autograd.Function):
             frac = torch.zeros_like(weight_fp32)
             mantissa_new = torch.zeros_like(weight_fp32)
 
-        mantissa = mantissa << width
+        mantissa = lshift(mantissa, width)
         for i in range(degree):
-            mantissa = mantissa >> widtht
+            mantissa = rshift(mantissa, widtht)
             torch.frac(mantissa, out=frac)
             torch.trunc(mantissa, out=mantissa)
-            torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-            torch.add(frac >> widtht, mantissa_new >> widtht, out=mantissa_new)
+            torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+            torch.add(rshift(frac, widtht), rshift(mantissa_new, widtht), out=mantissa_new)
 
-        mantissa_new = mantissa_new << delta
+        mantissa_new = lshift(mantissa_new, delta)
 
         if temporal in ["i", "input"]:
             input_new = torch.ldexp(mantissa_new, exponent).type(dtype)
diff --git a/kernel/utils.py b/kernel/utils.py
index 8dbea49..bddd879 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -168,6 +168,20 @@ def progerror_report(progerror, name="progerror", report_value=False, report_rel
                 ", rmse," + "{:12f}".format(rmse))
 
 
+def lshift(data, shift):
+    """
+    Left shift of floating point data, i.e., data * 2^shift, which is no longer offered by the << operator of torch.
+    """
+    return data * 2**shift
+
+
+def rshift(data, shift):
+    """
+    Right shift of floating point data, i.e., data / 2^shift, which is no longer offered by the >> operator of torch.
+    """
+    return data / 2**shift
+
+
 class RoundSTE(torch.autograd.Function):
     """
     RoundSTE is a rounding operation which bypasses the input gradient to output directly.
-- 
2.43.0


From 09045398ee4c96a1371073705943258f88d2eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 11/18] fix: the lfsr RNG never starts from the illegal all-0
 state

---
 stream/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stream/gen.py b/stream/gen.py
index 0489066..4ac211c 100644
--- a/stream/gen.py
+++ b/stream/gen.py
@@ -6,7 +6,9 @@ from math import log2, ceil, floor
 def get_lfsr_seq(width=8):
     polylist = LFSR().get_fpolyList(m=width)
     poly = polylist[np.random.randint(0, len(polylist), 1)[0]]
-    L = LFSR(fpoly=poly,initstate ='random')
+    # a random nonzero initial state, as an LFSR can't leave (and LFSR() rejects) the all-0 state
+    state = np.random.randint(1, 2**width)
+    L = LFSR(fpoly=poly,initstate =[(state >> i) & 1 for i in range(width)])
     lfsr_seq = []
     for i in range(2**width):
         value = 0
-- 
2.43.0


From 77f98cc28479a619655798348c95f69a868cd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 12/18] fix: emitting square root cells parse, shift by the
 length of their register and saturate

---
 hw/kernel/sqrt/BISQRT_O_B.sv | 13 +++++++------
 hw/kernel/sqrt/BISQRT_O_U.sv | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/hw/kernel/sqrt/BISQRT_O_B.sv b/hw/kernel/sqrt/BISQRT_O_B.sv
index 66e9e80..b95ca05 100644
--- a/hw/kernel/sqrt/BISQRT_O_B.sv
+++ b/hw/kernel/sqrt/BISQRT_O_B.sv
@@ -1,8 +1,8 @@
 `include "../../stream/shuffle/Bi2Uni.sv"
 
 module BISQRT_O_B #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -27,12 +27,12 @@ module BISQRT_O_B #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
@@ -56,7 +56,8 @@ module BISQRT_O_B #(
         if(~rst_n) begin
             diff_acc <= {1'b1, {{DEP-1}{1'b0}}};
         end else begin
-            diff_acc <= diff_acc + pc - out;
+            // saturate instead of wrapping around
+            diff_acc <= (&diff_acc & pc[1]) ? diff_acc : diff_acc + pc - out;
         end
     end
 
diff --git a/hw/kernel/sqrt/BISQRT_O_U.sv b/hw/kernel/sqrt/BISQRT_O_U.sv
index d50c467..98ba8b5 100644
--- a/hw/kernel/sqrt/BISQRT_O_U.sv
+++ b/hw/kernel/sqrt/BISQRT_O_U.sv
@@ -1,6 +1,6 @@
 module BISQRT_O_U #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -24,12 +24,12 @@ module BISQRT_O_U #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
@@ -44,7 +44,8 @@ module BISQRT_O_U #(
         if(~rst_n) begin
             diff_acc <= {1'b1, {{DEP-1}{1'b0}}};
         end else begin
-            diff_acc <= diff_acc + pc - out;
+            // saturate instead of wrapping around
+            diff_acc <= (&diff_acc & pc[1]) ? diff_acc : diff_acc + pc - out;
         end
     end
 
-- 
2.43.0


From 3a0028d83eb0e27e6805394edda3b465c6acb2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 13/18] fix: bipolar square root cells trace their result, and
 include the converter they use

---
 hw/kernel/sqrt/BISQRT_S_IS_B.sv | 3 ++-
 hw/kernel/sqrt/BISQRT_S_JK_B.sv | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hw/kernel/sqrt/BISQRT_S_IS_B.sv b/hw/kernel/sqrt/BISQRT_S_IS_B.sv
index 155c2fb..77e0c90 100644
--- a/hw/kernel/sqrt/BISQRT_S_IS_B.sv
+++ b/hw/kernel/sqrt/BISQRT_S_IS_B.sv
@@ -1,4 +1,5 @@
 `include "../div/CORDIV_kernel.sv"
+`include "../../stream/shuffle/Bi2Uni.sv"
 
 module BISQRT_S_IS_B #(
     parameter DEP=1,
@@ -60,7 +61,7 @@ module BISQRT_S_IS_B #(
     ) U_Bi2Uni(
         .clk(clk),
         .rst_n(rst_n),
-        .in(in),
+        .in(out),
         .out(outUni)
         );
 
diff --git a/hw/kernel/sqrt/BISQRT_S_JK_B.sv b/hw/kernel/sqrt/BISQRT_S_JK_B.sv
index 0049d32..b0fe865 100644
--- a/hw/kernel/sqrt/BISQRT_S_JK_B.sv
+++ b/hw/kernel/sqrt/BISQRT_S_JK_B.sv
@@ -41,7 +41,7 @@ module BISQRT_S_JK_B # (
     ) U_Bi2Uni(
         .clk(clk),
         .rst_n(rst_n),
-        .in(in),
+        .in(out),
         .out(outUni)
         );
 
-- 
2.43.0


From f2f59390d021f7fef41abceb271c9248d3960264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 14/18] fix: sign of the regenerated operands of the bipolar
 divider cell

---
 hw/kernel/div/CORDIV_kernel_IS_B.sv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hw/kernel/div/CORDIV_kernel_IS_B.sv b/hw/kernel/div/CORDIV_kernel_IS_B.sv
index 7bb123c..7a113f2 100644
--- a/hw/kernel/div/CORDIV_kernel_IS_B.sv
+++ b/hw/kernel/div/CORDIV_kernel_IS_B.sv
@@ -33,7 +33,7 @@ module CORDIV_kernel_IS_B #(
             dividend_cnt <= dividend ? dividend_cnt + 1 : dividend_cnt - 1;
         end
     end
-    assign dividend_regen_sign = ~dividend_cnt[BW-1];
+    assign dividend_regen_sign = dividend_cnt[BW-1];
     assign dividend_regen_abs = dividend_regen_sign ? (0 - dividend_cnt) : dividend_cnt;
     assign dividend_regen = (dividend_regen_abs > randNum) ? 1 : 0;
     
@@ -45,7 +45,7 @@ module CORDIV_kernel_IS_B #(
             divisor_cnt <= divisor ? divisor_cnt + 1 : divisor_cnt - 1;
         end
     end
-    assign divisor_regen_sign = ~divisor_cnt[BW-1];
+    assign divisor_regen_sign = divisor_cnt[BW-1];
     assign divisor_regen_abs = divisor_regen_sign ? (0 - divisor_cnt) : divisor_cnt;
     assign divisor_regen = (divisor_regen_abs > randNum) ? 1 : 0;
 
-- 
2.43.0


From 373a2e84246ff388ce4ae2ec16b33397d8b9af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 15/18] fix: bipolar to unipolar cell saturates at its lower
 end

---
 hw/stream/shuffle/Bi2Uni.sv | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hw/stream/shuffle/Bi2Uni.sv b/hw/stream/shuffle/Bi2Uni.sv
index d77dda1..37e19dd 100644
--- a/hw/stream/shuffle/Bi2Uni.sv
+++ b/hw/stream/shuffle/Bi2Uni.sv
@@ -17,7 +17,8 @@ module Bi2Uni # (
         if(~rst_n) begin
             diff_acc <= {1'b1, {{DEP-1}{1'b0}}};
         end else begin
-            diff_acc <= diff_acc + pc - 1 - out;
+            // saturate instead of wrapping around
+            diff_acc <= (~in & ~|diff_acc) ? diff_acc : diff_acc + pc - 1 - out;
         end
     end
 
-- 
2.43.0


From d85b81db914df301cadf62fd15d5c7e4595f06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 16/18] fix: integer synchronizer cell keeps what is left after
 emission and clips to the full range

---
 hw/stream/shuffle_int/SkewedSyncInt.sv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hw/stream/shuffle_int/SkewedSyncInt.sv b/hw/stream/shuffle_int/SkewedSyncInt.sv
index d8fe6c6..94cfb73 100644
--- a/hw/stream/shuffle_int/SkewedSyncInt.sv
+++ b/hw/stream/shuffle_int/SkewedSyncInt.sv
@@ -28,11 +28,11 @@ module SkewedSyncInt # (
 
     assign sum = cnt + in0;
     assign sum_overflow = sum[DEP];
-    assign sum_clip = sum_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_clip = sum_overflow ? {DEP{1'b1}} : sum[DEP-1:0];
 
     assign sum_res = sum - out0;
     assign sum_res_overflow = sum_res[DEP];
-    assign sum_res_clip = sum_res_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_res_clip = sum_res_overflow ? {DEP{1'b1}} : sum_res[DEP-1:0];
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_cnt
         if(~rst_n) begin
-- 
2.43.0


From f364d1cccfaa7128791c45887f661bd4f20cbca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:56 +0000
Subject: [PATCH 17/18] fix: FSUSignAbs counts a 0 of an unsigned stream as -1

input.mul(2).sub(1) was formed in the stream type, where 0*2-1 wraps to 255
for torch.uint8; the step is now formed in the buffer type.
---
 kernel/signabs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/signabs.py b/kernel/signabs.py
index d973e97..decac31 100644
--- a/kernel/signabs.py
+++ b/kernel/signabs.py
@@ -33,7 +33,7 @@ class FSUSignAbs(torch.nn.Module):
     
     def forward(self, input):
         # update the accumulator based on input: +1 for input 1; -1 for input 0
-        self.acc.data = self.acc.add(input.mul(2).sub(1).type(self.btype)).clamp(0, self.buf_max.item())
+        self.acc.data = self.acc.add(input.type(self.btype).mul(2).sub(1)).clamp(0, self.buf_max.item())
         sign = torch.lt(self.acc, self.buf_half).type(torch.int8)
         input_int8 = input.type(torch.int8)
         output = sign ^ input_int8
-- 
2.43.0


From e6d487d96e0d1276166f0c59603887adb27fbd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:56 +0000
Subject: [PATCH 18/18] fix: SkewedSync counts down for a 0 of an unsigned
 first stream

in_1.mul(2).sub(1) was formed in the stream type, where 0*2-1 wraps to 255
for torch.uint8; the step is now formed in the buffer type.
---
 stream/shuffle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/shuffle.py b/stream/shuffle.py
index 82c1d2e..a9f65b7 100644
--- a/stream/shuffle.py
+++ b/stream/shuffle.py
@@ -38,7 +38,7 @@ class SkewedSync(torch.nn.Module):
         cnt_not_max = torch.ne(self.cnt, self.upper.item()).type(self.stype)
 
         out_1 = in_1.add(torch.eq(sum_in, 1).type(self.stype).mul_(cnt_not_min * (1 - in_1) + (0 - cnt_not_max) * in_1))
-        self.cnt.data.add_(torch.eq(sum_in, 1).type(self.btype).mul_(in_1.mul(2).sub(1).type(self.btype))).clamp_(0, self.upper.item())
+        self.cnt.data.add_(torch.eq(sum_in, 1).type(self.btype).mul_(in_1.type(self.btype).mul(2).sub(1))).clamp_(0, self.upper.item())
         return out_1, in_2
 
 
-- 
2.43.0

