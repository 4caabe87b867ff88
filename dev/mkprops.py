"""writes properties.jsonl and MANIFEST.json (dev helper)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": s} for s in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


ST = ["kernel/", "stream/"]
prop("C01", "Stream outputs are always single bits of the configured type",
     "Every element of every bit-stream result of a streaming unit is exactly 0 or 1, on every cycle and whatever bits came before, and has the configured stream data type. This covers adders with scaled or unscaled outputs, multipliers, dividers, square root, flip-flops, shift registers, polarity converters, synchronisers, activations, linear and convolution layers, recurrent cells and stream generators (not the parallel-counter variants, whose results are counts).",
     ["histories", "inputs", "configurations"], "all input bit histories, operand values and unit configurations", "a test samples a handful of streams of one type; a unit that emits 2, -1, a fraction or another data type only in a rarely reached buffer state is not seen",
     ST, [("stream units", "kernel/*.py forward()"), ("stream generators and shufflers", "stream/*.py forward()")], ["accumulators", "shift registers", "random-number indices"], ["forward() results"])
prop("C02", "Counter buffers saturate at their depth and never wrap",
     "Every unit with a counter or accumulator of a configured depth (scaled and unscaled adders, linear and convolution layers, sign-absolute, ReLU, polarity converters, stream synchroniser, divider, recurrent cell) keeps the counter within the range that depth allows: it stops at either bound and resumes from that bound. Results at and around the bounds are those of a counter clamped on every cycle, for every history and for every depth from the smallest up.",
     ["histories", "configurations"], "all input histories (in particular long one-sided ones) and depths", "the default depths are never reached in the tested lengths, so clamping is hardly exercised",
     ST, [("accumulator clamping", "kernel/add.py, kernel/linear.py, kernel/conv.py, kernel/signabs.py, kernel/relu.py"), ("buffers of the shufflers", "stream/shuffle.py")], ["accumulator", "counter"], ["forward() results over time"])
prop("C03", "Units never modify tensors that belong to the caller",
     "No unit, metric or helper writes into a tensor the caller passed to a call or to the constructor: inputs, external weights and biases, source values, tables and hidden states keep their values, shape and type. This holds for construction and for every call in every reachable state.",
     ["inputs", "histories", "configurations"], "all units, constructor operands and call sequences", "in-place updates of an alias only show when the test compares its operand afterwards, and only for the type/shape combination where no copy is made",
     ["kernel/", "stream/", "metric/"], [("in-place operations", "all .add_/.clamp_/.data writes")], None, ["caller's tensors after a call"])
prop("C04", "Configurations are read-only and instances are independent",
     "Constructing or running a unit never changes a configuration dictionary of the caller, a default configuration, or module-level state, and a unit does not change its behaviour when the caller later edits a dictionary it passed. Two instances of a unit never influence each other.",
     ["histories", "configurations"], "all units and interleavings of constructions and calls", "tests build one instance from a fresh dictionary; shared defaults only show with a second instance built later",
     ["kernel/", "stream/", "metric/"], [("configuration copying", "__init__ of all units")], ["hwcfg", "swcfg"], ["behaviour of a second instance", "dictionary contents"])
prop("C05", "Results are snapshots and inputs are not retained by reference",
     "A tensor returned by a streaming unit, layer or monitor never changes when the unit is used again, and overwriting a returned tensor or an input tensor of an earlier call never changes later results. Units documented to hand out their own table or live parameter (number generators, the progressive-error monitor) are excluded.",
     ["histories"], "all call sequences, with the caller overwriting earlier tensors in between", "tests consume each result at once, so an aliased state buffer is never noticed",
     ["kernel/", "stream/", "metric/"], [("returns of state", "forward() of all units")], ["flip-flop, register and accumulator buffers"], ["earlier results after later calls"])
prop("C06", "Results depend only on configuration, operands and inputs",
     "The results of every unit are a function of its configuration, its constructor operands and the sequence of its inputs: no dependence on random state, time, environment, uninitialised memory or other global state, and no write to global state. Explicitly random generators and default weight initialisation are the only exceptions.",
     ["histories", "configurations"], "all units, configurations and call sequences", "a dependence on uninitialised or global state is usually invisible in one process run",
     ["kernel/", "stream/", "metric/"], [("sources of randomness", "stream/gen.py get_*_seq"), ("parameter creation", "__init__ of all units")], None, ["results"])
prop("C07", "Random-number tables are complete, in range and of the right kind",
     "A generator of a given width returns a table of two-to-the-width integers between 0 and two-to-the-width minus one in the configured type: Sobol tables are the scaled points of the requested Sobol dimension, race/temporal tables count up or down from the right end, and system-random tables are permutations. Shift-register tables follow a maximum-length recurrence, starting from a non-zero state.",
     ["configurations"], "all generator kinds, widths, dimensions and data types", "tests print tables of one width; a wrong entry or a duplicated value is only visible in long-run accuracy",
     ["stream/gen.py"], [("table construction", "stream/gen.py RNG, get_lfsr_seq, get_sysrand_seq")], ["table"], ["generator result"])
prop("C08", "Binary sources and bit-stream generation encode the value exactly",
     "The source generator turns a value into the binary source for its mode: the rounded value times two-to-the-width in unipolar mode, and the rounded shifted-and-halved value times two-to-the-width in bipolar mode. The bit generator emits 1 exactly when the source exceeds the table entry selected by the cycle index, so that over one full period of a complete table the number of ones equals the source.",
     ["inputs", "configurations"], "all values in range, widths, modes, tables, indices, shapes and types", "tests check the mean of random values with a tolerance, so off-by-one encodings and comparisons pass",
     ["stream/gen.py"], [("source encoding", "stream/gen.py BinGen"), ("comparison", "stream/gen.py BSGen")], None, ["generated bits"])
prop("C09", "The unary multiplier selects conditional bits correctly",
     "With a static operand the multiplier outputs, on every cycle, the AND (unipolar) or XNOR (bipolar) of the input bit and the operand's conditional bit stream, whose index advances only when the enabling input bit arrives (separate index for 0-bits in bipolar mode). With a second input stream the conditional stream comes from the running shift register of that stream, and all of this holds per element for every width, generator, shape and data type.",
     ["histories", "inputs", "configurations"], "all input histories, operand values, widths, modes and generators", "tests compare average error after 256 cycles with loose expectations; index slips and wrong enable conditions look like noise",
     ["kernel/mul.py"], [("static path", "kernel/mul.py FSUMul"), ("in-stream path", "kernel/mul.py FSUMul")], ["generator index", "shift register"], ["forward() results"])
prop("C10", "The unary adder and hard sigmoid conserve the scaled input sum",
     "Each cycle the adder adds the count of ones along its reduction dimension minus its bipolar offset (half of the difference between entry count and scale; zero in unipolar mode) to the accumulator, clamps it to its depth, emits 1 exactly when the accumulator reaches the scale, and subtracts the scale when it does. Scale defaults to the entry count and both can be given at construction or overridden at run time; the hard sigmoid is the adder of its input with a constant-one stream.",
     ["histories", "inputs", "configurations"], "all input histories and counts, scales, entries, dimensions, depths and modes", "tests measure error of the mean; lost carries or a wrong offset for particular entry counts are absorbed by the tolerance",
     ["kernel/add.py", "kernel/sigmoid.py"], [("accumulation", "kernel/add.py FSUAdd"), ("hard sigmoid", "kernel/sigmoid.py FSUHardsigmoid")], ["accumulator"], ["forward() results"])
prop("C11", "Unary linear layers count products exactly and reduce them by scale",
     "On every cycle the parallel-counter form returns, per batch row and output, the exact number of set product bits between input bits and conditional weight bits plus the bias bit, with per-input generator indices that advance only on enabling bits. The scaled form feeds that count to an adder whose entry count is the number of inputs plus the bias, so that its output stream is that of the unary adder, including run-time scale and entry overrides.",
     ["histories", "inputs", "configurations"], "all input histories, weights, biases, sizes, widths, modes and generators", "tests compare end-of-stream means on random data; per-cycle miscounts, batch mix-ups or bias handling errors average out",
     ["kernel/linear.py"], [("parallel counter", "kernel/linear.py FSULinearPC"), ("scaled layer", "kernel/linear.py FSULinear")], ["generator indices", "accumulator"], ["forward() results"])
prop("C12", "Unary convolutions equal the unary linear layer on every patch",
     "For every kernel size, stride, padding, dilation, channel count and batch, each output position of the unary convolution is, on every cycle, what the unary linear layer gives on the corresponding input patch; padded positions contribute the zero stream. Output shape is the standard convolution shape, in both the counting and the scaled form.",
     ["histories", "inputs", "configurations"], "all input histories, weights, geometries and generators", "only one geometry is tested and only through the final mean",
     ["kernel/conv.py"], [("patch extraction and counting", "kernel/conv.py FSUConv2dPC"), ("scaled form", "kernel/conv.py FSUConv2d")], ["generator indices", "accumulator"], ["forward() results"])
prop("C13", "Elements and batch entries never influence each other",
     "In element-wise streaming units each output element depends only on the history of the same element of the inputs; in adders only on its own reduction group; in linear, convolution and recurrent units each batch entry's results depend only on that entry's inputs. This holds over whole histories, through all internal state.",
     ["histories", "inputs"], "all pairs of histories that agree on one element or batch entry", "state shared across elements is invisible in tests that use one element or identical statistics for all",
     ["kernel/", "stream/shuffle.py"], [("state expansion to input shape", "forward() of all streaming units")], ["all state tensors"], ["forward() results"])
prop("C14", "Custom gradients are straight-through gradients of the exact layer",
     "Every layer with a hardware-approximate forward pass back-propagates exactly the gradients of the exact linear map: for input, weight and bias, of the matching shape, one result per forward argument, and none for non-differentiable arguments or those that need no gradient. This holds with and without bias and for every rounding and coding option.",
     ["inputs", "configurations"], "all inputs, weights, upstream gradients and layer configurations", "no test checks gradients; wrong transposes are invisible for square or symmetric shapes",
     ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("backward functions", "kernel/linear.py, kernel/conv.py autograd functions")], None, ["gradients"])
prop("C15", "Progressive error and stability report exactly the running statistics",
     "After every monitored cycle the progressive-error monitor reports the running mean of the bits seen (mapped to the polarity) and its difference from the scaled and range-clamped source value. The stability metric is one minus the last cycle at which the error exceeded the threshold, relative to the stream length (limited to at least one), and reporting never disturbs a monitor.",
     ["histories", "inputs", "configurations"], "all monitored histories, source values, modes, scales and thresholds", "tests look at the final number of one run with tolerance",
     ["metric/metric.py", "kernel/utils.py"], [("running mean", "metric/metric.py ProgError"), ("last unstable cycle", "metric/metric.py Stability"), ("report", "kernel/utils.py progerror_report")], ["counters"], ["metric results"])
prop("C16", "Stream correlation follows the defined pairwise bit statistics",
     "The correlation metric counts, per element, the four joint outcomes of the two monitored bits (and, for one stream, of consecutive bits) and returns the defined correlation formula of those counts, including the degenerate case of a zero denominator.",
     ["histories", "inputs"], "all pairs of monitored histories and shapes", "one pair of random streams is tested; branch choices per element and the degenerate cases are not",
     ["metric/metric.py"], [("pair counting", "metric/metric.py Correlation")], ["four counters"], ["metric results"])
prop("C17", "Shape and padding helpers agree with convolution geometry",
     "The output-shape helpers return the standard size of a convolution and a transposed convolution for every input size, kernel, stride, padding (integer, pair or pair of pairs), dilation and output padding, with integers meaning the same value in both directions. The padding helpers return paddings whose two sides sum to what the wanted output size requires, the smaller half first, so that applying the shape helper to them gives back the wanted size.",
     ["inputs"], "all integer sizes, strides, paddings and dilations", "the helpers are not tested at all; errors need unequal directions, odd totals or dilation",
     ["kernel/utils.py"], [("shape formulas", "kernel/utils.py conv2d_output_shape, convtransp2d_output_shape"), ("padding", "kernel/utils.py conv2d_get_padding, convtransp2d_get_padding")], None, ["helper results"])
prop("C18", "Illegal configurations and operands are rejected",
     "A unit refuses, at construction or on the first call that shows it, every configuration or operand outside its documented domain: unknown modes, generators, rounding or formats, mismatched operand shapes, out-of-range quantiles and thresholds, lengths that are not powers of two, stream types it cannot represent, and missing operands. It raises an error instead of computing something.",
     ["configurations", "inputs"], "all units and each documented constraint violated on its own", "tests only build legal units",
     ["kernel/", "stream/", "metric/"], [("assertions", "__init__ of all units")], None, ["raised errors"])
prop("C19", "The skewed synchroniser preserves bits and maximises overlap",
     "The synchroniser passes the second stream unchanged and shifts ones of the first stream through a bounded buffer: a lone 1 of the first stream is stored if there is room and otherwise emitted, and a stored 1 is emitted when the second stream has a lone 1. Thus no one is lost or created beyond the buffer content, for every history, depth, shape and type.",
     ["histories", "configurations"], "all pairs of bit histories and buffer depths", "tests look at the correlation of one random pair",
     ["stream/shuffle.py"], [("synchroniser", "stream/shuffle.py SkewedSync")], ["skid counter"], ["forward() results"])
prop("C20", "Polarity converters conserve value within their buffer",
     "The bipolar-to-unipolar and unipolar-to-bipolar converters emit, on every cycle, the bit decided by a clamped accumulator of the value difference between input and output, so that the difference between consumed and produced value always equals the accumulator content. This holds for every history, depth, shape and type.",
     ["histories", "configurations"], "all bit histories and depths", "tests check only the final mean for a few values",
     ["stream/shuffle.py"], [("converters", "stream/shuffle.py Bi2Uni, Uni2Bi")], ["accumulator"], ["forward() results"])
prop("C21", "The divider computes correlated division with a kept quotient history",
     "The division kernel outputs the dividend bit when the divisor bit is 1 and otherwise a bit of its own quotient history selected by its generator, and records the quotient only when the divisor is 1. The full divider feeds it synchronised dividend and divisor (after sign-magnitude separation in bipolar mode) and reapplies the sign in bipolar mode.",
     ["histories", "inputs", "configurations"], "all dividend and divisor histories, history lengths, generators and modes", "tests measure the error of the mean for random operands",
     ["kernel/div.py"], [("division kernel", "kernel/div.py CORDIV_kernel"), ("divider", "kernel/div.py FSUDiv")], ["quotient register", "generator index"], ["forward() results"])
prop("C22", "The square-root unit follows its feedback recurrence",
     "In all of its forms (flip-flop or division feedback, with or without emission, both polarities) the square-root unit outputs on every cycle the bit given by its documented feedback recurrence from the input bit and its own past outputs. Register lengths, generator and data type change nothing but what they configure.",
     ["histories", "configurations"], "all bit histories, forms and configurations", "tests average the error; a wrong feedback tap converges to a slightly different value",
     ["kernel/sqrt.py"], [("feedback", "kernel/sqrt.py FSUSqrt")], ["trace bit", "flip-flop", "registers"], ["forward() results"])
prop("C23", "Flip-flop and shift register follow their truth tables",
     "The JK flip-flop holds, resets, sets or toggles per element according to its two inputs, starting from zero. The shift register starts half-filled in alternating order, shifts in one bit per call (only where the mask allows), returns the element at the requested position together with the number of ones it holds.",
     ["histories", "inputs", "configurations"], "all bit histories, shapes, lengths, masks, positions and types", "tests run few cycles with one input pattern",
     ["kernel/jkff.py", "kernel/shiftreg.py"], [("flip-flop", "kernel/jkff.py JKFF"), ("register", "kernel/shiftreg.py ShiftReg")], ["flip-flop state", "register content"], ["forward() results"])
prop("C24", "Sign-magnitude and activation units follow their counter definition",
     "The sign-magnitude unit reports the sign of a clamped up/down counter of the bipolar input and outputs the input bit, inverted for negative values; the streaming ReLU passes the input while its counter is not below the middle and otherwise outputs the alternating zero pattern. Hard tanh passes streams unchanged, and the binary-domain hard sigmoid, tanh and ReLU equal their clamped definitions for every input and scale.",
     ["histories", "inputs", "configurations"], "all histories and input values, depths and scales", "tests use a few values whose counters stay on one side",
     ["kernel/signabs.py", "kernel/relu.py", "kernel/sigmoid.py", "kernel/tanh.py"], [("counters", "kernel/signabs.py, kernel/relu.py"), ("binary activations", "kernel/sigmoid.py, kernel/tanh.py, kernel/relu.py")], ["counter"], ["forward() results"])
prop("C25", "Hardware layers compute exactly their quantised arithmetic",
     "The hybrid unary, fixed-point and table-look-up linear and convolution layers return, for every input, weight and bias, the product sums of their quantised operands under the configured width, coding, quantile, rounding and cycle count, with the power-of-two scaling applied and undone consistently, then the unquantised bias. A convolution equals the linear layer on each patch for every geometry.",
     ["inputs", "configurations"], "all inputs, weights, biases, widths, codings, roundings, cycle limits and geometries", "tests compare with a float layer by eye; truncation, sign and early-termination errors stay within the printed error",
     ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py"], [("hybrid unary", "kernel/linear.py HUBLinear, kernel/conv.py HUBConv2d"), ("fixed point", "kernel/linear.py FXPLinear"), ("table look-up", "kernel/linear.py TLUTLinear")], None, ["forward() results"])
prop("C26", "Minimal-gated-unit cells follow their recurrence",
     "The streaming, hybrid unary and hard recurrent cells compute the new hidden value from input and previous hidden value by the minimal-gated-unit recurrence, with the forget gate and the new gate each from its own weights and bias, gated in the documented way. This holds with and without bias and initial hidden value, for every size and batch.",
     ["histories", "inputs", "configurations"], "all input histories, weights, sizes and configurations", "the recurrent tests only print errors",
     ["kernel/rnn.py"], [("cells", "kernel/rnn.py FSUMGUCell, HUBMGUCell, HardMGUCell")], ["hidden value", "adder accumulators"], ["cell results"])
prop("C27", "Quantisers, clippers and scalers return the nearest legal value",
     "The weight clipper, on the calls its frequency selects, rounds every weight and bias to the grid of its bit width and clamps it to the range of its mode, leaving layers without bias intact; the value scaler divides by the configured quantile of magnitudes and clamps to the unit range; the rounding quantiser rounds to its fixed-point grid and saturates. Truncated normal initialisation stays within two deviations of its mean.",
     ["inputs", "configurations", "histories"], "all tensors, bit widths, modes, frequencies and quantiles", "these helpers have no tests or a single printed example",
     ["kernel/utils.py", "stream/gen.py"], [("clipper", "kernel/utils.py NN_SC_Weight_Clipper"), ("rounding", "kernel/utils.py RoundSTE"), ("scaler", "stream/gen.py RawScale"), ("truncated normal", "kernel/utils.py truncated_normal")], ["call counter"], ["resulting tensors"])
prop("C28", "Every accepted configuration constructs and runs",
     "A configuration that passes the documented constraints can be constructed and called repeatedly in every reachable state without an error: every documented mode in any letter case, generator, stream and buffer type, width, shape, optional operand left out, and the default configuration of each unit.",
     ["configurations", "histories"], "all units, documented configuration values and histories", "each test uses one configuration; type/shape combinations that crash are only found by users",
     ["kernel/", "stream/", "metric/"], [("construction and calls", "__init__ and forward of all units")], None, ["raised errors"])
prop("C29", "Hardware cells implement their reference automata",
     "Every register-transfer cell of the hardware directory outside the retired folders is well formed with all the cells it includes, leaves reset in its defined start state from whatever state it was in, and from then on gives, for every input history, the outputs of its definition. The sign and magnitude counters and the bipolar-to-unipolar balance saturate, the flip-flop follows the JK table, synchronisers store and release ones within their buffer, dividers and square roots follow their feedback recurrence.",
     ["histories", "inputs", "configurations"], "all cells, input histories and parameter choices, and a reset at any moment", "no test simulates the hardware; a counter that wraps only shows in a long run of equal bits",
     ["hw/kernel/", "hw/stream/"], [("dividers", "hw/kernel/div/*.sv"), ("square roots", "hw/kernel/sqrt/*.sv"), ("sign, magnitude, flip-flop", "hw/kernel/sign, hw/kernel/abs, hw/kernel/jkff"), ("converters and synchronisers", "hw/stream/shuffle, hw/stream/shuffle_int")], ["all registers of the cells"], ["output ports"])

NA = [
    ("N01", "Unary streams converge to the exact result within the error bound",
     "The progressive error of each arithmetic unit falls below a bound that shrinks with the stream length, for all operand values.",
     ["inputs", "configurations"], "all operand values and lengths", "tests sample values", ["kernel/", "metric/"], [("arithmetic units", "kernel/*.py")],
     "a numerical convergence bound over all operand values and stream lengths: it quantifies over low-discrepancy statistics that no static argument in reach bounds; the per-cycle recurrences that determine it are decided by C09-C12, C21, C22"),
    ("N02", "Software units match the hardware description bit for bit",
     "The register-transfer modules of the hardware directory produce the same bits as the software units on the same inputs.",
     ["histories"], "all input histories", "there is no co-simulation", ["hw/"], [("hardware modules", "hw/")],
     "the pinned hardware is by design not bit-identical to the software: cells register results a cycle later, use other start states and buffer widths, and most software units have only retired counterparts; what the cells must do on their own is decided by C29"),
    ("N03", "Results are the same on every device and library version",
     "Results do not change between processors, accelerators and supported versions of the tensor library.",
     ["configurations"], "all devices and versions", "one device is available", ["kernel/", "stream/", "metric/"], [("device placement", "all units")],
     "depends on the numerical behaviour of the tensor library and devices, which is outside the repository's source"),
]
for id, title, st, over, q, why, files, mech, _ in NA:
    prop(id, title, st, over, q, why, files, mech)

EFFECT = {"C01": "value-range and type rule on results", "C03": "write-effect and ownership rule", "C04": "write-effect, escape and two-instance interference rule", "C05": "aliasing rule over call sequences (taint of caller-visible storage)",
          "C06": "source-to-result dependency rule", "C13": "dependency closure over state (non-interference)", "C14": "backward functions evaluated abstractly and compared with the exact gradient terms", "C18": "must-raise typestate rule", "C28": "exception reachability rule"}
EQ = "per configuration, the extracted transfer function and the reference transfer function are related by an inductive state relation and compared in normal form"

T29 = ("static analysis: the SystemVerilog hierarchy is parsed, elaborated and flattened into a bit-accurate dataflow graph with unknown values; the register transfer functions it defines are related to a reference automaton "
       "by a least fixpoint over register valuations (collecting semantics), with the output rule decided at every point of the fixpoint")
N29 = "For each listed parameter choice (counter widths, buffer depths, register lengths) the rule is decided for all inputs and histories and for a reset in every reachable state; larger parameters, timing and the retired folders are not covered."


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"].startswith("N"):
            continue
        i = p["id"]
        checks.append({
            "property": i,
            "quick_cmd": "python3 /verif/check.py %s quick" % i,
            "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T29 if i == "C29" else "static analysis: abstract interpretation of the Python syntax trees into per-configuration transfer functions (dataflow fixpoint over heap phases); " + EFFECT.get(i, EQ),
            "level": "other",
            "level_note": N29 if i == "C29" else "For each enumerated configuration (modes, types, widths, depths, representative shapes) the rule is decided for all inputs, operands and histories; configurations not listed and float rounding are not covered.",
        })
    m = {"version": 1, "setup_cmd": "python3 /verif/selftest.py", "checks": checks,
         "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
         "notes": "No hooks in /repo are needed. Known findings and repaired defects: /verif/known-findings.txt. The analyser never imports or executes /repo code."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
