"""Hardware cells of hw/: the transition function extracted from the SystemVerilog source against reference automata.

The obligation for one cell and one parameter choice: from reset, every output equals the reference output for every
input in every state reachable in the product of both automata, whatever the input history; and reset leads back to
the start from each of them."""
from itertools import product
from types import SimpleNamespace
from . import rtl, scen
from .compare import Result
from .scen import MissingAnchor, Undecided


def b(x):
    return 1 if x else 0


def pm(x):
    return 1 if x else -1


class Ref:
    """reference automaton: start state, outputs of a state under an input, successor"""

    def __init__(self, start, out, nxt):
        self.start, self.out, self.nxt = start, out, nxt


def updown(D, step):
    """saturating counter of D bits starting at half"""
    top = 2 ** D - 1
    return lambda c, d: min(max(c + d, 0), top)


def r_sign(p):
    D = p["DEP"]
    h = 2 ** (D - 1)
    return Ref(h, lambda c, i: {"sign": b(c < h)}, lambda c, i: updown(D, 1)(c, pm(i["value"])))


def r_abs(p):
    D = p["DEP"]
    h = 2 ** (D - 1)
    return Ref(h, lambda c, i: {"sign": b(c < h), "abs": i["value"] ^ b(c < h)}, lambda c, i: updown(D, 1)(c, pm(i["value"])))


def jk(q, j, k):
    return {(0, 0): q, (1, 0): 1, (0, 1): 0, (1, 1): 1 - q}[j, k]


def r_jkff(p):
    return Ref(0, lambda q, i: {"out": q}, lambda q, i: jk(q, i["J"], i["K"]))


def sr0(n):
    return tuple(k % 2 for k in range(n))


def shift(sr, x):
    return sr[1:] + (x,)


def r_cordiv(p):
    def q(sr, i):
        return i["dividend"] if i["divisor"] else sr[i["randNum"]]
    return Ref(sr0(p["DEP"]), lambda s, i: {"quotient": q(s, i)}, lambda s, i: shift(s, q(s, i)))


def regen(c, rnd, W, signed):
    """(sign, bit): comparison of the magnitude of a W bit counter of ones minus zeros with a random number"""
    if not signed:
        return 0, b(c > rnd)
    neg = c >= 2 ** (W - 1)
    return b(neg), b((2 ** W - c if neg else c) > rnd)


def r_cordiv_is(signed):
    def mk(p):
        W, K = p["BW"], r_cordiv(p)

        def kin(s, i):
            n, d, sr = s
            (sn, bn), (sd, bd) = regen(n, i["randNum"], W, signed), regen(d, i["randNum"], W, signed)
            return sn ^ sd, {"dividend": bn, "divisor": bd, "randNum": i["randNumKernel"]}

        def out(s, i):
            sign, ki = kin(s, i)
            return {"quotient": K.out(s[2], ki)["quotient"] ^ sign}

        def nxt(s, i):
            _, ki = kin(s, i)
            return ((s[0] + pm(i["dividend"])) % 2 ** W, (s[1] + pm(i["divisor"])) % 2 ** W, K.nxt(s[2], ki))
        return Ref((0, 0, K.start), out, nxt)
    return mk


def r_gdiv_u(p):
    """the counter integrates dividend - quotient * divisor"""
    D = p["DEP"]

    def q(c, i):
        return b(c > i["randNum"])
    return Ref(2 ** (D - 1), lambda c, i: {"quotient": q(c, i)}, lambda c, i: updown(D, 1)(c, i["dividend"] - (q(c, i) & i["divisor"])))


def r_gdiv_b(p):
    """the counter integrates dividend * divisor - quotient * divisor^2, the square from a delayed copy, all bipolar"""
    D = p["DEP"]

    def q(s, i):
        return b(s[0] > i["randNum"])

    def nxt(s, i):
        c, d1 = s
        plus = pm(i["dividend"]) * pm(i["divisor"])
        minus = pm(i["divisor"]) * pm(d1) * pm(q(s, i))
        return updown(D, 1)(c, (plus - minus) // 2), i["divisor"]
    return Ref((2 ** (D - 1), 0), lambda s, i: {"quotient": q(s, i)}, nxt)


def r_gsqrt(bipolar):
    def mk(p):
        D = p["DEP"]

        def o(s, i):
            return b(s[0] > i["randNum"])

        def nxt(s, i):
            c, d1 = s
            y = o(s, i)
            sq = b(pm(y) * pm(d1) > 0) if bipolar else y & d1
            return updown(D, 1)(c, i["in"] - sq), y
        return Ref((2 ** (D - 1), 0), lambda s, i: {"out": o(s, i)}, nxt)
    return mk


def r_ssync(p):
    top = 2 ** p["DEP"] - 1

    def step(c, a, d):
        if a == d:
            return a, c
        if a:
            return (1, c) if c == top else (0, c + 1)
        return (0, c) if c == 0 else (1, c - 1)
    return Ref(0, lambda c, i: {"out0": step(c, i["in0"], i["in1"])[0], "out1": i["in1"]}, lambda c, i: step(c, i["in0"], i["in1"])[1])


def r_ssyncint(p):
    """in0 is stored, at most 2^DEP-1, until in1 is one, which emits what fits the output"""
    top = 2 ** p["DEP"] - 1

    def o(c, i):
        return min(c + i["in0"], top) if i["in1"] else 0
    return Ref(0, lambda c, i: {"out0": o(c, i), "out1": i["in1"]}, lambda c, i: min(c + i["in0"] - o(c, i), top))


def r_bi2uni(p):
    """2 * in - 1 is accumulated without scaling; a one is emitted, and paid for, while the balance is positive"""
    D = p["DEP"]
    h = 2 ** (D - 1)
    return Ref(h, lambda a, i: {"out": b(a > h)}, lambda a, i: min(max(a + 2 * i["in"] - 1 - b(a > h), 0), 2 * h - 1))


def r_uni2bi(p):
    """(in + 1) / 2: the carry of a one-bit accumulator of in and one, a cycle later"""
    return Ref((0, 0), lambda s, i: {"out": s[1]}, lambda s, i: ((s[0] + i["in"] + 1) % 2, (s[0] + i["in"] + 1) // 2))


def r_iscb_u(p):
    S, K = r_ssync({"DEP": p["DEP_SYNC"]}), r_cordiv({"DEP": p["DEP_KERNEL"]})

    def ki(s, i):
        o = S.out(s[0], {"in0": i["dividend"], "in1": i["divisor"]})
        return {"dividend": o["out0"], "divisor": o["out1"], "randNum": i["randNum"]}
    return Ref((S.start, K.start), lambda s, i: K.out(s[1], ki(s, i)),
               lambda s, i: (S.nxt(s[0], {"in0": i["dividend"], "in1": i["divisor"]}), K.nxt(s[1], ki(s, i))))


def r_iscb_b(p):
    A, B, U, V = r_abs({"DEP": p["DEP_ABS"]}), r_bi2uni({"DEP": 3}), r_iscb_u(p), r_uni2bi({})

    def parts(s, i):
        a, c, e, f, u, v = s
        oa, oc = A.out(a, {"value": i["dividend"]}), A.out(c, {"value": i["divisor"]})
        ue = {"dividend": B.out(e, {})["out"], "divisor": B.out(f, {})["out"], "randNum": i["randNum"]}
        return oa, oc, ue, U.out(u, ue)["quotient"]

    def out(s, i):
        oa, oc, ue, q = parts(s, i)
        return {"quotient": V.out(s[5], {})["out"] ^ oa["sign"] ^ oc["sign"]}

    def nxt(s, i):
        a, c, e, f, u, v = s
        oa, oc, ue, q = parts(s, i)
        return (A.nxt(a, {"value": i["dividend"]}), A.nxt(c, {"value": i["divisor"]}), B.nxt(e, {"in": oa["abs"]}), B.nxt(f, {"in": oc["abs"]}),
                U.nxt(u, ue), V.nxt(v, {"in": q}))
    return Ref((A.start, A.start, B.start, B.start, U.start, V.start), out, nxt)


def r_sqrt_jk(bipolar):
    """bits are inserted by the trace Y/(Y+1) of the result Y, from a flip-flop that toggles on Y"""
    def mk(p):
        B = r_bi2uni({"DEP": p.get("DEP", 3)})

        def out(s, i):
            return {"out": 1 if s[0] else i["in"]}

        def nxt(s, i):
            y = out(s, i)["out"]
            if bipolar:
                return jk(s[0], B.out(s[1], {})["out"], 1), B.nxt(s[1], {"in": y})
            return jk(s[0], y, 1), s[1]
        return Ref((0, B.start if bipolar else 0), out, nxt)
    return mk


def trace(dff, sr, y, rnd):
    n = (1 - dff) & y
    d = dff | n
    return n if d else sr[rnd]


def r_sqrt_is_u(p):
    """as above with the trace from the in-stream divider y/(y+1); the result is registered"""
    def nxt(s, i):
        y, dff, sr = s
        t = trace(dff, sr, y, i["randNum"])
        return (1 if t else i["in"]), 1 - dff, shift(sr, t)
    return Ref((0, 0, sr0(p["DEP"])), lambda s, i: {"out": s[0]}, nxt)


def r_sqrt_is_b(p):
    B = r_bi2uni({"DEP": 3})

    def t(s, i):
        return trace(s[1], s[2], B.out(s[0], {})["out"], i["randNum"])

    def out(s, i):
        return {"out": 1 if t(s, i) else i["in"]}
    return Ref((B.start, 0, sr0(p["DEP"])), out, lambda s, i: (B.nxt(s[0], {"in": out(s, i)["out"]}), 1 - s[1], shift(s[2], t(s, i))))


def r_sqrt_o(bipolar):
    """the result is in + emitted bits, not scaled; emitted: the result times its scrambled inverse"""
    def mk(p):
        D = p["DEP"]
        h = 2 ** (D - 1)
        B = r_bi2uni({"DEP": 3})

        def nxt(s, i):
            a, sr, u = s
            y = b(a > h)
            e = sr[i["randNum"]] & (B.out(u, {})["out"] if bipolar else y)
            return min(max(a + i["in"] + e - y, 0), 2 * h - 1), shift(sr, 1 - y), (B.nxt(u, {"in": y}) if bipolar else 0)
        return Ref((h, sr0(p["DEP_SR"]), B.start if bipolar else 0), lambda s, i: {"out": b(s[0] > h)}, nxt)
    return mk


K, S = "hw/kernel/", "hw/stream/"


def P(**axes):
    out = [{}]
    for k, vs in axes.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def srs(ns):
    return [(n, max(1, (n - 1).bit_length())) for n in ns]


def two(ps, dep, log):
    return [dict({k: v for k, v in p.items() if k != "_"}, **{dep: p["_"][0], log: p["_"][1]}) for p in ps]


CELLS = {
    "Sign": (K + "sign/Sign.sv", r_sign, lambda t: P(DEP=[2, 3, 4, 5] + ([6, 7, 8, 10] if t else []))),
    "Abs": (K + "abs/Abs.sv", r_abs, lambda t: P(DEP=[2, 3, 4, 5] + ([6, 7, 8, 10] if t else []))),
    "JKFF": (K + "jkff/JKFF.sv", r_jkff, lambda t: [{}]),
    "CORDIV_kernel": (K + "div/CORDIV_kernel.sv", r_cordiv, lambda t: two(P(_=srs([2, 4] + ([8] if t else []))), "DEP", "DEPLOG")),
    "CORDIV_kernel_IS_U": (K + "div/CORDIV_kernel_IS_U.sv", r_cordiv_is(False), lambda t: two(P(BW=[2, 3] + ([4] if t else []), _=srs([2] + ([4] if t else []))), "DEP", "DEPLOG")),
    "CORDIV_kernel_IS_B": (K + "div/CORDIV_kernel_IS_B.sv", r_cordiv_is(True), lambda t: two(P(BW=[2, 3] + ([4] if t else []), _=srs([2] + ([4] if t else []))), "DEP", "DEPLOG")),
    "GDIV_U": (K + "div/GDIV_U.sv", r_gdiv_u, lambda t: P(DEP=[2, 3, 4, 5] + ([6, 7] if t else []))),
    "GDIV_B": (K + "div/GDIV_B.sv", r_gdiv_b, lambda t: P(DEP=[2, 3, 4, 5] + ([6, 7] if t else []))),
    "ISCBDIV_U": (K + "div/ISCBDIV_U.sv", r_iscb_u, lambda t: two(P(DEP_SYNC=[1, 2, 3] + ([4] if t else []), _=srs([2, 4])), "DEP_KERNEL", "DEPLOG_KERNEL")),
    "ISCBDIV_B": (K + "div/ISCBDIV_B.sv", r_iscb_b, lambda t: two(P(DEP_ABS=[2, 3] if t else [2], DEP_SYNC=[1, 2] if t else [1], _=srs([2])), "DEP_KERNEL", "DEPLOG_KERNEL")),
    "GSQRT_U": (K + "sqrt/GSQRT_U.sv", r_gsqrt(False), lambda t: P(DEP=[2, 3, 4, 5] + ([6, 7] if t else []))),
    "GSQRT_B": (K + "sqrt/GSQRT_B.sv", r_gsqrt(True), lambda t: P(DEP=[2, 3, 4, 5] + ([6, 7] if t else []))),
    "BISQRT_S_JK_U": (K + "sqrt/BISQRT_S_JK_U.sv", r_sqrt_jk(False), lambda t: [{}]),
    "BISQRT_S_JK_B": (K + "sqrt/BISQRT_S_JK_B.sv", r_sqrt_jk(True), lambda t: P(DEP=[2, 3, 4] + ([5, 6] if t else []))),
    "BISQRT_S_IS_U": (K + "sqrt/BISQRT_S_IS_U.sv", r_sqrt_is_u, lambda t: two(P(_=srs([2, 4] + ([8] if t else []))), "DEP", "DEPLOG")),
    "BISQRT_S_IS_B": (K + "sqrt/BISQRT_S_IS_B.sv", r_sqrt_is_b, lambda t: two(P(_=srs([2, 4] + ([8] if t else []))), "DEP", "DEPLOG")),
    "BISQRT_O_U": (K + "sqrt/BISQRT_O_U.sv", r_sqrt_o(False), lambda t: two(P(DEP=[2, 3, 4], _=srs([2, 4] + ([8] if t else []))), "DEP_SR", "DEPLOG_SR")),
    "BISQRT_O_B": (K + "sqrt/BISQRT_O_B.sv", r_sqrt_o(True), lambda t: two(P(DEP=[3, 4, 5], _=srs([2, 4] + ([8] if t else []))), "DEP_SR", "DEPLOG_SR")),
    "SkewedSync": (S + "shuffle/SkewedSync.sv", r_ssync, lambda t: P(DEP=[1, 2, 3, 4] + ([5, 6, 8] if t else []))),
    "Bi2Uni": (S + "shuffle/Bi2Uni.sv", r_bi2uni, lambda t: P(DEP=[2, 3, 4, 5] + ([6, 8, 10] if t else []))),
    "Uni2Bi": (S + "shuffle/Uni2Bi.sv", r_uni2bi, lambda t: [{}]),
    "SkewedSyncInt": (S + "shuffle_int/SkewedSyncInt.sv", r_ssyncint, lambda t: P(DEP=[2, 3, 4], BWIN=[1, 2]) + (P(DEP=[3, 4], BWIN=[3]) if t else [])),
}
LIMIT = 3_000_000


def show(i):
    return {k: v for k, v in i.items()}


def decide(name, params):
    rel, mk, _ = CELLS[name]
    import os
    if not os.path.exists(os.path.join(scen.ROOT, rel)):
        raise MissingAnchor("%s no longer exists" % rel)
    s = SimpleNamespace(name="%s(%s)" % (name, ", ".join("%s=%s" % kv for kv in params.items())), unit="hw." + name)

    def bad(why, witness=None, site=None):
        r = Result(s, "VIOLATION", why, witness)
        r.site, r.rule = site, "hardware cell equals its reference automaton"
        return r
    try:
        return explore(name, rel, mk(params), params, s, bad)
    except rtl.RTLError as e:
        f = getattr(e, "file", None) or rel
        return bad("the source is not well formed: %s" % e, None, (name, f, e.line or 1))
    except rtl.RTLUnmodelled as e:
        raise Undecided("outside the modelled SystemVerilog subset: %s" % e)


def explore(name, rel, ref, params, s, bad):
    d = rtl.Design(scen.ROOT, rel, name, params)
    scen.STATS.files |= set(d.files)
    scen.STATS.funcs |= {(i.mod.file, i.mod.name) for i in d.insts}
    ins = d.inputs_of()
    names = {n for n, _ in ins}
    for n in ("clk", "rst_n"):
        if n not in names:
            return bad("input port %s is missing" % n, None, (name, rel, d.top.mod.line))
    data = [(n, w) for n, w in ins if n not in ("clk", "rst_n")]
    alphabet = [dict(zip([n for n, _ in data], v)) for v in product(*[range(2 ** w) for _, w in data])]
    outs = d.outputs_of()
    start = d.start()
    keys = sorted(start)
    freeze = lambda st: tuple(st[k] for k in keys)
    try:
        rout = set(ref.out(ref.start, alphabet[0]))
    except (KeyError, IndexError) as e:
        return bad("the input ports differ from the interface of the cell (%s)" % e, None, (name, rel, d.top.mod.line))
    if set(outs) != rout:
        return bad("output ports are %s, expected %s" % (sorted(outs), sorted(rout)), None, (name, rel, d.top.mod.line))
    seen = {(freeze(start), ref.start): None}
    todo = [(start, ref.start)]
    table, n = {}, 0
    s0 = freeze(start)
    resets = set()
    while todo:
        st, rs = todo.pop(0)
        fs = freeze(st)
        if fs not in resets:
            resets.add(fs)
            again = d.next(st, {q: ((0, 0) if q == "rst_n" else (0, rtl.mask(w))) for q, w in ins}, reset=True)
            if freeze(again) != s0:
                return bad("reset does not lead back to the start state", {"inputs since reset": path(seen, (fs, rs))}, (name, rel, d.top.mod.line))
        for k, i in enumerate(alphabet):
            n += 1
            if n > LIMIT:
                raise Undecided("product automaton with more than %d transitions" % LIMIT)
            if (fs, k) not in table:
                vals = {q: (i[q], 0) for q, _ in data}
                vals.update(clk=(0, 1), rst_n=(1, 0))
                o = d.outputs(st, vals)
                table[fs, k] = (o, d.next(st, vals))
            o, nx = table[fs, k]
            exp = ref.out(rs, i)
            for q in outs:
                if o[q] != (exp[q], 0):
                    drv = d.top.drivers[q]
                    got = "unknown" if o[q][1] else o[q][0]
                    return bad("output %s is %s, the reference gives %s" % (q, got, exp[q]), {"inputs since reset": path(seen, (fs, rs)) + [show(i)], "registers": {"%s.%s" % kk: ("x" if v[1] else v[0]) for kk, v in st.items()}},
                               (name + "." + q, rel, drv[0][4] if drv else d.top.mod.line))
            nr = ref.nxt(rs, i)
            key = (freeze(nx), nr)
            if key not in seen:
                seen[key] = ((fs, rs), i)
                todo.append((nx, nr))
    return Result(s, "PROVED", stats={"phases": len({k[0] for k in seen}), "out_obligations": n * len(outs), "state_obligations": len(seen)})


def path(seen, key):
    out = []
    while seen[key] is not None:
        key, i = seen[key]
        out.append(show(i))
    return out[::-1]


class HwItem:
    rname = "hardware cell"
    mk = None

    def __init__(self, name, params):
        self.name, self.params = name, params

    def run(self):
        return decide(self.name, self.params)

    def label(self):
        return "hardware cell: %s(%s)" % (self.name, ", ".join("%s=%s" % kv for kv in self.params.items()))


def items(t):
    return [HwItem(n, p) for n, (_, _, ps) in CELLS.items() for p in ps(t)]
