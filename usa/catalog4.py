"""Scenarios built on the others: documented default configurations, illegal configurations and
operands, random tables, weight initialisation, gradient functions."""
from fractions import Fraction
from . import terms as T
from . import tensor as TT
from . import refs as R
from . import catalog as C
from . import catalog2 as D
from . import catalog3 as G
from .scen import Scn, In, Undecided, construct, analyse, STATS, interp, Env, flat, Raised
from .tensor import Tensor, AbsRaise
from .catalog import sw, T_, F, I8, I64, prange, two
from .terms import P, ZERO, ONE


# ------------------------------------------------------------------------------- defaults
def _p(name, shape, lo=-1, hi=1):
    return lambda env: env.param(name, shape, F, lo, hi)


def _lin(env, nin=2, nout=2):
    return dict(weight_ext=env.param("w", (nout, nin), F), bias_ext=env.param("b", (nout,), F))


def _cnv(env, cin=1, cout=1, k=2):
    return dict(weight_ext=env.param("w", (cout, cin, k, k), F), bias_ext=env.param("b", (cout,), F))


def _mgu(env, n=1, h=1):
    return dict(weight_ext_f=env.param("wf", (h, h + n), F), bias_ext_f=env.param("bf", (h,), F), weight_ext_n=env.param("wn", (h, h + n), F), bias_ext_n=env.param("bn", (h,), F))


DEFAULTS = {
    # what the documentation promises when no configuration is given
    "JKFF": (lambda: C.jkff(), lambda e: e.make("kernel.JKFF")),
    "ShiftReg": (lambda: C.shiftreg(entry=8), lambda e: e.make("kernel.ShiftReg")),
    "FSUSignAbs": (lambda: C.signabs(depth=3), lambda e: e.make("kernel.FSUSignAbs")),
    "FSUReLU": (lambda: C.relu(depth=6), lambda e: e.make("kernel.FSUReLU")),
    "Bi2Uni": (lambda: C.bi2uni(depth=3), lambda e: e.make("stream.Bi2Uni")),
    "Uni2Bi": (lambda: C.uni2bi(depth=4), lambda e: e.make("stream.Uni2Bi")),
    "SkewedSync": (lambda: C.ssync(depth=2), lambda e: e.make("stream.SkewedSync")),
    "CORDIV_kernel": (lambda: C.cordiv(entry=4, rng="Sobol", dimr=4), lambda e: e.make("kernel.CORDIV_kernel")),
    "FSUDiv": (lambda: C.div(), lambda e: e.make("kernel.FSUDiv")),
    "FSUSqrt": (lambda: C.sqrt(), lambda e: e.make("kernel.FSUSqrt")),
    "FSUAdd": (lambda: C.fsuadd(depth=10), lambda e: e.make("kernel.FSUAdd")),
    "FSUHardsigmoid": (lambda: C.hardsigmoid(depth=8), lambda e: e.make("kernel.FSUHardsigmoid")),
    "FSUMul": (lambda: C.mul_stream(width=8, shape=(1,)), lambda e: e.make("kernel.FSUMul")),
    "FSULinear": (lambda: C.linear(width=8, depth=12, nin=2, nout=2), lambda e: e.make("kernel.FSULinear", 2, 2, **_lin(e))),
    "FSULinearPC": (lambda: C.linear(width=8, nin=2, nout=2, pc=True), lambda e: e.make("kernel.FSULinearPC", 2, 2, **_lin(e))),
    "FSUConv2d": (lambda: C.conv(width=8, depth=12, hw=(2, 3), cout=1), lambda e: e.make("kernel.FSUConv2d", 1, 1, 2, **_cnv(e))),
    "FSUConv2dPC": (lambda: C.conv(width=8, hw=(2, 3), cout=1, pc=True), lambda e: e.make("kernel.FSUConv2dPC", 1, 1, 2, **_cnv(e))),
    "HUBLinear": (lambda: D.hublinear(width=8, cycle=128, I=1), lambda e: e.make("kernel.HUBLinear", 1, 1, **_lin(e, 1, 1))),
    "HUBConv2d": (lambda: D.hubconv(width=8, cycle=128, cout=1, k=1, hw=(1, 2)), lambda e: e.make("kernel.HUBConv2d", 1, 1, 1, **_cnv(e, 1, 1, 1))),
    "FXPLinear": (lambda: D.fxplinear(wi=8, ww=8), lambda e: e.make("kernel.FXPLinear", 2, 2, **_lin(e))),
    "FXPConv2d": (lambda: D.fxpconv(wi=8, ww=8, cout=1), lambda e: e.make("kernel.FXPConv2d", 1, 1, 2, **_cnv(e))),
    "TLUTLinear": (lambda: D.tlutlinear(widtht=4, wi=8, ww=8), lambda e: e.make("kernel.TLUTLinear", 2, 1, **_lin(e, 2, 1))),
    "TLUTConv2d": (lambda: D.tlutconv(widtht=4, wi=8, ww=8, cout=1), lambda e: e.make("kernel.TLUTConv2d", 1, 1, 2, **_cnv(e))),
    "FSUMGUCell": (lambda: G.mgu(width=8, depth=10, ismul=6), lambda e: e.make("kernel.FSUMGUCell", 1, 1, hx_buffer=e.param("hb", (1, 1), F), **_mgu(e))),
    "HUBReLU": (lambda: D.hub_relu(None), lambda e: e.make("kernel.HUBReLU")),
    "RNG": (lambda: D.rng(width=8), lambda e: e.make("stream.RNG")),
    "BinGen": (lambda: D.bingen(width=8), lambda e: e.make("stream.BinGen", e.param("v", (3,), F))),
    "RawScale": (lambda: D.rawscale(1), lambda e: e.make("stream.RawScale")),
    "ProgError": (lambda: D.progerr(), lambda e: e.make("metric.ProgError", e.param("v", (2,), F, -3, 3))),
    "Stability": (lambda: D.stability(thr=0.05), lambda e: e.make("metric.Stability", e.param("v", (2,), F))),
}


def default(unit):
    ref, build = DEFAULTS[unit]
    s = ref()
    s.build = build
    s.name = "%s[default configuration] = %s" % (unit, s.name)
    return s


# ------------------------------------------------------------------------------- rejected
def bad(name, unit, build, ins=(), call=None):
    return Scn("illegal: " + name, unit, build, list(ins), call=call)


def _c(d, **kw):
    d = dict(d)
    d.update(kw)
    return d


ADD = {"mode": "bipolar", "scale": None, "dima": 0, "depth": 5, "entry": None}
MUL = {"width": 3, "mode": "bipolar", "static": True, "rng": "Sobol", "dimr": 1}
LIN = {"width": 3, "mode": "bipolar", "scale": None, "depth": 6, "rng": "Sobol", "dimr": 1}
DIV = {"depth_sa": 3, "depth_ss": 2, "entry_kn": 2, "mode": "bipolar", "rng": "Sobol", "dimr": 4}
SQR = {"mode": "bipolar", "jk_trace": True, "emit": True, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 4}
HUB = {"widthi": 4, "rngi": "Sobol", "quantilei": 1, "widthw": 4, "rngw": "Sobol", "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True}
TLT = {"temporal": "i", "widtht": 2, "formati": "fxp", "widthi": 5, "quantilei": 1, "formatw": "fxp", "widthw": 5, "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True}
FXP = {"widthi": 4, "quantilei": 1, "widthw": 4, "quantilew": 1, "rounding": "round"}
MGU = {"width": 3, "mode": "bipolar", "depth": 6, "depth_ismul": 2, "rng": "Sobol", "dimr": 1}
HSG = {"mode": "bipolar", "scale": 2, "dima": 0, "depth": 4, "entry": 2}


def _hs(path, hw, swc=None):
    return lambda e: e.make(path, e.cfg(hw), e.cfg(swc or sw(), "swcfg"))


def _mul(hw, give=True, swc=None):
    return lambda e: e.make("kernel.FSUMul", e.param("w", (2,), F) if give else None, e.cfg(hw), e.cfg(swc or sw(), "swcfg"))


def _linear(path, hw, wshape=(2, 3), bshape=(2,), swc=None, bias=True):
    def b(e):
        kw = {"hwcfg": e.cfg(hw)}
        if "FSU" in path:
            kw["swcfg"] = e.cfg(swc or sw(), "swcfg")
        return e.make(path, 3, 2, bias=bias, weight_ext=e.param("w", wshape, F), bias_ext=e.param("b", bshape, F) if bias else None, **kw)
    return b


def _conv(path, hw, wshape=(2, 1, 2, 2), bshape=(2,), swc=None, bias=True, cin=1, **k):
    def b(e):
        kw = {"hwcfg": e.cfg(hw)}
        if "FSU" in path:
            kw["swcfg"] = e.cfg(swc or sw(), "swcfg")
        kw.update(k)
        return e.make(path, cin, 2, 2, bias=bias, weight_ext=e.param("w", wshape, F), bias_ext=e.param("b", bshape, F) if bias else None, **kw)
    return b


def _mguc(hw, f=(2, 4), n=(2, 4), bf=(2,), bn=(2,), bias=True, path="kernel.FSUMGUCell"):
    return lambda e: e.make(path, 2, 2, bias=bias, weight_ext_f=e.param("wf", f, F), bias_ext_f=e.param("bf", bf, F) if bias else None, weight_ext_n=e.param("wn", n, F),
                            bias_ext_n=e.param("bn", bn, F) if bias else None, hx_buffer=e.param("hb", (1, 2), F), hwcfg=e.cfg(hw), swcfg=e.cfg(sw(), "swcfg"))


def illegal():
    """name -> (how it is rejected, scenario factory)"""
    L = {}

    def add(name, unit, build, ins=(), call=None, by=("build",)):
        assert name not in L, name
        L[name] = (by, lambda: bad(name, unit, build, ins, call))

    BADMODE = ("tripolar", "uni", "")
    for m in BADMODE:
        add("adder mode '%s'" % m, "kernel.FSUAdd", _hs("kernel.FSUAdd", _c(ADD, mode=m)))
        add("multiplier mode '%s'" % m, "kernel.FSUMul", _mul(_c(MUL, mode=m)))
        add("streaming multiplier mode '%s'" % m, "kernel.FSUMul", _mul(_c(MUL, mode=m, static=False), False))
        add("divider mode '%s'" % m, "kernel.FSUDiv", _hs("kernel.FSUDiv", _c(DIV, mode=m)))
        add("square root mode '%s'" % m, "kernel.FSUSqrt", _hs("kernel.FSUSqrt", _c(SQR, mode=m)))
        add("hard sigmoid mode '%s'" % m, "kernel.FSUHardsigmoid", _hs("kernel.FSUHardsigmoid", _c(HSG, mode=m)))
        for u in ("FSULinear", "FSULinearPC"):
            add("%s mode '%s'" % (u, m), "kernel." + u, _linear("kernel." + u, _c(LIN, mode=m)))
        for u in ("FSUConv2d", "FSUConv2dPC"):
            add("%s mode '%s'" % (u, m), "kernel." + u, _conv("kernel." + u, _c(LIN, mode=m)))
        add("binary generator mode '%s'" % m, "stream.BinGen", lambda e, m=m: e.make("stream.BinGen", e.param("v", (2,), F), e.cfg({"width": 3, "mode": m}), e.cfg({"rtype": "torch.float32"}, "swcfg")))
        add("error monitor mode '%s'" % m, "metric.ProgError", lambda e, m=m: e.make("metric.ProgError", e.param("v", (2,), F), e.cfg({"scale": 1, "mode": m})))
        add("stability monitor mode '%s'" % m, "metric.Stability", lambda e, m=m: e.make("metric.Stability", e.param("v", (2,), F), e.cfg({"scale": 1, "mode": m, "threshold": 0.25})))
    for m in ("unipolar",) + BADMODE:
        add("gated cell mode '%s'" % m, "kernel.FSUMGUCell", _mguc(_c(MGU, mode=m)))
    for r in ("mersenne", "sobol2", "", "race11"):
        add("random table '%s'" % r, "stream.RNG", lambda e, r=r: e.make("stream.RNG", e.cfg({"width": 3, "dimr": 1, "rng": r}), e.cfg({"rtype": "torch.float32"}, "swcfg")))
        add("multiplier rng '%s'" % r, "kernel.FSUMul", _mul(_c(MUL, rng=r)))
        add("linear rng '%s'" % r, "kernel.FSULinear", _linear("kernel.FSULinear", _c(LIN, rng=r)))
        add("conv rng '%s'" % r, "kernel.FSUConv2d", _conv("kernel.FSUConv2d", _c(LIN, rng=r)))
    for q in (0, -1, Fraction(3, 2), 2):
        add("scaler quantile %s" % q, "stream.RawScale", lambda e, q=q: e.make("stream.RawScale", e.cfg({"quantile": q})))
        for k in ("quantilei", "quantilew"):
            add("HUBLinear %s %s" % (k, q), "kernel.HUBLinear", _linear("kernel.HUBLinear", _c(HUB, **{k: q})))
            add("HUBConv2d %s %s" % (k, q), "kernel.HUBConv2d", _conv("kernel.HUBConv2d", _c(HUB, **{k: q})))
            add("TLUTLinear %s %s" % (k, q), "kernel.TLUTLinear", _linear("kernel.TLUTLinear", _c(TLT, **{k: q})))
            add("TLUTConv2d %s %s" % (k, q), "kernel.TLUTConv2d", _conv("kernel.TLUTConv2d", _c(TLT, **{k: q})))
    for u, b, h in (("HUBLinear", _linear, HUB), ("HUBConv2d", _conv, HUB), ("TLUTLinear", _linear, TLT), ("TLUTConv2d", _conv, TLT)):
        add("%s rounding" % u, "kernel." + u, b("kernel." + u, _c(h, rounding="truncate")))
        add("%s two's complement" % u, "kernel." + u, b("kernel." + u, _c(h, signmag=False)))
    for u, b in (("HUBLinear", _linear), ("HUBConv2d", _conv)):
        for x, y in (("race", "race"), ("tc", "race10"), ("tc10", "tc"), ("TC", "tc"), ("race", "Race10"), ("TC", "TC10")):
            add("%s both operands temporal %s/%s" % (u, x, y), "kernel." + u, b("kernel." + u, _c(HUB, rngi=x, rngw=y)))
    for u, b in (("TLUTLinear", _linear), ("TLUTConv2d", _conv)):
        add("%s temporal operand" % u, "kernel." + u, b("kernel." + u, _c(TLT, temporal="both")))
        for k in ("formati", "formatw"):
            add("%s %s" % (u, k), "kernel." + u, b("kernel." + u, _c(TLT, **{k: "posit8"})))
    for u, h in (("FSULinear", LIN), ("FSULinearPC", LIN), ("HUBLinear", HUB), ("FXPLinear", FXP), ("TLUTLinear", TLT)):
        for s in ((3, 2), (2, 4), (3, 3)):
            add("%s weight %s" % (u, s), "kernel." + u, _linear("kernel." + u, h, wshape=s))
        for s in ((3,), (1,)):
            add("%s bias %s" % (u, s), "kernel." + u, _linear("kernel." + u, h, bshape=s))
    for u, h in (("FSUConv2dPC", LIN), ("FSUConv2d", LIN), ("HUBConv2d", HUB), ("FXPConv2d", FXP), ("TLUTConv2d", TLT)):
        for s in ((1, 2, 2, 2), (2, 1, 3, 2), (2, 1, 2, 3), (2, 2, 2, 2)):
            add("%s weight %s" % (u, s), "kernel." + u, _conv("kernel." + u, h, wshape=s))
        for s in ((3,), (1,)):
            add("%s bias %s" % (u, s), "kernel." + u, _conv("kernel." + u, h, bshape=s))
        add("%s groups" % u, "kernel." + u, _conv("kernel." + u, h, wshape=(2, 1, 2, 2), cin=2, groups=2))
        for pm in ("reflect", "circular", "replicate"):
            add("%s padding mode %s" % (u, pm), "kernel." + u, _conv("kernel." + u, h, padding=1, padding_mode=pm))
    for k in ("btype", "rtype", "stype"):
        for d in ("int8", "int64"):
            add("FSULinear %s %s" % (k, d), "kernel.FSULinear", _linear("kernel.FSULinear", LIN, swc=_c(sw(), **{k: "torch." + d})))
            add("FSUConv2d %s %s" % (k, d), "kernel.FSUConv2d", _conv("kernel.FSUConv2d", LIN, swc=_c(sw(), **{k: "torch." + d})))
    for r in ("race", "TC", "race10", "tc10"):
        add("FSULinear bipolar non-scaled with %s" % r, "kernel.FSULinear", _linear("kernel.FSULinear", _c(LIN, rng=r, scale=1)))
        add("FSUConv2d bipolar non-scaled with %s" % r, "kernel.FSUConv2d", _conv("kernel.FSUConv2d", _c(LIN, rng=r, scale=1)))
        add("FSUMGUCell with %s" % r, "kernel.FSUMGUCell", _mguc(_c(MGU, rng=r)))
    add("static multiplier without operand", "kernel.FSUMul", _mul(MUL, False))
    for k in ("entry_kn", "entry_sr"):
        for v in (3, 6):
            add("square root %s=%d" % (k, v), "kernel.FSUSqrt", _hs("kernel.FSUSqrt", _c(SQR, **{k: v})))
    for n in (3, 5, 6, 7):
        add("bit stream generator with a table of %d" % n, "stream.BSGen", lambda e, n=n: e.make("stream.BSGen", e.param("b", (2,), F, 0, n, True), e.param("r", (n,), F, 0, n - 1, True), e.cfg({"stype": "torch.float32"}, "swcfg")))
    for nm, kw in (("weight_f", {"f": (2, 3)}), ("weight_f rows", {"f": (3, 4)}), ("weight_n", {"n": (2, 5)}), ("weight_n rows", {"n": (1, 4)}), ("bias_f", {"bf": (3,)}), ("bias_n", {"bn": (1,)})):
        add("gated cell %s shape" % nm, "kernel.FSUMGUCell", _mguc(MGU, **kw))
    for nm, a, b in (("input size", (1, 3), (1, 2)), ("hidden size", (1, 2), (1, 3)), ("batch size", (2, 2), (1, 2))):
        add("gated cell operand %s" % nm, "kernel.FSUMGUCell", _mguc(MGU), [In("x", a), In("h", b)], by=("call",))
    add("shift register mask size", "kernel.ShiftReg", _hs("kernel.ShiftReg", {"entry": 4}), [In("x", (2,)), In("m", (1,))],
        lambda env, o, a: env.it.call(o, [a[0]], {"mask": a[1]}), by=("call",))
    for u, h in (("FSULinearPC", LIN), ("HUBLinear", HUB)):
        for s in ((3,), (1, 1, 3)):
            add("%s operand of shape %s" % (u, s), "kernel." + u, _linear("kernel." + u, h), [In("x", s, F, "bit" if "FSU" in u else "real", *(() if "FSU" in u else (-1, 1)))], by=("call",))
    for m in ("tripolar", ""):
        add("clipper mode '%s'" % m, "kernel.NN_SC_Weight_Clipper", lambda e, m=m: _clip(e, m), [], lambda env, o, a: env.call(*o), by=("call",))
    return L


def _clip(env, mode):
    c = env.make("kernel.NN_SC_Weight_Clipper", 2, mode)
    nn = env.it.import_module("torch.nn")
    return (c, env.call(env.it.getattr(nn, "Linear"), 2, 2))


def illegal_scn(name):
    by, mk = illegal()[name]
    s = mk()
    s.info["by"] = by
    return s


# ------------------------------------------------------------------------------- random tables
def lfsr(width=3, rtype=F):
    """register content after 0, 1, 2 ... shifts, most significant bit first"""
    n = 2 ** width

    def build(env):
        return env.make("stream.RNG", env.cfg({"width": width, "dimr": 1, "rng": "lfsr"}), env.cfg({"rtype": "torch." + rtype}, "swcfg"))
    return Scn("RNG[lfsr,w%d,%s]" % (width, rtype), "stream.RNG", build, [], info={"width": width, "rtype": rtype})


def sysrand(width=3, rtype=F):
    def build(env):
        return env.make("stream.RNG", env.cfg({"width": width, "dimr": 1, "rng": "sys"}), env.cfg({"rtype": "torch." + rtype}, "swcfg"))
    return Scn("RNG[sys,w%d,%s]" % (width, rtype), "stream.RNG", build, [], info={"width": width, "rtype": rtype})


# ------------------------------------------------------------------------------- weight initialisation
def truncnorm(shape=(2,), mean=0, std=Fraction(1, 100), defaults=False):
    def build(env):
        return env.get("kernel.utils.truncated_normal")

    def call(env, o, a):
        return env.it.call(o, [a[0]], {} if defaults else {"mean": mean, "std": std})
    return Scn("truncated_normal[%s,mean=%s,std=%s]" % (shape, mean, std), "kernel.utils.truncated_normal", build, [In("t", shape, F, "real", -1, 1)], call=call,
               info={"shape": shape, "mean": Fraction(mean), "std": Fraction(std)})


# ------------------------------------------------------------------------------- padding
def roundtrip(transposed=False, tuples=True):
    """the padding computed for a wanted output size makes the layer produce that size"""
    pre = "convtransp2d" if transposed else "conv2d"
    names = ["hi", "wi", "ho", "wo", "kh", "kw", "sh", "sw", "dh", "dw"] + (["oph", "opw"] if transposed else [])
    los = {"h": 1, "w": 1}
    ins = [D.IntIn(n, 0 if n.startswith("op") else 1) for n in names]
    if not tuples:
        ins = [i for i in ins if i.name not in ("wi", "wo", "kw", "sw", "dw", "opw")]

    def build(env):
        return (env.get("kernel.utils.%s_get_padding" % pre), env.get("kernel.utils.%s_output_shape" % pre))

    def call(env, o, a):
        if tuples:
            p = [(a[i], a[i + 1]) for i in range(0, len(a), 2)]
        else:
            p = list(a)
        hi, ho, k, s, d = p[:5]
        op = p[5:]
        pad = env.it.call(o[0], [hi, ho, k, s, d] + op, {})
        return env.it.call(o[1], [hi, k, s, pad, d] + op, {})
    return Scn("%s padding then output shape[%s]" % (pre, "tuples" if tuples else "ints"), "kernel.utils.%s_get_padding" % pre, build, ins, call=call,
               ref=D.Pure(lambda i: [D.S_(i["ho"][0]), D.S_(i["wo" if tuples else "ho"][0])]))


# ------------------------------------------------------------------------------- reports
def report(mode="bipolar", value=False, relative=False, shape=(2,)):
    """printing a report about a monitor leaves it as it was"""
    s = D.progerr(mode, 1, shape)
    inner = s._call

    def call(env, o, a):
        r = inner(env, o, a)
        env.it.call(env.get("kernel.utils.progerror_report"), [o], {"report_value": value, "report_relative": relative})
        return env.call(o)
    s._call = call
    s.name = "progerror_report[value=%s,relative=%s] on %s" % (value, relative, s.name)
    s.unit = "kernel.utils.progerror_report"
    return s


def outlier(shape=(3,)):
    def build(env):
        return env.get("kernel.utils.tensor_unary_outlier")

    def call(env, o, a):
        env.it.call(o, [a[0]], {"name": "x"})
        return a[0]
    return Scn("tensor_unary_outlier[%s]" % (shape,), "kernel.utils.tensor_unary_outlier", build, [In("x", shape, F, "real", -4, 4)], call=call, ref=D.Pure(lambda i: [T_(shape, F, i["x"])]))


# ------------------------------------------------------------------------------- unequal widths
def hubwidths(conv=False, wi=4, ww=3):
    def build(env):
        c = env.cfg({"widthi": wi, "rngi": "Sobol", "quantilei": 1, "widthw": ww, "rngw": "Sobol", "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True})
        if conv:
            return env.make("kernel.HUBConv2d", 1, 1, 1, hwcfg=c, **_cnv(env, 1, 1, 1))
        return env.make("kernel.HUBLinear", 1, 1, hwcfg=c, **_lin(env, 1, 1))
    u = "HUBConv2d" if conv else "HUBLinear"
    return Scn("%s[input width %d, weight width %d]" % (u, wi, ww), "kernel." + u, build, [In("x", (1, 1, 1, 2) if conv else (1, 1), F, "real", -1, 1)])
