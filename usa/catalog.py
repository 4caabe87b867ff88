"""Scenarios: which units, in which configurations, with which reference."""
from fractions import Fraction
from itertools import product
from . import terms as T
from . import tensor as TT
from . import refs as R
from .refs import BlockRef
from .scen import Scn, In, Env
from .terms import P, ZERO, ONE

F, I8, I64 = "float32", "int8", "int64"


def sw(stype=F, btype=F, rtype=F):
    return {"btype": "torch." + btype, "rtype": "torch." + rtype, "stype": "torch." + stype}


def T_(shape, dtype, vals):
    return (tuple(shape), dtype, list(vals))


def simple(path, hw, swc=None, name2="hwcfg"):
    def build(env):
        a = []
        if hw is not None:
            a.append(env.cfg(hw))
        if swc is not None:
            a.append(env.cfg(swc, "swcfg"))
        return env.make(path, *a)
    return build


def cap(s):
    return s.capitalize()


# ------------------------------------------------------------------ single-stream converters
def jkff(shape=(2,), stype=F):
    n = TT.numel(shape)
    b = R.JKB("q", n)

    def run(st, new, ins):
        return [T_(shape, stype, b.step(st, new, ins["J"], ins["K"]))]
    return Scn("JKFF[%s,%s]" % (stype, shape), "kernel.JKFF", simple("kernel.JKFF", None, sw(stype)),
               [In("J", shape, stype), In("K", shape, stype)], ref=BlockRef([b], run))


def shiftreg(shape=(2,), stype=F, entry=4, mask=False, index=0):
    n = TT.numel(shape)
    b = R.ShiftB("s", n, entry)
    cdt = stype if "float" in stype else I64

    def run(st, new, ins):
        r, c = b.step(st, new, ins["x"], ins.get("m"))
        return [T_(shape, stype, r[index]), T_(shape, cdt, c)]
    ins = [In("x", shape, stype)]
    if mask:
        ins.append(In("m", shape, stype))

    def call(env, o, a):
        kw = {"index": index} if index else {}
        if mask:
            kw["mask"] = a[1]
        return env.it.call(o, [a[0]], kw)
    return Scn("ShiftReg[%s,%s,entry=%d%s,index=%d]" % (stype, shape, entry, ",mask" if mask else "", index), "kernel.ShiftReg",
               simple("kernel.ShiftReg", {"entry": entry}, sw(stype)), ins, call=call, ref=BlockRef([b], run))


def unary(path, key, blk, depth, shape=(2,), stype=F, btype=F, two=False):
    n = TT.numel(shape)
    b = blk(key, n, depth)

    def run(st, new, ins):
        r = b.step(st, new, ins["x"])
        if two:
            return [T_(shape, stype, r[0]), T_(shape, stype, r[1])]
        return [T_(shape, stype, r)]
    return Scn("%s[%s/%s,%s,depth=%d]" % (path.split(".")[1], stype, btype, shape, depth), path,
               simple(path, {"depth": depth}, sw(stype, btype)), [In("x", shape, stype)], ref=BlockRef([b], run))


def signabs(**k):
    return unary("kernel.FSUSignAbs", "sa", R.SignAbsB, two=True, **k)


def relu(**k):
    return unary("kernel.FSUReLU", "re", R.ReLUB, **k)


def bi2uni(**k):
    return unary("stream.Bi2Uni", "bu", R.Bi2UniB, **k)


def uni2bi(**k):
    return unary("stream.Uni2Bi", "ub", R.Uni2BiB, **k)


def ssync(depth=2, shape=(2,), stype=F, btype=F):
    n = TT.numel(shape)
    b = R.SyncB("ss", n, depth)

    def run(st, new, ins):
        x, y = b.step(st, new, ins["x"], ins["y"])
        return [T_(shape, stype, x), T_(shape, stype, y)]
    return Scn("SkewedSync[%s/%s,%s,depth=%d]" % (stype, btype, shape, depth), "stream.SkewedSync",
               simple("stream.SkewedSync", {"depth": depth}, sw(stype, btype)), [In("x", shape, stype), In("y", shape, stype)], ref=BlockRef([b], run))


def cordiv(entry=4, rng="Sobol", dimr=4, shape=(2,), stype=F, legal=True):
    """operands already synchronised (dividend 1 implies divisor 1)"""
    n = TT.numel(shape)
    b = R.CordivB("kn", n, entry, rng, dimr)

    def run(st, new, ins):
        return [T_(shape, stype, b.step(st, new, ins["x"], ins["y"]))]
    return Scn("CORDIV_kernel[%s,%s,entry=%d,%s%d]" % (stype, shape, entry, rng, dimr), "kernel.CORDIV_kernel",
               simple("kernel.CORDIV_kernel", {"entry": entry, "rng": rng, "dimr": dimr}, sw(stype)),
               [In("x", shape, stype), In("y", shape, stype)], ref=BlockRef([b], run))


def div(mode="bipolar", depth_sa=3, depth_ss=2, entry_kn=2, rng="Sobol", dimr=4, shape=(1,), stype=F, btype=F):
    n = TT.numel(shape)
    b = R.DivB("d", n, mode.lower(), depth_sa, depth_ss, entry_kn, rng, dimr)

    def run(st, new, ins):
        return [T_(shape, stype, b.step(st, new, ins["x"], ins["y"]))]
    return Scn("FSUDiv[%s,%s/%s,%s,sa%d,ss%d,kn%d,%s%d]" % (mode, stype, btype, shape, depth_sa, depth_ss, entry_kn, rng, dimr), "kernel.FSUDiv",
               simple("kernel.FSUDiv", {"depth_sa": depth_sa, "depth_ss": depth_ss, "entry_kn": entry_kn, "mode": mode, "rng": rng, "dimr": dimr}, sw(stype, btype)),
               [In("x", shape, stype), In("y", shape, stype)], ref=BlockRef([b], run))


def sqrt(mode="bipolar", jk=True, emit=True, entry_kn=1, entry_sr=2, rng="Sobol", dimr=4, shape=(2,), stype=F, btype=F):
    n = TT.numel(shape)
    b = R.SqrtB("q", n, mode.lower(), jk, emit, entry_sr, rng)

    def run(st, new, ins):
        return [T_(shape, stype, b.step(st, new, ins["x"]))]
    return Scn("FSUSqrt[%s,jk=%s,emit=%s,%s/%s,%s,sr%d,%s]" % (mode, jk, emit, stype, btype, shape, entry_sr, rng), "kernel.FSUSqrt",
               simple("kernel.FSUSqrt", {"mode": mode, "jk_trace": jk, "emit": emit, "entry_kn": entry_kn, "entry_sr": entry_sr, "rng": rng, "dimr": dimr}, sw(stype, btype)),
               [In("x", shape, stype)], ref=BlockRef([b], run))


# ------------------------------------------------------------------ adders
def fsuadd(mode="bipolar", scale=None, dima=0, depth=5, entry=None, shape=(3, 2), stype=F, btype=F, rscale=None, rentry=None, kind="bit", hi=1):
    oshape, grp = R.groups(shape, dima)
    ent = rentry if rentry is not None else entry if entry is not None else shape[dima]
    sc = rscale if rscale is not None else scale if scale is not None else ent
    off = Fraction(ent - Fraction(sc), 2) if mode.lower() == "bipolar" else 0
    b = R.AddB("a", len(grp), depth, Fraction(sc), off)

    def run(st, new, ins):
        x = ins["x"]
        o = b.step(st, new, [sum((x[i] for i in g), ZERO) for g in grp])
        return [T_(oshape, stype, o)]

    def call(env, o, a):
        if rscale is None and rentry is None:
            return env.it.call(o, list(a), {})
        return env.it.call(o, [a[0], rscale, rentry], {})
    return Scn("FSUAdd[%s,scale=%s,dima=%d,depth=%d,entry=%s,%s,%s/%s%s%s]" % (mode, scale, dima, depth, entry, shape, stype, btype, ",run=%s/%s" % (rscale, rentry) if rscale is not None or rentry is not None else "", ",counts" if kind != "bit" else ""),
               "kernel.FSUAdd", simple("kernel.FSUAdd", {"mode": mode, "scale": scale, "dima": dima, "depth": depth, "entry": entry}, sw(stype, btype)),
               [In("x", shape, stype, kind, 0, hi)], call=call, ref=BlockRef([b], run))


def hardsigmoid(mode="bipolar", depth=4, shape=(2,), stype=F, btype=F):
    n = TT.numel(shape)
    b = R.AddB("a", n, depth, 2, 0)

    def run(st, new, ins):
        return [T_(shape, stype, b.step(st, new, [x + 1 for x in ins["x"]]))]
    return Scn("FSUHardsigmoid[%s,%s/%s,%s,depth=%d]" % (mode, stype, btype, shape, depth), "kernel.FSUHardsigmoid",
               simple("kernel.FSUHardsigmoid", {"mode": mode, "scale": 2, "dima": 0, "depth": depth, "entry": 2}, sw(stype, btype)),
               [In("x", shape, stype)], ref=BlockRef([b], run))


# ------------------------------------------------------------------ multipliers
def prange(mode):
    return (0, 1) if mode.lower() == "unipolar" else (-1, 1)


def mul_static(mode="bipolar", width=3, rng="Sobol", dimr=1, shape=(2,), stype=F, rtype=F):
    n = TT.numel(shape)
    lo, hi = prange(mode)
    src = [R.encode(T.var("p:w[%d]" % i, lo, hi), width, mode.lower()) for i in range(n)]
    b = R.MulStaticB("m", n, width, mode.lower(), rng, dimr, src)

    def run(st, new, ins):
        return [T_(shape, stype, b.step(st, new, ins["x"]))]

    def build(env):
        w = env.param("w", shape, F, lo, hi)
        return env.make("kernel.FSUMul", w, env.cfg({"width": width, "mode": mode, "static": True, "rng": rng, "dimr": dimr}), env.cfg(sw(stype, F, rtype), "swcfg"))
    return Scn("FSUMul.static[%s,w%d,%s%d,%s/%s,%s]" % (mode, width, rng, dimr, stype, rtype, shape), "kernel.FSUMul", build, [In("x", shape, stype)], ref=BlockRef([b], run))


def mul_stream(mode="bipolar", width=2, rng="Sobol", dimr=1, shape=(2,), stype=F, rtype=F):
    n = TT.numel(shape)
    b = R.MulStreamB("m", n, width, mode.lower(), rng, dimr)

    def run(st, new, ins):
        return [T_(shape, stype, b.step(st, new, ins["x"], ins["y"]))]

    def build(env):
        return env.make("kernel.FSUMul", None, env.cfg({"width": width, "mode": mode, "static": False, "rng": rng, "dimr": dimr}), env.cfg(sw(stype, F, rtype), "swcfg"))
    return Scn("FSUMul.stream[%s,w%d,%s%d,%s/%s,%s]" % (mode, width, rng, dimr, stype, rtype, shape), "kernel.FSUMul", build,
               [In("x", shape, stype), In("y", shape, stype)], ref=BlockRef([b], run))


# ------------------------------------------------------------------ linear
def weights(name, n, width, mode):
    lo, hi = prange(mode)
    return [R.encode(T.var("p:%s[%d]" % (name, i), lo, hi), width, mode.lower()) for i in range(n)]


def linear(mode="bipolar", width=3, rng="Sobol", dimr=1, batch=2, nin=3, nout=2, bias=True, pc=False, scale=None, depth=6, bext=True, rscale=None, rentry=None):
    w = weights("w", nout * nin, width, mode)
    bb = weights("b", nout, width, mode) if bias else None
    if bias and not bext:
        bb = None
    b = R.LinPCB("l", batch, nin, nout, width, mode.lower(), rng, dimr, w, bb)
    blocks = [b]
    if not pc:
        ent = rentry if rentry is not None else nin + bias
        sc = rscale if rscale is not None else scale if scale is not None else nin + bias
        add = R.AddB("acc", batch * nout, depth, Fraction(sc), Fraction(ent - Fraction(sc), 2) if mode.lower() == "bipolar" else 0)
        blocks.append(add)

    def run(st, new, ins):
        o = b.step(st, new, ins["x"])
        if not pc:
            o = add.step(st, new, o)
        return [T_((batch, nout), F, o)]

    def build(env):
        lo, hi = prange(mode)
        a = env.param("w", (nout, nin), F, lo, hi)
        c = env.param("b", (nout,), F, lo, hi) if bias and bext else None
        hw = {"width": width, "mode": mode, "rng": rng, "dimr": dimr}
        if not pc:
            hw.update({"scale": scale, "depth": depth})
        return env.make("kernel.FSULinearPC" if pc else "kernel.FSULinear", nin, nout, bias=bias, weight_ext=a, bias_ext=c, hwcfg=env.cfg(hw), swcfg=env.cfg(sw(), "swcfg"))

    def call(env, o, a):
        if rscale is None and rentry is None:
            return env.it.call(o, list(a), {})
        return env.it.call(o, [a[0], rscale, rentry], {})
    return Scn("%s[%s,w%d,%s%d,%dx%d->%d,bias=%s%s%s]" % ("FSULinearPC" if pc else "FSULinear", mode, width, rng, dimr, batch, nin, nout, bias, "" if pc else ",scale=%s,depth=%d" % (scale, depth),
               ",run=%s/%s" % (rscale, rentry) if rscale is not None or rentry is not None else ""),
               "kernel.FSULinearPC" if pc else "kernel.FSULinear", build, [In("x", (batch, nin), F)], call=call, ref=BlockRef(blocks, run))


# ------------------------------------------------------------------ convolution
def conv_geom(cin, hw, k, stride, pad, dil):
    """im2col: per output pixel the list of (channel, kernel index, input position or None)"""
    H, W = hw
    kh, kw = k
    oh = (H + 2 * pad[0] - dil[0] * (kh - 1) - 1) // stride[0] + 1
    ow = (W + 2 * pad[1] - dil[1] * (kw - 1) - 1) // stride[1] + 1
    cols = []
    for y in range(oh):
        for x in range(ow):
            col = []
            for c in range(cin):
                for i in range(kh):
                    for j in range(kw):
                        r = y * stride[0] - pad[0] + i * dil[0]
                        s = x * stride[1] - pad[1] + j * dil[1]
                        col.append((c * H + r) * W + s if 0 <= r < H and 0 <= s < W else None)
            cols.append(col)
    return oh, ow, cols


def two(x):
    return tuple(x) if isinstance(x, (tuple, list)) else (x, x)


def conv(mode="bipolar", width=2, rng="Sobol", dimr=1, batch=1, cin=1, cout=2, hw=(3, 3), k=2, stride=1, pad=0, dil=1, bias=True, pc=False, scale=None, depth=6, rscale=None, rentry=None):
    kk, ss, pp, dd = two(k), two(stride), two(pad), two(dil)
    oh, ow, cols = conv_geom(cin, hw, kk, ss, pp, dd)
    nk = cin * kk[0] * kk[1]
    L = oh * ow
    w = weights("w", cout * nk, width, mode)
    bb = weights("b", cout, width, mode) if bias else None
    b = R.LinPCB("l", batch * L, nk, cout, width, mode.lower(), rng, dimr, w, bb)
    blocks = [b]
    if not pc:
        ent = rentry if rentry is not None else nk + bias
        sc = rscale if rscale is not None else scale if scale is not None else nk + bias
        add = R.AddB("acc", batch * cout * L, depth, Fraction(sc), Fraction(ent - Fraction(sc), 2) if mode.lower() == "bipolar" else 0)
        blocks.append(add)
    flip = any(pp) and mode.lower() == "bipolar"
    n1 = cin * hw[0] * hw[1]

    def run(st, new, ins):
        x = ins["x"]
        pv = st["pad"][0] if flip else ZERO
        if flip:
            new["pad"] = [1 - pv]
        xs = []
        for n in range(batch):
            for col in cols:
                xs += [x[n * n1 + i] if i is not None else pv for i in col]
        o = b.step(st, new, xs)
        r = []
        for n in range(batch):
            for c in range(cout):
                for l in range(L):
                    r.append(o[(n * L + l) * cout + c])
        if not pc:
            r = add.step(st, new, r)
        return [T_((batch, cout, oh, ow), F, r)]

    def build(env):
        lo, hi = prange(mode)
        a = env.param("w", (cout, cin, kk[0], kk[1]), F, lo, hi)
        c = env.param("b", (cout,), F, lo, hi) if bias else None
        cfg = {"width": width, "mode": mode, "rng": rng, "dimr": dimr}
        if not pc:
            cfg.update({"scale": scale, "depth": depth})
        return env.make("kernel.FSUConv2dPC" if pc else "kernel.FSUConv2d", cin, cout, k, stride=stride, padding=pad, dilation=dil, bias=bias,
                        weight_ext=a, bias_ext=c, hwcfg=env.cfg(cfg), swcfg=env.cfg(sw(), "swcfg"))

    def call(env, o, a):
        if rscale is None and rentry is None:
            return env.it.call(o, list(a), {})
        return env.it.call(o, [a[0], rscale, rentry], {})
    return Scn("%s[%s,w%d,%s%d,%dx%dx%s->%d,k%s,s%s,p%s,d%s,bias=%s%s%s]" % ("FSUConv2dPC" if pc else "FSUConv2d", mode, width, rng, dimr, batch, cin, hw, cout, k, stride, pad, dil, bias, "" if pc else ",scale=%s,depth=%d" % (scale, depth),
               ",run=%s/%s" % (rscale, rentry) if rscale is not None or rentry is not None else ""),
               "kernel.FSUConv2dPC" if pc else "kernel.FSUConv2d", build, [In("x", (batch, cin) + tuple(hw), F)], call=call,
               ref=BlockRef(blocks, run, {"pad": [ZERO]} if flip else {}, {"pad": "bit"}))
