"""Scenarios for the stateless blocks, the metrics, the helpers and the binary-domain layers."""
import math
from fractions import Fraction
from . import terms as T
from . import tensor as TT
from . import refs as R
from .refs import BlockRef
from .compare import Ref
from .scen import Scn, In, Env
from .catalog import sw, T_, F, I8, I64, prange, weights, conv_geom, two
from .terms import P, ZERO, ONE

HALF = Fraction(1, 2)


class Pure(Ref):
    """stateless reference: outputs are a function of the inputs (and constructor parameters)"""

    def __init__(self, f):
        self.f = f

    def step(self, st, ins):
        return self.f(ins), {}


class Auto(Ref):
    def __init__(self, init, step, kinds=None):
        self._i, self._s = init, step
        self.kinds = kinds or {}

    def init(self, params):
        return {k: list(v) for k, v in self._i.items()}

    def step(self, st, ins):
        return self._s(st, ins)


# ------------------------------------------------------------------------------- streams
def rng(kind="Sobol", width=3, dim=1, rtype=F):
    tab = R.rng_table(kind, width, dim)

    def build(env):
        return env.make("stream.RNG", env.cfg({"width": width, "dimr": dim, "rng": kind}), env.cfg({"rtype": "torch." + rtype}, "swcfg"))
    return Scn("RNG[%s,w%d,dim%d,%s]" % (kind, width, dim, rtype), "stream.RNG", build, [], ref=Pure(lambda ins: [T_((2 ** width,), rtype, tab)]))


def bingen(mode="bipolar", width=3, shape=(3,), rtype=F):
    lo, hi = prange(mode)
    n = TT.numel(shape)
    vals = [R.encode(T.var("p:v[%d]" % i, lo, hi), width, mode.lower()) for i in range(n)]

    def build(env):
        return env.make("stream.BinGen", env.param("v", shape, F, lo, hi), env.cfg({"width": width, "mode": mode}), env.cfg({"rtype": "torch." + rtype}, "swcfg"))
    return Scn("BinGen[%s,w%d,%s,%s]" % (mode, width, shape, rtype), "stream.BinGen", build, [], ref=Pure(lambda ins: [T_(shape, rtype, vals)]))


def bsgen(length=4, bshape=(2,), cshape=(1,), stype=F, btype=F):
    n = TT.numel(bshape)
    b = [T.var("p:b[%d]" % i, 0, length, True) for i in range(n)]
    r = [T.var("p:r[%d]" % i, 0, length - 1, True) for i in range(length)]
    oshape = TT.bshape(bshape, cshape)

    def build(env):
        return env.make("stream.BSGen", env.param("b", bshape, btype, 0, length, True), env.param("r", (length,), btype, 0, length - 1, True), env.cfg({"stype": "torch." + stype}, "swcfg"))

    def f(ins):
        bb = bcast(b, bshape, oshape)
        cc = bcast(ins["cycle"], cshape, oshape)
        return [T_(oshape, stype, [T.gt(x, T.sel(tuple(r), T.mod(c, length))) for x, c in zip(bb, cc)])]
    return Scn("BSGen[len=%d,%s,%s,%s]" % (length, bshape, cshape, stype), "stream.BSGen", build, [In("cycle", cshape, I64, "int", 0, None)], ref=Pure(f))


def bcast(vals, shape, oshape):
    vals = list(vals)
    st = TT.contig(shape)
    pad = len(oshape) - len(shape)
    out = []
    n = TT.numel(oshape)
    ost = TT.contig(oshape)
    for i in range(n):
        p = 0
        for d in range(len(oshape)):
            x = (i // ost[d]) % oshape[d]
            if d >= pad and shape[d - pad] != 1:
                p += x * st[d - pad]
        out.append(vals[p])
    return out


def chain(mode="bipolar", width=2, kind="Sobol", dim=1, stype=F, rtype=F, shape=(2,)):
    """BinGen -> RNG -> BSGen over one period: which bit is produced in which cycle"""
    lo, hi = prange(mode)
    n = TT.numel(shape)
    enc = [R.encode(T.var("p:v[%d]" % i, lo, hi), width, mode.lower()) for i in range(n)]
    tab = R.rng_table(kind, width, dim)

    def build(env):
        c = env.cfg({"width": width, "mode": mode, "dimr": dim, "rng": kind})
        s = env.cfg(sw(stype, F, rtype), "swcfg")
        b = env.call(env.make("stream.BinGen", env.param("v", shape, F, lo, hi), c, s))
        r = env.call(env.make("stream.RNG", c, s))
        return env.make("stream.BSGen", b, r, s)

    def f(ins):
        return [T_(shape, stype, [T.gt(e, R.at(tab, ins["cycle"][0])) for e in enc])]
    return Scn("BinGen+RNG+BSGen[%s,w%d,%s%d,%s]" % (mode, width, kind, dim, stype), "stream.BSGen", build, [In("cycle", (1,), I64, "int", 0, None)], ref=Pure(f))


def quantile(vs, q):
    vs = list(vs)
    q = Fraction(q)
    if q == 0:
        return T.nary("min", vs)
    if q == 1:
        return T.nary("max", vs)
    if len(vs) == 1:
        return vs[0]
    if len(vs) == 2:
        lo, hi = T.pmin(*vs), T.pmax(*vs)
        return lo + (hi - lo) * q
    return T.fn("quantile", tuple(sorted(vs, key=lambda z: z.key)), q)


def rawscale(q=1, shape=(3,)):
    def build(env):
        return env.make("stream.RawScale", env.cfg({"quantile": q}))
    fq = Fraction(q)

    def f(ins):
        x = ins["x"]
        lo, hi = quantile(x, float(0.5 - q / 2)), quantile(x, float(0.5 + q / 2))
        s = T.pmax(T.pabs(lo), T.pabs(hi))
        return [T_(shape, F, [T.div(T.clamp(v, lo, hi), s) for v in x])]
    return Scn("RawScale[q=%s,%s]" % (q, shape), "stream.RawScale", build, [In("x", shape, F, "real", -4, 4)], ref=Pure(f))


# ------------------------------------------------------------------------------- metrics
def progerr(mode="bipolar", scale=1, shape=(2,), dtype=F):
    n = TT.numel(shape)
    src = [T.clamp(T.div(T.var("p:v[%d]" % i, -3, 3), P(Fraction(scale))), P(-1), ONE) for i in range(n)]

    def build(env):
        return env.make("metric.ProgError", env.param("v", shape, F, -3, 3), env.cfg({"scale": scale, "mode": mode}))

    def call(env, o, a):
        env.method(o, "Monitor", a[0])
        return env.call(o)

    def step(st, ins):
        cnt = [c + x for c, x in zip(st["cnt"], ins["x"])]
        n_ = st["n"][0] + 1
        pp = [T.div(c, n_) for c in cnt]
        if mode.lower() == "bipolar":
            pp = [p * 2 - 1 for p in pp]
        return [T_(shape, F, pp), T_(shape, F, [p - s for p, s in zip(pp, src)])], {"cnt": cnt, "n": [n_]}
    return Scn("ProgError[%s,scale=%s,%s,%s]" % (mode, scale, shape, dtype), "metric.ProgError", build, [In("x", shape, dtype)], call=call,
               ref=Auto({"cnt": [ZERO] * n, "n": [ZERO]}, step, {"cnt": (0, math.inf), "n": (0, math.inf)}))


def stability(mode="bipolar", scale=1, thr=0.25, shape=(2,)):
    n = TT.numel(shape)
    raw = [T.var("p:v[%d]" % i, -1, 1) for i in range(n)]
    src = [T.clamp(T.div(v, P(Fraction(scale))), P(-1), ONE) for v in raw]

    def build(env):
        return env.make("metric.Stability", env.param("v", shape, F, -1, 1), env.cfg({"scale": scale, "mode": mode, "threshold": thr}))

    def call(env, o, a):
        env.method(o, "Monitor", a[0])
        return env.call(o)

    def step(st, ins):
        cnt = [c + x for c, x in zip(st["cnt"], ins["x"])]
        n_ = st["n"][0] + 1
        pp = [T.div(c, n_) for c in cnt]
        if mode.lower() == "bipolar":
            pp = [p * 2 - 1 for p in pp]
        cts = [c + T.gt(T.pabs(p - s), P(Fraction(str(thr)))) * (n_ - c) for c, p, s in zip(st["cts"], pp, src)]
        out = [1 - T.div(T.clamp(c, ONE, n_), n_) for c in cts]
        return [T_(shape, F, out)], {"cnt": cnt, "n": [n_], "cts": cts}
    return Scn("Stability[%s,scale=%s,thr=%s,%s]" % (mode, scale, thr, shape), "metric.Stability", build, [In("x", shape)], call=call,
               ref=Auto({"cnt": [ZERO] * n, "n": [ZERO], "cts": [ZERO] * n}, step))


def correlation(shape=(2,), single=False):
    n = TT.numel(shape)

    def build(env):
        return env.make("metric.Correlation")

    def call(env, o, a):
        env.method(o, "Monitor", *a)
        return env.call(o)

    def step(st, ins):
        x = ins["x"]
        y = st["prev"] if single else ins["y"]
        a = [s + u * v for s, u, v in zip(st["a"], x, y)]
        b = [s + u * (1 - v) for s, u, v in zip(st["b"], x, y)]
        c = [s + (1 - u) * v for s, u, v in zip(st["c"], x, y)]
        d = [s + (1 - u) * (1 - v) for s, u, v in zip(st["d"], x, y)]
        n_ = st["n"][0] + 1
        out = []
        for a_, b_, c_, d_ in zip(a, b, c, d):
            det = a_ * d_ - b_ * c_
            pos = T.gt(det, ZERO)
            up = T.div(det, T.pmax(T.pmin(a_ + b_, a_ + c_) * n_ - (a_ + b_) * (a_ + c_), ONE))
            dn = T.div(det, T.pmax((a_ + b_) * (a_ + c_) - T.pmax(a_ - d_, ZERO) * n_, ONE))
            out.append(pos * up + (1 - pos) * dn)
        new = {"a": a, "b": b, "c": c, "d": d, "n": [n_]}
        if single:
            new["prev"] = list(x)
        return [T_(shape, F, out)], new
    z = [ZERO] * n
    init = {"a": z, "b": z, "c": z, "d": z, "n": [ZERO]}
    if single:
        init["prev"] = z
    ins = [In("x", shape)] + ([] if single else [In("y", shape)])
    return Scn("Correlation[%s%s]" % (shape, ",single" if single else ""), "metric.Correlation", build, ins, call=call, ref=Auto(init, step, {"prev": "bit"}))


# ------------------------------------------------------------------------------- helpers
class IntIn(In):
    """an integer argument"""

    def __init__(self, name, lo, hi=None):
        super().__init__(name, (), I64, "int", lo, hi)

    def tensor(self):
        return TT.mk_sym(self.atoms()[0], "int")


def S_(p):
    return ((), None, [p])


def fdiv(a, b):
    return T.floor(T.div(a, b))


def pair(name, kind, los):
    """argument given as one int or as a tuple: inputs and the two components"""
    if kind == "int":
        i = IntIn(name, los)
        return [i], lambda v: v[0], lambda ins: (ins[name][0], ins[name][0])
    a, b = IntIn(name + "h", los), IntIn(name + "w", los)
    return [a, b], lambda v: (v[0], v[1]), lambda ins: (ins[name + "h"][0], ins[name + "w"][0])


def shape_helper(fname, kinds, concrete=None):
    """kinds: {argument: 'int'|'tuple'|'pads'|'default'}"""
    order = {"conv2d_output_shape": ["h_w", "kernel_size", "stride", "pad", "dilation"],
             "convtransp2d_output_shape": ["h_w", "kernel_size", "stride", "pad", "dilation", "out_pad"],
             "conv2d_get_padding": ["h_w_in", "h_w_out", "kernel_size", "stride", "dilation"],
             "convtransp2d_get_padding": ["h_w_in", "h_w_out", "kernel_size", "stride", "dilation", "out_pad"]}[fname]
    defaults = {"kernel_size": 1, "stride": 1, "pad": 0, "dilation": 1, "out_pad": 0}
    los = {"h_w": 1, "kernel_size": 1, "stride": 1, "pad": 0, "dilation": 1, "out_pad": 0, "h_w_in": 1, "h_w_out": 1}
    ins, mk, get = [], [], {}
    for a in order:
        k = kinds.get(a, "int")
        if concrete and a in concrete:
            v = concrete[a]
            mk.append((a, 0, lambda _, v=v: v))
            t = v if isinstance(v, tuple) else (v, v)
            get[a] = lambda i, t=t: (P(t[0]), P(t[1]))
            continue
        if k == "default":
            d = P(defaults[a])
            mk.append((None, 0, None))
            get[a] = lambda i, d=d: (d, d)
            continue
        if k == "pads":
            names = [a + s for s in ("t", "b", "l", "r")]
            new = [IntIn(x, los[a]) for x in names]
            mk.append((a, 4, lambda v: ((v[0], v[1]), (v[2], v[3]))))
            get[a] = lambda i, names=names: tuple(tuple(i[x][0] for x in names[j:j + 2]) for j in (0, 2))
            ins += new
            continue
        new, m, g = pair(a, k, los[a])
        ins += new
        mk.append((a, len(new), m))
        get[a] = g

    def build(env):
        return env.get("kernel.utils." + fname)

    def call(env, o, a):
        kw = {}
        pos = 0
        for name, n, m in mk:
            if name is not None:
                kw[name] = m(a[pos:pos + n])
                pos += n
        return env.it.call(o, [], kw)

    def f(ins):
        g = {a: get[a](ins) for a in order}
        out = []
        for j in (0, 1):
            k, s, d = g["kernel_size"][j], g["stride"][j], g["dilation"][j]
            if fname.endswith("output_shape"):
                h, p = g["h_w"][j], g["pad"][j]
                p = p[0] + p[1] if isinstance(p, tuple) else p * 2
                if fname.startswith("convt"):
                    out.append(S_((h - 1) * s - p + d * (k - 1) + g["out_pad"][j] + 1))
                else:
                    out.append(S_(fdiv(h + p - d * (k - 1) - 1, s) + 1))
            else:
                i, o = g["h_w_in"][j], g["h_w_out"][j]
                if fname.startswith("convt"):
                    p = (i - 1) * s + d * (k - 1) + g["out_pad"][j] + 1 - o
                else:
                    p = (o - 1) * s + d * (k - 1) + 1 - i
                lo = T.floor(p * HALF)
                out += [S_(lo), S_(p - lo)]
        return out
    nm = ",".join("%s=%s" % (a, concrete[a] if concrete and a in concrete else kinds.get(a, "int")) for a in order)
    return Scn("%s[%s]" % (fname, nm), "kernel.utils." + fname, build, ins, call=call, ref=Pure(f))


def num2tuple(kind):
    def build(env):
        return env.get("kernel.utils.num2tuple")
    if kind == "int":
        return Scn("num2tuple[int]", "kernel.utils.num2tuple", build, [IntIn("a", 0)], ref=Pure(lambda i: [S_(i["a"][0]), S_(i["a"][0])]))
    return Scn("num2tuple[tuple]", "kernel.utils.num2tuple", build, [IntIn("a", 0), IntIn("b", 0)],
               call=lambda env, o, a: env.it.call(o, [(a[0], a[1])], {}), ref=Pure(lambda i: [S_(i["a"][0]), S_(i["b"][0])]))


# ------------------------------------------------------------------------------- activations
def act(path, args=(), shape=(3,), f=None, name=""):
    def build(env):
        return env.make(path, *args)
    return Scn("%s[%s]" % (path.split(".")[-1], name or ",".join(str(a) for a in args)), path, build, [In("x", shape, F, "real", -8, 8)],
               ref=Pure(lambda ins: [T_(shape, F, [f(v) for v in ins["x"]])]))


def hub_hardsigmoid(scale=None, shape=(3,)):
    s = Fraction(3 if scale is None else scale)
    return act("kernel.HUBHardsigmoid", () if scale is None else (scale,), shape, lambda v: T.clamp(v * s * Fraction(1, 6) + HALF, ZERO, ONE))


def hub_relu(scale=None, shape=(3,)):
    s = Fraction(1 if scale is None else scale)
    return act("kernel.HUBReLU", () if scale is None else (scale,), shape, lambda v: T.clamp(v, ZERO, P(s)))


def hub_hardtanh(shape=(3,)):
    return act("kernel.HUBHardtanh", (), shape, lambda v: T.clamp(v, P(-1), ONE))


def fsu_hardtanh(shape=(3,)):
    return act("kernel.FSUHardtanh", (), shape, lambda v: v)


# ------------------------------------------------------------------------------- quantisers
def round_(intw=3, fracw=4, shape=(3,), none=False):
    hi = 2 ** (intw + fracw) - 1

    def build(env):
        return env.make("kernel.Round", intw, fracw)

    def f(ins):
        return [T_(shape, F, [T.clamp(T.pround(v * 2 ** fracw), P(-hi), P(hi)) * Fraction(1, 2 ** fracw) for v in ins["x"]])]
    return Scn("Round[%d.%d,%s]" % (intw, fracw, shape), "kernel.Round", build, [In("x", shape, F, "real", -64, 64)], ref=Pure(f))


# ------------------------------------------------------------------------------- binary layers
def tab_ctl(width_c, rng_c, rng_e, dim=1):
    """number of ones the controlled operand delivers while the controlling operand is 1:
    [controller value][controlled value]"""
    n = 2 ** width_c
    tc, te = R.rng_table(rng_c, width_c, dim), R.rng_table(rng_e, width_c, dim)
    out = []
    for a in range(n):
        ones = sum(1 for t in tc if a > int(t.cval()))
        out.append([sum(1 for t in te[:ones] if b > int(t.cval())) for b in range(n)])
    return out


def rshift_ref(vs, quant, rounding, width):
    q = float(0.5 - quant / 2), float(0.5 + quant / 2)
    sc = T.pmax(T.pabs(quantile(vs, q[1])), T.pabs(quantile(vs, q[0])))
    from .torchmodel import log2_
    l = log2_(sc)
    return {"round": T.pround, "floor": T.floor, "ceil": T.ceil}[rounding](l)


def sh(p, n):
    """p * 2**n"""
    return T.mul(p, T.pow2(P(n)))


def hub_mm(x, w, B, I, O, width, rng_i, rng_w, cycle, rounding, qi, qw, bias, imax, wmax):
    m = width - 1
    itc = rng_i.lower() in R.TEMPORAL
    wtc = rng_w.lower() in R.TEMPORAL
    if wtc and not itc:
        tab = tab_ctl(m, rng_w, rng_i)
    else:
        tab = tab_ctl(m, rng_i, rng_w)
    cyc = 2 ** m if cycle is None else min(cycle, 2 ** m)
    rows = [tuple(P(v) for v in r) for r in tab]

    def mag(v, mx):
        return T.clamp(T.pabs(T.pround(sh(v, m - mx))), ZERO, P(cyc - 1))
    ai = [mag(v, imax) for v in x]
    aw = [mag(v, wmax) for v in w]
    out = []
    for n in range(B):
        for o in range(O):
            s = ZERO
            for i in range(I):
                a, b = ai[n * I + i], aw[o * I + i]
                v = T.sel(tuple(T.sel(r, b) for r in rows), a)
                s = s + T.psign(x[n * I + i]) * T.psign(w[o * I + i]) * v
            s = sh(s, imax + wmax - m)
            out.append(s + bias[o] if bias else s)
    return out


def hublinear(width=4, rng_i="Sobol", rng_w="Sobol", cycle=8, rounding="round", qi=1, qw=1, B=1, I=2, O=1, bias=True):
    w = [T.var("p:w[%d]" % i, -1, 1) for i in range(O * I)]
    b = [T.var("p:b[%d]" % i, -1, 1) for i in range(O)] if bias else None

    def build(env):
        return env.make("kernel.HUBLinear", I, O, bias, env.param("w", (O, I), F), env.param("b", (O,), F) if bias else None,
                        env.cfg({"widthi": width, "rngi": rng_i, "quantilei": qi, "widthw": width, "rngw": rng_w, "quantilew": qw, "cycle": cycle, "rounding": rounding, "signmag": True}))

    def f(ins):
        x = ins["x"]
        im, wm = rshift_ref(x, qi, rounding, width), rshift_ref(w, qw, rounding, width)
        return [T_((B, O), F, hub_mm(x, w, B, I, O, width, rng_i, rng_w, cycle, rounding, qi, qw, b, im, wm))]
    return Scn("HUBLinear[w%d,%s/%s,cycle=%s,%s,q%s/%s,%dx%d->%d,bias=%s]" % (width, rng_i, rng_w, cycle, rounding, qi, qw, B, I, O, bias), "kernel.HUBLinear", build,
               [In("x", (B, I), F, "real", -4, 4)], ref=Pure(f))


def im2col(x, batch, cin, hw, cols):
    n1 = cin * hw[0] * hw[1]
    return [[(x[n * n1 + i] if i is not None else ZERO) for i in col] for n in range(batch) for col in cols]


def fold(res, batch, L, cout):
    r = []
    for n in range(batch):
        for c in range(cout):
            for l in range(L):
                r.append(res[(n * L + l) * cout + c])
    return r


def hubconv(width=3, rng_i="Sobol", rng_w="Sobol", cycle=None, rounding="round", batch=1, cin=1, cout=2, hw=(2, 2), k=2, stride=1, pad=0, dil=1, bias=True):
    kk, ss, pp, dd = two(k), two(stride), two(pad), two(dil)
    oh, ow, cols = conv_geom(cin, hw, kk, ss, pp, dd)
    nk = cin * kk[0] * kk[1]
    L = oh * ow
    w = [T.var("p:w[%d]" % i, -1, 1) for i in range(cout * nk)]
    b = [T.var("p:b[%d]" % i, -1, 1) for i in range(cout)] if bias else None

    def build(env):
        return env.make("kernel.HUBConv2d", cin, cout, k, stride=stride, padding=pad, dilation=dil, bias=bias, weight_ext=env.param("w", (cout, cin) + kk, F), bias_ext=env.param("b", (cout,), F) if bias else None,
                        hwcfg=env.cfg({"widthi": width, "rngi": rng_i, "quantilei": 1, "widthw": width, "rngw": rng_w, "quantilew": 1, "cycle": cycle, "rounding": rounding, "signmag": True}))

    def f(ins):
        col = [v for c in im2col(ins["x"], batch, cin, hw, cols) for v in c]
        im, wm = rshift_ref(ins["x"], 1, rounding, width), rshift_ref(w, 1, rounding, width)
        o = hub_mm(col, w, batch * L, nk, cout, width, rng_i, rng_w, cycle, rounding, 1, 1, b, im, wm)
        return [T_((batch, cout, oh, ow), F, fold(o, batch, L, cout))]
    return Scn("HUBConv2d[w%d,%s/%s,cycle=%s,%s,%dx%dx%s->%d,k%s,s%s,p%s,d%s,bias=%s]" % (width, rng_i, rng_w, cycle, rounding, batch, cin, hw, cout, k, stride, pad, dil, bias), "kernel.HUBConv2d", build,
               [In("x", (batch, cin) + tuple(hw), F, "real", -4, 4)], ref=Pure(f))


def fxp_mm(x, w, B, I, O, wi, ww, bias, im, wm):
    ri, rw = im - (wi - 1), wm - (ww - 1)
    a = [T.clamp(T.pround(sh(v, -ri)), P(1 - 2 ** wi), P(2 ** wi - 1)) for v in x]
    c = [T.clamp(T.pround(sh(v, -rw)), P(1 - 2 ** ww), P(2 ** ww - 1)) for v in w]
    out = []
    for n in range(B):
        for o in range(O):
            s = ZERO
            for i in range(I):
                s = s + a[n * I + i] * c[o * I + i]
            s = sh(s, ri + rw)
            out.append(s + bias[o] if bias else s)
    return out


def fxplinear(wi=4, ww=4, rounding="round", qi=1, qw=1, B=1, I=2, O=2, bias=True):
    w = [T.var("p:w[%d]" % i, -1, 1) for i in range(O * I)]
    b = [T.var("p:b[%d]" % i, -1, 1) for i in range(O)] if bias else None

    def build(env):
        return env.make("kernel.FXPLinear", I, O, bias, env.param("w", (O, I), F), env.param("b", (O,), F) if bias else None,
                        env.cfg({"widthi": wi, "quantilei": qi, "widthw": ww, "quantilew": qw, "rounding": rounding}))

    def f(ins):
        x = ins["x"]
        return [T_((B, O), F, fxp_mm(x, w, B, I, O, wi, ww, b, rshift_ref(x, qi, rounding, wi), rshift_ref(w, qw, rounding, ww)))]
    return Scn("FXPLinear[w%d/%d,%s,q%s/%s,%dx%d->%d,bias=%s]" % (wi, ww, rounding, qi, qw, B, I, O, bias), "kernel.FXPLinear", build, [In("x", (B, I), F, "real", -4, 4)], ref=Pure(f))


def fxpconv(wi=4, ww=4, rounding="round", batch=1, cin=1, cout=2, hw=(2, 3), k=2, stride=1, pad=0, dil=1, bias=True):
    kk, ss, pp, dd = two(k), two(stride), two(pad), two(dil)
    oh, ow, cols = conv_geom(cin, hw, kk, ss, pp, dd)
    nk = cin * kk[0] * kk[1]
    L = oh * ow
    w = [T.var("p:w[%d]" % i, -1, 1) for i in range(cout * nk)]
    b = [T.var("p:b[%d]" % i, -1, 1) for i in range(cout)] if bias else None

    def build(env):
        return env.make("kernel.FXPConv2d", cin, cout, k, stride=stride, padding=pad, dilation=dil, bias=bias, weight_ext=env.param("w", (cout, cin) + kk, F), bias_ext=env.param("b", (cout,), F) if bias else None,
                        hwcfg=env.cfg({"widthi": wi, "quantilei": 1, "widthw": ww, "quantilew": 1, "rounding": rounding}))

    def f(ins):
        col = [v for c in im2col(ins["x"], batch, cin, hw, cols) for v in c]
        o = fxp_mm(col, w, batch * L, nk, cout, wi, ww, b, rshift_ref(ins["x"], 1, rounding, wi), rshift_ref(w, 1, rounding, ww))
        return [T_((batch, cout, oh, ow), F, fold(o, batch, L, cout))]
    return Scn("FXPConv2d[w%d/%d,%s,%dx%dx%s->%d,k%s,s%s,p%s,d%s,bias=%s]" % (wi, ww, rounding, batch, cin, hw, cout, k, stride, pad, dil, bias), "kernel.FXPConv2d", build,
               [In("x", (batch, cin) + tuple(hw), F, "real", -4, 4)], ref=Pure(f))


# temporal look-up-table layers: digits of the operand, least significant first, each clamped to
# the early-terminated cycle count
def tlut_digits(v, widtht, degree, cyc):
    """v: integral value; sum of clamped base-2^widtht digits, scaled by 2^-(widtht*degree)"""
    acc = ZERO
    for _ in range(degree):
        v = v * Fraction(1, 2 ** widtht)
        fr = v - T.trunc(v)
        v = T.trunc(v)
        d = T.clamp(fr * 2 ** widtht, P(1 - cyc), P(cyc - 1))
        acc = (acc + d) * Fraction(1, 2 ** widtht)
    return acc


FPW = {"bfloat16": 8, "float16": 11, "float32": 24}


def tlut_ops(x, w, temporal, widtht, fi, fw, wi, ww, cycle, rounding, qi, qw):
    cyc = 2 ** widtht if cycle is None else min(cycle, 2 ** widtht)
    it = temporal in ("i", "input")
    fmt, wd = (fi, wi) if it else (fw, ww)
    width = wd - 1 if fmt == "fxp" else FPW[fmt]
    degree = -(-width // widtht)
    delta = degree * widtht - width
    if fi == "fxp" and fw == "fxp":
        im, wm = rshift_ref(x, qi, rounding, wi), rshift_ref(w, qw, rounding, ww)

        def fx(vs, mx, wdt, on):
            m = wdt - 1
            r = mx - m
            vs = [T.trunc(T.clamp(sh(v, -r), P(1 - 2 ** m), P(2 ** m - 1))) for v in vs]
            if on:
                return [sh(tlut_digits(v, widtht, degree, cyc), r + (delta + m)) for v in vs]
            return [sh(v, r) for v in vs]
        return fx(x, im, wi, it), fx(w, wm, ww, not it)
    if fi == "fxp" or fw == "fxp":
        im, wm = rshift_ref(x, qi, rounding, wi), rshift_ref(w, qw, rounding, ww)

        def fx(vs, mx):
            r = mx - width
            vs = [T.trunc(T.clamp(sh(v, -r), P(1 - 2 ** width), P(2 ** width - 1))) for v in vs]
            return [sh(tlut_digits(v, widtht, degree, cyc), r + (delta + width)) for v in vs]
        return (fx(x, im), w) if it else (x, fx(w, wm))

    def fp(vs):
        out = []
        for v in vs:
            m, e = T.frexp2(v)
            out.append(sh(tlut_digits(m * 2 ** width, widtht, degree, cyc) * 2 ** delta, e))
        return out
    return (fp(x), w) if it else (x, fp(w))


def mm(a, c, B, I, O, bias):
    out = []
    for n in range(B):
        for o in range(O):
            s = ZERO
            for i in range(I):
                s = s + a[n * I + i] * c[o * I + i]
            out.append(s + bias[o] if bias else s)
    return out


def tlutlinear(temporal="i", widtht=2, fi="fxp", fw="fxp", wi=5, ww=5, cycle=None, rounding="round", qi=1, qw=1, B=1, I=2, O=1, bias=True):
    w = [T.var("p:w[%d]" % i, -1, 1) for i in range(O * I)]
    b = [T.var("p:b[%d]" % i, -1, 1) for i in range(O)] if bias else None

    def build(env):
        return env.make("kernel.TLUTLinear", I, O, bias, env.param("w", (O, I), F), env.param("b", (O,), F) if bias else None,
                        env.cfg({"temporal": temporal, "widtht": widtht, "formati": fi, "widthi": wi, "quantilei": qi, "formatw": fw, "widthw": ww, "quantilew": qw, "cycle": cycle, "rounding": rounding, "signmag": True}))

    def f(ins):
        a, c = tlut_ops(ins["x"], w, temporal, widtht, fi, fw, wi, ww, cycle, rounding, qi, qw)
        return [T_((B, O), F, mm(a, c, B, I, O, b))]
    return Scn("TLUTLinear[%s,t%d,%s%d/%s%d,cycle=%s,%s,q%s/%s,%dx%d->%d,bias=%s]" % (temporal, widtht, fi, wi, fw, ww, cycle, rounding, qi, qw, B, I, O, bias), "kernel.TLUTLinear", build,
               [In("x", (B, I), F, "real", -4, 4)], ref=Pure(f))


def tlutconv(temporal="i", widtht=2, fi="fxp", fw="fxp", wi=5, ww=5, cycle=None, rounding="round", batch=1, cin=1, cout=2, hw=(2, 2), k=2, stride=1, pad=0, dil=1, bias=True):
    kk, ss, pp, dd = two(k), two(stride), two(pad), two(dil)
    oh, ow, cols = conv_geom(cin, hw, kk, ss, pp, dd)
    nk = cin * kk[0] * kk[1]
    L = oh * ow
    w = [T.var("p:w[%d]" % i, -1, 1) for i in range(cout * nk)]
    b = [T.var("p:b[%d]" % i, -1, 1) for i in range(cout)] if bias else None

    def build(env):
        return env.make("kernel.TLUTConv2d", cin, cout, k, stride=stride, padding=pad, dilation=dil, bias=bias, weight_ext=env.param("w", (cout, cin) + kk, F), bias_ext=env.param("b", (cout,), F) if bias else None,
                        hwcfg=env.cfg({"temporal": temporal, "widtht": widtht, "formati": fi, "widthi": wi, "quantilei": 1, "formatw": fw, "widthw": ww, "quantilew": 1, "cycle": cycle, "rounding": rounding, "signmag": True}))

    def f(ins):
        col = [v for c in im2col(ins["x"], batch, cin, hw, cols) for v in c]
        a, c = tlut_ops(col, w, temporal, widtht, fi, fw, wi, ww, cycle, rounding, 1, 1)
        return [T_((batch, cout, oh, ow), F, fold(mm(a, c, batch * L, nk, cout, b), batch, L, cout))]
    return Scn("TLUTConv2d[%s,t%d,%s%d/%s%d,cycle=%s,%dx%dx%s->%d,k%s,s%s,p%s,d%s,bias=%s]" % (temporal, widtht, fi, wi, fw, ww, cycle, batch, cin, hw, cout, k, stride, pad, dil, bias), "kernel.TLUTConv2d", build,
               [In("x", (batch, cin) + tuple(hw), F, "real", -4, 4)], ref=Pure(f))
