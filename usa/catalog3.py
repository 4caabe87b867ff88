"""Scenarios for the recurrent cells, weight initialisation and the quantisers that update modules
in place."""
import math
from fractions import Fraction
from . import terms as T
from . import tensor as TT
from . import refs as R
from .refs import BlockRef
from .compare import equal, Compiled, varids_of, sample_value, EvalError
from .scen import Scn, In, Undecided
from .interp import Class, PyFn
from .catalog import sw, T_, F, weights
from .catalog2 import Pure, Auto
from .terms import P, ZERO, ONE
import random

HALF = Fraction(1, 2)


# ------------------------------------------------------------------------------- FSU cell
def mgu(width=2, depth=5, ismul=2, rng="Sobol", dimr=1, batch=1, nin=1, hid=1, bias=True):
    wf, wn = weights("wf", hid * (hid + nin), width, "bipolar"), weights("wn", hid * (hid + nin), width, "bipolar")
    bf, bn = (weights("bf", hid, width, "bipolar"), weights("bn", hid, width, "bipolar")) if bias else (None, None)
    n = batch * hid
    hb = weights("hb", n, width, "bipolar")
    k = hid + nin
    ent = k + bias
    off = Fraction(ent - 1, 2)
    lf = R.LinPCB("lf", batch, k, hid, width, "bipolar", rng, dimr, wf, bf)
    af = R.AddB("af", n, depth, 1, off)
    ln = R.LinPCB("ln", batch, k, hid, width, "bipolar", rng, dimr, wn, bn)
    an = R.AddB("an", n, depth, 1, off)
    sg = R.AddB("sg", n, depth, 2, 0)
    mh = R.MulStaticB("mh", n, width, "bipolar", rng, dimr, hb)
    mg = R.MulStreamB("mg", n, ismul, "bipolar", rng, dimr)
    hy = R.AddB("hy", n, depth, 1, 1)

    def cat(a, b):
        out = []
        for i in range(batch):
            out += a[i * hid:(i + 1) * hid] + b[i * nin:(i + 1) * nin]
        return out

    def run(st, new, ins):
        x, h = ins["x"], ins["h"]
        fin = af.step(st, new, lf.step(st, new, cat(h, x)))
        fg = sg.step(st, new, [f + 1 for f in fin])
        fh = mh.step(st, new, fg)
        ng = an.step(st, new, ln.step(st, new, cat(fh, x)))
        fn = mg.step(st, new, fg, ng)
        return [T_((batch, hid), F, hy.step(st, new, [a + 1 - b + c for a, b, c in zip(ng, fn, fh)]))]

    def build(env):
        a, b = env.param("wf", (hid, k), F), env.param("wn", (hid, k), F)
        c, d = (env.param("bf", (hid,), F), env.param("bn", (hid,), F)) if bias else (None, None)
        return env.make("kernel.FSUMGUCell", nin, hid, bias=bias, weight_ext_f=a, bias_ext_f=c, weight_ext_n=b, bias_ext_n=d, hx_buffer=env.param("hb", (batch, hid), F),
                        hwcfg=env.cfg({"width": width, "mode": "bipolar", "depth": depth, "depth_ismul": ismul, "rng": rng, "dimr": dimr}), swcfg=env.cfg(sw(), "swcfg"))
    return Scn("FSUMGUCell[w%d,depth=%d,ismul=%d,%s%d,%dx%d,hid=%d,bias=%s]" % (width, depth, ismul, rng, dimr, batch, nin, hid, bias), "kernel.FSUMGUCell", build,
               [In("x", (batch, nin)), In("h", (batch, hid))], ref=BlockRef([lf, af, ln, an, sg, mh, mg, hy], run))


# ------------------------------------------------------------------------------- HUB cell
def same(p, q):
    """True / False / Undecided"""
    p, q = P(p), P(q)
    if equal(p, q):
        return True
    ids = sorted(varids_of([p, q]))
    c = Compiled([p, q], ids)
    rng = random.Random(3)
    for k in range(60):
        try:
            a, b = c([sample_value(T.atom(i), rng, 1) for i in ids])
        except EvalError:
            continue
        if a != b:
            return False
    raise Undecided("cannot compare the operands of the cell")


def sames(xs, ys):
    return len(xs) == len(ys) and all([same(a, b) for a, b in zip(xs, ys)])


def hubmgu(width=2, rng="Sobol", dimr=1, batch=1, nin=2, hid=2, hx=True, tag="", ismul=6):
    """the recurrent cell is fed with the streams of input and hidden state for 2^width cycles; the
    result is the bipolar value of its output stream.  The unary cell itself (decided separately)
    is replaced by an uninterpreted stream."""
    n = batch * hid
    N = 2 ** width
    tab = R.rng_table(rng, width, dimr)
    bits = [[T.bit("p:cell%s%d[%d]" % (tag, c, i)) for i in range(n)] for c in range(N + 8)]
    bad = [[T.bit("p:other%s%d[%d]" % (tag, c, i)) for i in range(n)] for c in range(N + 8)]
    xv = In("x" + tag, (batch, nin), F, "real", -1, 1)
    hv = In("h" + tag, (batch, hid), F, "real", -1, 1)
    hx_terms = hv.atoms() if hx else [ZERO] * n
    log = {"made": 0}

    def stub(it, cls, args, kw):
        f, c = cls.find("__init__")
        names = [a.arg for a in f.node.args.args][1:]
        a = dict(zip(names, args))
        a.update(kw)
        log["made"] += 1
        ok = a.get("input_size") == nin and a.get("hidden_size") == hid and a.get("bias", True) is True
        for k, v in (("weight_ext_f", "wf"), ("weight_ext_n", "wn"), ("bias_ext_f", "bf"), ("bias_ext_n", "bn")):
            t = a.get(k)
            ok = ok and isinstance(t, TT.Tensor) and t.shape == log["params"][v].shape and sames(t.get(), log["params"][v].get())
        t = a.get("hx_buffer")
        ok = ok and isinstance(t, TT.Tensor) and t.shape == (batch, hid) and sames(t.get(), hx_terms)
        h = a.get("hwcfg")
        want = {"width": width, "mode": "bipolar", "depth": 10, "depth_ismul": ismul, "rng": rng, "dimr": dimr}
        ok = ok and isinstance(h, dict) and all((h.get(k).lower() if isinstance(h.get(k), str) else h.get(k)) == (v.lower() if isinstance(v, str) else v) for k, v in want.items())
        cyc = [0]

        def fwd(it, o, i, h):
            c = cyc[0]
            cyc[0] += 1
            if c >= N + 8:
                raise Undecided("the cell runs too long")
            g = ok and c < N and isinstance(i, TT.Tensor) and isinstance(h, TT.Tensor) and i.shape == (batch, nin) and h.shape == (batch, hid)
            if g:
                e = [[T.gt(R.encode(v, width, "bipolar"), tab[c]) for v in vs] for vs in (xv.atoms(), hx_terms)]
                g = sames(i.get(), e[0]) and sames(h.get(), e[1])
            return TT.new((bits if g else bad)[c], (batch, hid), TT.DT[F])
        C = Class("UnaryCell", [it.lib.classes["Module"]], {"forward": PyFn("UnaryCell.forward", fwd)}, lib=True)
        return it.instantiate(C, [], {})

    def build(env):
        p = log["params"] = {"wf": env.param("wf", (hid, hid + nin), F), "wn": env.param("wn", (hid, hid + nin), F), "bf": env.param("bf", (hid,), F), "bn": env.param("bn", (hid,), F)}
        return env.make("kernel.HUBMGUCell", nin, hid, True, p["wf"], p["bf"], p["wn"], p["bn"],
                        env.cfg({"width": width, "mode": "bipolar", "depth": 10, "depth_ismul": ismul, "rng": rng, "dimr": dimr}))

    def call(env, o, a):
        k = log["made"]
        r = env.it.call(o, list(a) if hx else [a[0], None], {})
        if log["made"] == k:
            raise Undecided("the unary cell is not instantiated")
        return r

    def f(ins):
        out = [sum((bits[c][i] for c in range(N)), ZERO) * Fraction(2, N) - 1 for i in range(n)]
        return [T_((batch, hid), F, out)]
    return Scn("HUBMGUCell[w%d,%s%d,%dx%d,hid=%d,hx=%s]" % (width, rng, dimr, batch, nin, hid, "given" if hx else "None"), "kernel.HUBMGUCell", build,
               [xv, hv] if hx else [xv], call=call, ref=Pure(f), info={"stubs": {"FSUMGUCell": stub}, "log": log})


def hubmgu_seq(seq, **kw):
    """the same cell called in turn with other batch sizes, with and without a hidden state"""
    ss = [hubmgu(tag=str(k), **dict(kw, **s)) for k, s in enumerate(seq)]
    cur = [0]

    def stub(*a):
        return ss[cur[0]].info["stubs"]["FSUMGUCell"](*a)

    def build(env):
        o = ss[0].build(env)
        for s in ss[1:]:
            s.info["log"]["params"] = ss[0].info["log"]["params"]
        return o

    def call(env, o, a):
        r, a = [], list(a)
        for k, s in enumerate(ss):
            x, a = a[:len(s.ins)], a[len(s.ins):]
            cur[0] = k
            r.append(s.call(env, o, x))
        return tuple(r)

    def f(ins):
        return [o for s in ss for o in s.ref.step({}, ins)[0]]
    return Scn("%s{%s}" % (ss[0].name, " then ".join(str(s) for s in seq)), ss[0].unit, build, [i for s in ss for i in s.ins], call=call, ref=Pure(f), info={"stubs": {"FSUMGUCell": stub}})


# ------------------------------------------------------------------------------- float cell
def hardmgu(batch=1, nin=1, hid=1, bias=True, hx=True, fxp=None, hard=True):
    k = hid + nin

    def build(env):
        o = env.make("kernel.HardMGUCellFXP" if fxp else "kernel.HardMGUCell", nin, hid, bias, hard, *(fxp or ()))
        for nm, shp in (("weight_f", (hid, k)), ("weight_n", (hid, k))) + ((("bias_f", (hid,)), ("bias_n", (hid,))) if bias else ()):
            p = env.it.getattr(o, nm)
            env.it.setattr(p, "data", env.param(nm, shp, F))
        return o

    def pv(nm, m):
        return [T.var("p:%s[%d]" % (nm, i), -1, 1) for i in range(m)]
    if fxp:
        hi = 2 ** (fxp[0] + fxp[1]) - 1

        def tr(v):
            return T.clamp(T.pround(v * 2 ** fxp[1]), P(-hi), P(hi)) * Fraction(1, 2 ** fxp[1])
    else:
        def tr(v):
            return v

    def ht(v):
        return T.clamp(v, P(-1), ONE)

    def f(ins):
        x = ins["x"]
        h = ins["h"] if hx else [ZERO] * (batch * hid)
        W, V = pv("weight_f", hid * k), pv("weight_n", hid * k)
        b, c = (pv("bias_f", hid), pv("bias_n", hid)) if bias else (None, None)
        out = []
        for n in range(batch):
            hh, xx = h[n * hid:(n + 1) * hid], x[n * nin:(n + 1) * nin]
            a = [tr(tr(v)) for v in hh + xx]

            def lin(w, bb, v, o):
                s = sum((tr(w[o * k + i]) * v[i] for i in range(k)), ZERO)
                return s + tr(bb[o]) if bb else s
            if hard:
                fg = [T.clamp(tr(ht(lin(W, b, a, o))) * HALF + HALF, ZERO, ONE) for o in range(hid)]
            else:
                fg = [T.fn("sigmoid", (tr(ht(lin(W, b, a, o))),)) for o in range(hid)]
            fh = [tr(fg[o]) * tr(hh[o]) for o in range(hid)]
            a2 = [tr(tr(v)) for v in fh + xx]
            ng = [ht(tr(lin(V, c, a2, o))) if hard else T.fn("tanh", (tr(lin(V, c, a2, o)),)) for o in range(hid)]
            for o in range(hid):
                fn = tr(fg[o]) * tr(ng[o])
                out.append(ht(tr(ng[o]) - tr(tr(fn)) + tr(fh[o])))
        return [T_((batch, hid), F, out)]

    def call(env, o, a):
        return env.it.call(o, list(a), {})
    return Scn("%s[%dx%d,hid=%d,bias=%s,hx=%s%s%s]" % ("HardMGUCellFXP" if fxp else "HardMGUCell", batch, nin, hid, bias, "given" if hx else "default", ",%d.%d" % fxp if fxp else "", "" if hard else ",soft"),
               "kernel.HardMGUCellFXP" if fxp else "kernel.HardMGUCell", build,
               [In("x", (batch, nin), F, "real", -1, 1)] + ([In("h", (batch, hid), F, "real", -1, 1)] if hx else []), call=call, ref=Pure(f), info={"build_default": False})


# ------------------------------------------------------------------------------- clipper
def clip_scn(mode="bipolar", bitwidth=3, freq=1, nw=2, bias=True, conv=False, plain=False):
    """weights and biases of a module after a call: normalised to the full range by the first call
    of a clipper that starts at frequency 1, clipped by every later call; always on the grid"""
    shp = (1, 1, 1, nw) if conv else (1, nw)
    wv = [T.var("p:w[%d]" % i, -4, 4) for i in range(nw)]
    bv = [T.var("p:b[%d]" % i, -4, 4) for i in range(2)]

    def build(env):
        c = env.make("kernel.NN_SC_Weight_Clipper", freq, mode, "clip", bitwidth)
        nn = env.it.import_module("torch.nn")
        if conv:
            m = env.call(env.it.getattr(nn, "Conv2d"), 1, 2, (1, nw), bias=bias)
        else:
            m = env.call(env.it.getattr(nn, "Linear"), nw, 2, bias=bias)
        return (c, m)
    shp = (2,) + shp[1:]
    wv = [T.var("p:w[%d]" % i, -4, 4) for i in range(2 * nw)]

    def call(env, o, a):
        c, m = o
        env.it.setattr(env.it.getattr(m, "weight"), "data", env.tensor(wv, shp))
        if bias:
            env.it.setattr(env.it.getattr(m, "bias"), "data", env.tensor(bv, (2,)))
        if plain:
            # a module without weight and bias in between counts as a call and is left alone
            env.call(c, env.call(env.it.getattr(env.it.import_module("torch.nn"), "Identity")))
        env.call(c, m)
        r = [env.it.getattr(m, "weight")]
        if bias:
            r.append(env.it.getattr(m, "bias"))
        return tuple(r)
    s = 2 ** bitwidth

    def quant(vs, norm):
        if norm:
            mn, mx = T.nary("min", vs), T.nary("max", vs)
            vs = [T.div(v - mn, mx - mn) for v in vs]
            if mode == "bipolar":
                vs = [v * 2 - 1 for v in vs]
        elif mode == "unipolar":
            vs = [T.clamp(v, ZERO, ONE) for v in vs]
        else:
            vs = [T.clamp(v, P(-1), ONE) for v in vs]
        if mode == "unipolar":
            return [T.clamp(T.pround(v * s), ZERO, P(s)) * Fraction(1, s) for v in vs]
        return [T.clamp(T.pround(v * Fraction(s, 2)), P(-Fraction(s, 2)), P(Fraction(s, 2))) * Fraction(2, s) for v in vs]

    def step(st, ins):
        later = T.gt(st["calls"][0], ZERO) if st and not plain else ONE

        def q(vs):
            if later.is_const():
                return quant(vs, not later.cval())
            return [T.ite(later, a, b) for a, b in zip(quant(vs, False), quant(vs, True))]
        r = [T_(shp, F, q(wv))]
        if bias:
            r.append(T_((2,), F, q(bv)))
        return r, {"calls": [st["calls"][0] + 1]} if st else {}
    return Scn("NN_SC_Weight_Clipper[%s,b%d,freq=%d,%s,bias=%s]" % (mode, bitwidth, freq, ("conv" if conv else "linear") + (",after a plain module" if plain else ""), bias), "kernel.NN_SC_Weight_Clipper", build, [], call=call,
               ref=Auto({"calls": [ZERO]} if freq <= 1 else {}, step, {"calls": (0, math.inf)}))
