"""What each property is decided on: obligations = unit x configuration x rule.

A *family* lists the configurations of one unit (quick and thorough).  A property applies one rule
to one or more families."""
import random
from fractions import Fraction
from itertools import combinations, product
from . import catalog as C
from . import catalog2 as D
from . import catalog3 as G
from . import catalog4 as H
from . import catalog5 as V
from . import effects as E
from . import hw as HW
from . import tensor as TT
from . import refs as RF
from .scen import analyse
from .compare import check

F, I8, I64, U8 = "float32", "int8", "int64", "uint8"
BOTH = ["bipolar", "unipolar"]
CASES = ["bipolar", "unipolar", "Bipolar", "UNIPOLAR"]
RN = ["Sobol", "race", "RC", "TC", "race10", "tc10"]
SH = [(1,), (3,), (2, 2), (1, 3), (2, 1, 2)]
half = Fraction(1, 2)


def grid(mk, base=None, **axes):
    """full product"""
    out = [dict(base or {})]
    for k, vs in axes.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return [(mk, o) for o in out]


def star(mk, base, **axes):
    """base configuration, then one axis varied at a time"""
    out = [(mk, dict(base))]
    for k, vs in axes.items():
        for v in vs:
            out.append((mk, dict(base, **{k: v})))
    return out


def cover(mk, base=None, ok=None, strength=2, **axes):
    """covering array: every legal combination of values of any `strength` axes occurs in some row"""
    names = list(axes)
    vals = [list(axes[n]) for n in names]
    k = len(names)
    strength = min(strength, k)
    base = dict(base or {})

    def kw(row):
        return dict(base, **{names[i]: vals[i][j] for i, j in row.items()})

    def legal(row):
        return ok is None or ok(kw(row))
    todo = {}
    for cols in combinations(range(k), strength):
        for js in product(*[range(len(vals[c])) for c in cols]):
            todo[tuple(zip(cols, js))] = None
    out = []
    while todo:
        seed = next(iter(todo))
        del todo[seed]
        row = fill(dict(seed), k, vals, todo, legal, strength)
        if row is None:
            continue
        for cols in combinations(range(k), strength):
            todo.pop(tuple((c, row[c]) for c in cols), None)
        out.append((mk, kw(row)))
    return out


def fill(row, k, vals, todo, legal, strength, tries=400):
    """complete a partial row, each axis with the value that covers most of what is still open; if the
    result is not legal, with the best of some legal completions"""
    seed = row
    for c in [c for c in range(k) if c not in row]:
        known = sorted(row)
        best = None
        for j in range(len(vals[c])):
            g = 0
            for o in combinations(known, strength - 1):
                g += tuple(sorted([(x, row[x]) for x in o] + [(c, j)])) in todo
            if best is None or g > best[0]:
                best = (g, j)
        row = {**row, c: best[1]}
    if legal(row):
        return row
    rng = random.Random(repr(sorted(seed.items())))
    best, found = None, 0
    free = [c for c in range(k) if c not in seed]
    for n in range(tries):
        # change part of the greedy row, ever more of it
        r = dict(row)
        for c in free:
            if rng.random() < 0.15 + 0.85 * n / tries:
                r[c] = rng.randrange(len(vals[c]))
        if legal(r):
            g = sum(tuple((c, r[c]) for c in cols) in todo for cols in combinations(range(k), strength)) if strength < 3 else 0
            if best is None or g > best[0]:
                best = (g, r)
            found += 1
            if found >= (4 if strength < 3 else 1):
                break
    return best and best[1]


def uniq(l):
    seen, out = set(), []
    for mk, kw in l:
        k = (mk.__name__, repr(sorted(kw.items())))
        if k not in seen:
            seen.add(k)
            out.append((mk, kw))
    return out


def dflt(*units):
    return [(H.default, {"unit": u}) for u in units]


# ------------------------------------------------------------------------------- families
FAM = {}


def fam(f):
    FAM[f.__name__[2:]] = f
    return f


@fam
def f_jkff(t):
    l = star(C.jkff, {}, stype=[F, I8, I64, U8], shape=SH) + dflt("JKFF")
    if t:
        l += grid(C.jkff, {}, stype=[F, I8, I64, U8], shape=SH)
    return l


@fam
def f_shiftreg(t):
    l = star(C.shiftreg, {"entry": 4}, stype=[F, I8, I64, U8], shape=SH, entry=[1, 2, 3, 5, 8], index=[1, 2, 3, -1]) + dflt("ShiftReg")
    l += grid(C.shiftreg, {"mask": True}, entry=[1, 4], index=[0, -1], stype=[F, I8])
    if t:
        l += grid(C.shiftreg, {}, stype=[F, I8, I64, U8], shape=SH, entry=[1, 2, 3, 4, 8, 16])
        l += grid(C.shiftreg, {"entry": 7}, index=range(-7, 7), stype=[F, I8])
        l += grid(C.shiftreg, {"mask": True}, entry=[1, 2, 4, 6], index=[0, -1], stype=[F, I8, I64])
        l += grid(C.shiftreg, {"mask": True}, entry=[4, 6], index=[1, 2, 3, -2], stype=[F, I8, I64], shape=[(1,), (2, 2)])
    return l


def _buf(f, t):
    l = star(f, {"depth": 4}, stype=[F, I8, I64], btype=[F, I64, I8], shape=SH)
    l += grid(f, {}, depth=[2, 3, 5, 7], stype=[F, I8], btype=[F, I64])
    l += grid(f, {"btype": I8, "stype": I8}, depth=[2, 3, 6])
    if t:
        l += grid(f, {}, depth=[2, 3, 4, 5, 6, 8, 10, 12], stype=[F, I8, I64], btype=[F, I64])
        l += grid(f, {"btype": I8}, depth=[2, 3, 4, 5, 6], stype=[F, I8, I64])
        l += grid(f, {}, depth=[2, 5], shape=SH, stype=[F, I8], btype=[F, I64])
        if f not in (C.signabs,):
            l += grid(f, {"stype": U8}, depth=[3, 4, 7], btype=[F, I64])
    return l


@fam
def f_signabs(t):
    return _buf(C.signabs, t) + dflt("FSUSignAbs")


@fam
def f_relu(t):
    return _buf(C.relu, t) + dflt("FSUReLU")


@fam
def f_bi2uni(t):
    return _buf(C.bi2uni, t) + dflt("Bi2Uni")


@fam
def f_uni2bi(t):
    return _buf(C.uni2bi, t) + dflt("Uni2Bi")


@fam
def f_ssync(t):
    l = star(C.ssync, {}, depth=[1, 2, 3, 4, 5], stype=[F, I8, I64], btype=[F, I64, I8], shape=SH) + dflt("SkewedSync")
    l += grid(C.ssync, {}, depth=[1, 3, 6], stype=[F, I8], btype=[I64])
    if t:
        l += grid(C.ssync, {}, depth=[1, 2, 3, 4, 5, 7, 8], stype=[F, I8, I64], btype=[F, I64])
        l += grid(C.ssync, {"btype": I8}, depth=[1, 2, 3, 6], stype=[F, I8, I64])
        l += grid(C.ssync, {}, depth=[1, 3], shape=SH, stype=[F, I8], btype=[F, I64])
    return l


@fam
def f_cordiv(t):
    l = star(C.cordiv, {}, entry=[1, 2, 4, 8], stype=[F, I8, I64], rng=["Sobol", "race", "RC", "tc10"], dimr=[1, 2, 3], shape=SH) + dflt("CORDIV_kernel")
    if t:
        l += grid(C.cordiv, {}, entry=[1, 2, 4, 8, 16], stype=[F, I8, I64], rng=RN)
        l += grid(C.cordiv, {}, dimr=[1, 2, 3, 4, 5, 6], shape=SH, entry=[2, 4])
    return l


@fam
def f_div(t):
    l = dflt("FSUDiv")
    for m in BOTH:
        l += star(C.div, {"mode": m}, stype=[F, I8], btype=[F, I64], entry_kn=[1, 2, 4], depth_sa=[2, 4], depth_ss=[1, 2, 3], rng=["race", "RC"], shape=[(2,), (1, 2)])
    l += grid(C.div, {"mode": "Bipolar"}, entry_kn=[2]) + grid(C.div, {"mode": "UNIPOLAR"}, entry_kn=[2])
    if t:
        l += grid(C.div, {}, mode=CASES, stype=[F, I8, I64], btype=[F, I64], entry_kn=[1, 2, 4, 8])
        l += grid(C.div, {}, mode=BOTH, depth_sa=[2, 3, 4, 5], depth_ss=[1, 2, 3, 4], rng=["Sobol", "race", "tc10"])
        l += grid(C.div, {}, mode=BOTH, shape=[(1,), (2,), (1, 2), (2, 2)], dimr=[1, 3])
    return l


@fam
def f_sqrt(t):
    l = dflt("FSUSqrt")
    for jk in (True, False):
        for em in (True, False):
            l += star(C.sqrt, {"jk": jk, "emit": em}, mode=BOTH, entry_sr=[1, 2, 4], entry_kn=[1, 2], stype=[F, I8], rng=["race", "tc10"], shape=[(1,), (2, 2)])
    l += grid(C.sqrt, {"stype": I8, "mode": "Unipolar"}, jk=[True, False], emit=[True, False])
    if t:
        for jk in (True, False):
            for em in (True, False):
                l += grid(C.sqrt, {"jk": jk, "emit": em}, mode=CASES, entry_sr=[1, 2, 4, 8], entry_kn=[1, 2, 4], stype=[F, I8])
                l += grid(C.sqrt, {"jk": jk, "emit": em}, mode=BOTH, rng=RN, shape=SH, dimr=[1, 4])
    return l


@fam
def f_hardsigmoid(t):
    l = grid(C.hardsigmoid, {}, mode=BOTH, depth=[3, 4, 8], stype=[F, I8], btype=[F]) + grid(C.hardsigmoid, {}, shape=SH) + dflt("FSUHardsigmoid")
    if t:
        l += grid(C.hardsigmoid, {}, mode=CASES, depth=[3, 4, 5, 6, 8, 12], stype=[F, I8, I64], btype=[F, I64])
        l += grid(C.hardsigmoid, {}, shape=SH, mode=BOTH, depth=[3, 6])
    return l


@fam
def f_fsuadd(t):
    l = dflt("FSUAdd")
    for m in BOTH:
        l += star(C.fsuadd, {"mode": m}, scale=[1, 2, Fraction(3, 2)], depth=[2, 3, 8, 20], stype=[I8, I64], shape=[(2, 2), (1, 3), (4, 1)])
        l += grid(C.fsuadd, {"mode": m, "shape": (2, 3, 2)}, dima=[0, 1, 2, -1], scale=[None, 2])
        l += grid(C.fsuadd, {"mode": m}, entry=[None, 5], rscale=[None, 2], rentry=[None, 6])
        l += grid(C.fsuadd, {"mode": m, "kind": "int", "hi": 3}, entry=[None, 7], scale=[None, 1, 4])
        l += grid(C.fsuadd, {"mode": m, "scale": 1}, depth=[2, 3, 4], shape=[(2, 1), (3, 2)])
    l += grid(C.fsuadd, {}, mode=["Bipolar", "Unipolar"], scale=[1])
    if t:
        for m in CASES:
            l += grid(C.fsuadd, {"mode": m}, scale=[None, 1, 2, 3, Fraction(3, 2)], depth=[2, 3, 4, 6, 8, 12], stype=[F, I8, I64])
            l += grid(C.fsuadd, {"mode": m}, dima=[0, 1, -1], shape=[(3, 2), (2, 2), (1, 3), (5, 2), (2, 5)], scale=[None, 1, 2])
            l += grid(C.fsuadd, {"mode": m}, dima=[0, 1, 2, -1, -2, -3], shape=[(2, 3, 2), (1, 2, 3)], scale=[None, 2])
            l += grid(C.fsuadd, {"mode": m}, entry=[None, 5, 9], rscale=[None, 1, 2, 4], rentry=[None, 3, 6], scale=[None, 2])
            l += grid(C.fsuadd, {"mode": m}, entry=[None, 7], kind=["int"], hi=[3, 7], btype=[F, I64], scale=[None, 1, 4])
            l += grid(C.fsuadd, {"mode": m}, depth=[2, 3, 6, 10, 20], scale=[1], shape=[(4, 1)])
    return l


@fam
def f_mul(t):
    l = dflt("FSUMul")
    for m in BOTH:
        l += star(C.mul_static, {"mode": m}, rng=RN, width=[1, 2, 4, 8], stype=[F, I8], shape=SH, dimr=[2, 4], rtype=[I64])
        l += star(C.mul_stream, {"mode": m}, rng=RN, width=[1, 3, 4], stype=[F, I8], shape=SH, dimr=[2, 4], rtype=[I64])
    l += grid(C.mul_static, {}, mode=["Bipolar", "UNIPOLAR"]) + grid(C.mul_stream, {}, mode=["Bipolar", "UNIPOLAR"])
    if t:
        for m in BOTH:
            l += grid(C.mul_static, {"mode": m}, rng=RN, width=[1, 2, 3, 4, 5], stype=[F, I8, I64])
            l += grid(C.mul_static, {"mode": m}, shape=SH, dimr=[1, 2, 3, 4, 5, 6, 7, 8], rtype=[F, I64])
            l += grid(C.mul_static, {"mode": m, "shape": (1,)}, width=[6, 8, 10, 12], rng=["Sobol", "race"])
            l += grid(C.mul_stream, {"mode": m}, rng=RN, width=[1, 2, 3], stype=[F, I8])
            l += grid(C.mul_stream, {"mode": m}, shape=SH, dimr=[1, 2, 3, 4, 5], rtype=[F, I64])
            l += grid(C.mul_stream, {"mode": m, "shape": (1,)}, width=[4, 5, 6, 8])
    return l


def _linear(pc, t):
    l = dflt("FSULinearPC" if pc else "FSULinear")
    for m in BOTH:
        l += star(C.linear, {"mode": m, "pc": pc}, rng=RN, width=[1, 2, 4], bias=[False], batch=[1, 3], nin=[1, 4], nout=[1, 3], dimr=[2, 5])
        l += grid(C.linear, {"mode": m, "pc": pc, "bias": False}, batch=[1, 3], nin=[1, 2], rng=["Sobol", "race"])
        if not pc:
            l += grid(C.linear, {"mode": m}, scale=[1, 2], depth=[4, 8], bias=[True, False])
            l += grid(C.linear, {"mode": m}, rscale=[1, 2], rentry=[None, 4], bias=[True, False])
    l += grid(C.linear, {"mode": "UniPolar", "pc": pc}) + grid(C.linear, {"mode": "Bipolar", "pc": pc})
    if t:
        for m in CASES:
            l += grid(C.linear, {"mode": m, "pc": pc}, rng=RN, width=[1, 2, 3, 4, 5], bias=[True, False])
            l += grid(C.linear, {"mode": m, "pc": pc}, batch=[1, 2, 3], nin=[1, 2, 4, 5], nout=[1, 2, 3], bias=[True, False])
            l += grid(C.linear, {"mode": m, "pc": pc}, width=[6, 8], nin=[2], nout=[1], batch=[1], dimr=[1, 3])
            if not pc:
                l += grid(C.linear, {"mode": m}, scale=[1, 2, 3], depth=[3, 4, 6, 8, 12], bias=[True, False])
                l += grid(C.linear, {"mode": m}, rscale=[1, 2, 3], rentry=[None, 3, 4, 7], bias=[True, False])
    return l


@fam
def f_linear(t):
    return _linear(False, t)


@fam
def f_linearpc(t):
    return _linear(True, t)


def _conv(pc, t):
    l = dflt("FSUConv2dPC" if pc else "FSUConv2d")
    small = {"hw": (2, 3), "pc": pc}
    for m in BOTH:
        b = dict(small, mode=m)
        l += star(C.conv, b, rng=RN, pad=[1, (1, 0), (0, 1)], bias=[False], stride=[2, (2, 1), (1, 2)], batch=[2], cin=[2], cout=[1, 3], k=[1, (2, 1), (1, 2)], width=[1, 3], dimr=[2])
        l += grid(C.conv, {"mode": m, "pc": pc, "hw": (3, 4)}, dil=[(1, 2), 2], pad=[0, 1])
        l += grid(C.conv, {"mode": m, "pc": pc, "hw": (2, 2)}, batch=[2], pad=[1], bias=[True, False])
        if not pc:
            l += grid(C.conv, {"mode": m, "hw": (2, 2)}, scale=[1, 2], depth=[4, 8], bias=[True, False])
    l += grid(C.conv, {"mode": "UniPolar", "pc": pc, "hw": (2, 2)}, pad=[0, 1])
    if t:
        for m in BOTH:
            l += grid(C.conv, {"mode": m, "pc": pc}, rng=RN, pad=[0, 1], bias=[True, False])
            l += grid(C.conv, {"mode": m, "pc": pc}, stride=[1, 2, (2, 1)], pad=[0, (1, 0), (0, 1)], dil=[1, (1, 2)], hw=[(3, 4)])
            l += grid(C.conv, {"mode": m, "pc": pc}, batch=[1, 2], cin=[1, 2], cout=[1, 2], k=[1, 2, (2, 1)], hw=[(2, 3)])
            l += grid(C.conv, {"mode": m, "pc": pc}, width=[1, 3, 5, 8], hw=[(2, 2)], cout=[1], pad=[0, 1], dimr=[1, 2])
            if not pc:
                l += grid(C.conv, {"mode": m, "hw": (2, 2)}, scale=[1, 2, 3], depth=[4, 8, 12], bias=[True, False])
    return l


@fam
def f_conv(t):
    return _conv(False, t)


@fam
def f_convpc(t):
    return _conv(True, t)


@fam
def f_rng(t):
    K = RN + ["SOBOL", "Race"]
    l = star(D.rng, {}, kind=K, width=[1, 2, 4, 6, 8], dim=[2, 3, 4, 5, 8], rtype=[F, I8, I64]) + dflt("RNG")
    l += grid(D.rng, {"width": 5}, kind=K) + grid(D.rng, {"width": 8}, kind=["race", "TC", "RC"])
    if t:
        l += grid(D.rng, {}, kind=K, width=[1, 2, 3, 4, 5, 6, 7], rtype=[F, I8, I64])
        l += grid(D.rng, {}, kind=["Sobol", "RC"], dim=[1, 2, 3, 4, 5, 6, 7, 8], width=[3, 8])
        l += grid(D.rng, {}, kind=["Sobol", "race", "tc10"], width=[9, 10, 12])
    return l


@fam
def f_lfsr(t):
    return grid(H.lfsr, {}, width=range(2, 8 if t else 7), rtype=[F, I64]) + (grid(H.lfsr, {}, width=[8]) if t else [])


@fam
def f_sysrand(t):
    return grid(H.sysrand, {}, width=range(1, 9 if t else 7), rtype=[F, I64])


@fam
def f_bingen(t):
    l = star(D.bingen, {}, mode=CASES, width=[1, 2, 4, 8], rtype=[F, I64], shape=[(1,), (2, 2), (2, 1, 2)]) + dflt("BinGen")
    l += grid(D.bingen, {}, mode=BOTH, width=[1, 8, 10], rtype=[I64])
    if t:
        l += grid(D.bingen, {}, mode=CASES, width=[1, 2, 3, 4, 5, 6, 7, 8, 10, 12], rtype=[F, I64])
        l += grid(D.bingen, {}, mode=BOTH, shape=[(1,), (2, 2), (2, 1, 2), ()])
    return l


@fam
def f_bsgen(t):
    l = star(D.bsgen, {}, length=[2, 8, 16], bshape=[(2, 2), (1,)], cshape=[(2,), (1,)], stype=[F, I8])
    l += grid(D.bsgen, {"length": 256, "cshape": ()}, bshape=[(1,), (3,)], btype=[F, I64])
    if t:
        l += grid(D.bsgen, {}, length=[2, 4, 8, 16, 32], bshape=[(2,), (2, 2), (1,)], cshape=[(1,), (2,)], stype=[F, I8])
    return l


@fam
def f_chain(t):
    l = star(D.chain, {}, mode=BOTH, kind=RN, width=[1, 3, 4], stype=[F, I8], dim=[2, 3])
    l += grid(D.chain, {"mode": "unipolar"}, kind=RN, width=[3])
    if t:
        l += grid(D.chain, {}, mode=CASES, kind=RN, width=[1, 2, 3, 5], stype=[F, I8])
        l += grid(D.chain, {}, mode=BOTH, width=[8], dim=[1, 2, 3, 7])
    return l


@fam
def f_rawscale(t):
    l = star(D.rawscale, {}, q=[1, 0.5, 0.9, 0.25], shape=[(1,), (2,), (2, 2)]) + dflt("RawScale")
    if t:
        l += grid(D.rawscale, {}, q=[1, 0.5, 0.9, 0.99, 0.25, 0.75], shape=[(1,), (2,), (3,), (5,), (2, 2), (2, 1, 3)])
    return l


@fam
def f_progerr(t):
    l = star(D.progerr, {}, mode=CASES, scale=[2, half, 3], shape=[(1,), (2, 2)], dtype=[I8]) + grid(D.progerr, {"mode": "unipolar"}, scale=[2, half], dtype=[F, I8]) + dflt("ProgError")
    if t:
        l += grid(D.progerr, {}, mode=CASES, scale=[1, 2, half, 3, 4], shape=[(1,), (2,), (2, 2), (3,)], dtype=[F, I8])
    return l


@fam
def f_report(t):
    l = grid(H.report, {}, mode=BOTH, value=[True], relative=[True]) + [(H.outlier, {})]
    if t:
        l += grid(H.report, {}, mode=BOTH, value=[False, True], relative=[False, True], shape=[(2,), (3,)]) + grid(H.outlier, {}, shape=[(1,), (2, 2)])
    return l


@fam
def f_stability(t):
    l = star(D.stability, {}, mode=BOTH, scale=[1, 2], thr=[0.25, 0.05, 0.5], shape=[(1,), (2, 2)]) + dflt("Stability")
    if t:
        l += grid(D.stability, {}, mode=CASES, scale=[1, 2, 3], thr=[0.25, 0.05, 0.1, 0.5], shape=[(1,), (2,), (2, 2), (3,)])
    return l


@fam
def f_correlation(t):
    l = grid(D.correlation, {}, shape=[(1,), (2,), (2, 2)], single=[False, True])
    if t:
        l += grid(D.correlation, {}, shape=[(3,), (1, 3), (2, 1, 2)], single=[False, True])
    return l


@fam
def f_shapes(t):
    K = ["int", "tuple", "default"]
    l = [(D.num2tuple, {"kind": k}) for k in ("int", "tuple")]
    for f in ("conv2d_output_shape", "convtransp2d_output_shape"):
        for a in ("int", "tuple"):
            for kk in K:
                for pad in ("int", "tuple", "pads", "default"):
                    l.append((D.shape_helper, {"fname": f, "kinds": {"h_w": a, "kernel_size": kk, "pad": pad, "stride": kk, "dilation": "default" if kk == "int" else kk, "out_pad": kk}}))
    for f in ("conv2d_get_padding", "convtransp2d_get_padding"):
        for a in ("int", "tuple"):
            for kk in K:
                l.append((D.shape_helper, {"fname": f, "kinds": {"h_w_in": a, "h_w_out": "tuple" if a == "int" else "int", "kernel_size": kk, "stride": kk, "dilation": kk, "out_pad": kk}}))
    l += grid(H.roundtrip, {}, transposed=[False, True], tuples=[False, True])
    return l


@fam
def f_hubact(t):
    l = grid(D.hub_hardsigmoid, {}, scale=[None, 1, 3, 2.5], shape=[(2,)]) + grid(D.hub_relu, {}, scale=[None, 1, 0.5, 4], shape=[(2,)])
    l += grid(D.hub_hardtanh, {}, shape=[(1,), (2, 2)]) + dflt("HUBReLU")
    if t:
        l += grid(D.hub_hardsigmoid, {}, scale=[None, 1, 2, 3, 4, 5, 2.5, 0.5], shape=SH) + grid(D.hub_relu, {}, scale=[None, 1, 0.5, 2, 4], shape=SH) + grid(D.hub_hardtanh, {}, shape=SH)
    return l


@fam
def f_fsuhardtanh(t):
    return grid(D.fsu_hardtanh, {}, shape=SH)


@fam
def f_hublinear(t):
    l = star(D.hublinear, {"width": 3}, rng_i=["race"], rng_w=["race", "tc"], cycle=[None, 1, 2, 4], rounding=["floor", "ceil"], qi=[0.5], qw=[0.5], B=[2], I=[1, 3], O=[2], bias=[False])
    l += grid(D.hublinear, {"width": 4}, cycle=[None, 1, 8], rounding=["round", "floor"]) + dflt("HUBLinear")
    if t:
        l += grid(D.hublinear, {}, rng_i=["Sobol"], rng_w=["Sobol", "race", "tc"], cycle=[None, 1, 8, 16], width=[2, 4])
        l += grid(D.hublinear, {"rng_i": "race"}, cycle=[None, 1, 8, 16], width=[2, 4])
        l += grid(D.hublinear, {}, rounding=["round", "floor", "ceil"], qi=[1, 0.5], qw=[1, 0.5])
        l += grid(D.hublinear, {"width": 3}, B=[1, 2], I=[1, 3], O=[1, 2], bias=[True, False])
    return l


@fam
def f_hubconv(t):
    l = star(D.hubconv, {"width": 2}, rng_i=["race"], rng_w=["tc"], cycle=[1, 2], rounding=["floor", "ceil"], pad=[1, (1, 0)], batch=[2], cin=[2], cout=[1], bias=[False], hw=[(2, 3)])
    l += grid(D.hubconv, {"width": 2, "hw": (2, 3)}, stride=[2, (2, 1)], dil=[(1, 2)], pad=[0, 1]) + dflt("HUBConv2d")
    if t:
        l += grid(D.hubconv, {}, rng_i=["Sobol"], rng_w=["Sobol", "tc"], cycle=[None, 4], rounding=["round", "floor", "ceil"], hw=[(2, 2)])
        l += grid(D.hubconv, {"rng_i": "race"}, cycle=[None, 4], rounding=["round", "floor", "ceil"], hw=[(2, 2)])
        l += grid(D.hubconv, {"width": 2}, stride=[1, 2, (2, 1)], pad=[0, 1, (1, 0)], dil=[1, (1, 2)], hw=[(2, 3)])
        l += grid(D.hubconv, {"width": 2}, batch=[1, 2], cin=[1, 2], cout=[1, 2], bias=[True, False])
    return l


@fam
def f_fxplinear(t):
    l = star(D.fxplinear, {}, wi=[3, 8], ww=[3, 8], rounding=["floor", "ceil"], bias=[False], qi=[0.5], qw=[0.5], B=[2], I=[1, 3], O=[1]) + dflt("FXPLinear")
    if t:
        l += grid(D.fxplinear, {}, wi=[3, 4, 8, 12], ww=[3, 4, 8, 12], rounding=["round", "floor", "ceil"], bias=[True, False])
        l += grid(D.fxplinear, {}, qi=[1, 0.5], qw=[1, 0.5], B=[1, 2], I=[1, 2, 3], O=[1, 2])
    return l


@fam
def f_fxpconv(t):
    l = star(D.fxpconv, {}, rounding=["floor", "ceil"], wi=[3, 5], ww=[3, 5], stride=[2, (2, 1)], pad=[1, (0, 1)], dil=[(1, 2)], batch=[2], cin=[2], cout=[1], bias=[False]) + dflt("FXPConv2d")
    if t:
        l += grid(D.fxpconv, {}, rounding=["round", "floor", "ceil"], wi=[3, 5], ww=[3, 5])
        l += grid(D.fxpconv, {}, stride=[1, 2], pad=[0, 1, (0, 1)], dil=[1, (1, 2)], batch=[1, 2], cin=[1, 2])
    return l


@fam
def f_tlutlinear(t):
    l = dflt("TLUTLinear")
    for x in ("i", "w"):
        l += star(D.tlutlinear, {"temporal": x}, widtht=[1, 4], fi=["bfloat16", "float16", "float32"], fw=["bfloat16", "float16", "float32"], cycle=[1, 2], rounding=["floor", "ceil"], bias=[False], wi=[4, 8], ww=[4, 8], I=[1, 3], O=[2], B=[2], qi=[0.5], qw=[0.5])
    l += grid(D.tlutlinear, {}, temporal=["input", "weight"])
    if t:
        for x in ("i", "w", "input", "weight"):
            l += grid(D.tlutlinear, {"temporal": x}, widtht=[1, 2, 4], fi=["fxp", "bfloat16", "float16", "float32"], fw=["fxp", "bfloat16", "float16", "float32"])
            l += grid(D.tlutlinear, {"temporal": x}, cycle=[None, 1, 2, 4], rounding=["round", "floor", "ceil"], bias=[True, False])
            l += grid(D.tlutlinear, {"temporal": x}, wi=[4, 6, 8], ww=[4, 6, 8], widtht=[2, 3])
    return l


@fam
def f_tlutconv(t):
    l = dflt("TLUTConv2d")
    for x in ("i", "w"):
        l += star(D.tlutconv, {"temporal": x}, pad=[1, (1, 0)], fi=["bfloat16", "float32"], fw=["bfloat16"], cycle=[1], rounding=["floor"], batch=[2], cin=[2], cout=[1], bias=[False], hw=[(2, 3)])
        l += grid(D.tlutconv, {"temporal": x, "hw": (3, 3), "cout": 1}, stride=[2, (1, 2)], dil=[1, (1, 2)])
    if t:
        for x in ("i", "w", "input", "weight"):
            l += grid(D.tlutconv, {"temporal": x}, pad=[0, 1], stride=[1, 2], fi=["fxp"], fw=["fxp", "bfloat16"])
            l += grid(D.tlutconv, {"temporal": x}, pad=[0], stride=[1, 2], fi=["float32"], fw=["fxp", "bfloat16"])
            l += grid(D.tlutconv, {"temporal": x, "pad": 1}, stride=[1, 2], fi=["float32"], fw=["fxp"])
    return l


@fam
def f_mgu(t):
    l = star(G.mgu, {}, width=[3], depth=[8], rng=["RC"], bias=[False], batch=[2], nin=[2], ismul=[3], dimr=[2]) + dflt("FSUMGUCell") + grid(G.mgu, {}, hid=[2])
    if t:
        l += grid(G.mgu, {}, width=[2, 3], depth=[5, 8], rng=["Sobol", "RC"], bias=[True, False])
        l += grid(G.mgu, {}, batch=[1, 2], nin=[1, 2], hid=[1, 2], dimr=[1, 2])
        l += grid(G.mgu, {}, ismul=[2, 3])
    return l


@fam
def f_hubmgu(t):
    l = star(G.hubmgu, {}, width=[1, 3], rng=["race"], hx=[False], batch=[2], nin=[1], hid=[1])
    if t:
        l += grid(G.hubmgu, {}, width=[1, 2, 3], rng=["Sobol", "race"], hx=[True, False], batch=[1, 2], nin=[1, 2], hid=[1, 2])
    return l


@fam
def f_hardmgu(t):
    l = star(G.hardmgu, {}, batch=[2], nin=[2], hid=[2], bias=[False], hx=[False])
    if t:
        l += grid(G.hardmgu, {}, batch=[1, 2], nin=[1, 2], hid=[1, 2], bias=[True, False], hx=[True, False])
    return l


@fam
def f_clip(t):
    l = star(G.clip_scn, {}, mode=BOTH, bitwidth=[1, 8], freq=[2, 3], bias=[False], conv=[True], nw=[1, 3]) + grid(G.clip_scn, {"mode": "unipolar"}, bitwidth=[2, 8], freq=[1, 2]) + grid(G.clip_scn, {"plain": True}, mode=BOTH, freq=[1, 2]) + grid(G.clip_scn, {}, bitwidth=[12, 16], mode=BOTH)
    if t:
        l += grid(G.clip_scn, {}, mode=BOTH, bitwidth=[1, 3, 8], freq=[1, 2, 3], bias=[True, False], conv=[True, False])
        l += grid(G.clip_scn, {}, mode=BOTH, nw=[1, 3])
    return l


@fam
def f_round(t):
    return grid(D.round_, {}, none=[False, True])


@fam
def f_trunc(t):
    return [(H.truncnorm, {}), (H.truncnorm, {"defaults": True}), (H.truncnorm, {"shape": (1,)})] + grid(H.truncnorm, {}, mean=[Fraction(1, 2), -1, Fraction(1, 50), Fraction(-1, 100), 100], std=[Fraction(1, 100), 1])


# ------------------------------------------------------------------------------- covering arrays
# unit, base, legality, axes of the quick array (all pairs), extra values of the thorough array (all triples)
TYS, BT = [F, I8, I64], [F, I64]
TCS = ("race", "tc", "race10", "tc10")


def nonscaled_ok(d):
    return not (d["mode"].lower() == "bipolar" and d.get("scale") is not None and d["rng"].lower() in TCS)


def conv_ok(d):
    h, w = d.get("hw", (3, 3))
    oh, ow, _ = C.conv_geom(1, (h, w), C.two(d.get("k", 2)), C.two(d.get("stride", 1)), C.two(d.get("pad", 0)), C.two(d.get("dil", 1)))
    kh, kw = C.two(d.get("k", 2))
    return oh >= 1 and ow >= 1 and nonscaled_ok(dict({"mode": "unipolar", "rng": ""}, **d)) and d.get("batch", 1) * oh * ow * kh * kw * d.get("cin", 1) * d.get("cout", 2) <= d.get("cap", 200)


def hub_ok(d):
    return not (d["rng_i"].lower() in TCS and d["rng_w"].lower() in TCS) and (d.get("batch") is None or conv_ok(dict(d, cap=40)))


def geo(f, cap):
    return lambda d: conv_ok(dict(d, cap=cap))


COV = {
    "jkff": [(C.jkff, {}, None, dict(stype=TYS + [U8], shape=SH), {})],
    "shiftreg": [(C.shiftreg, {}, lambda d: -d["entry"] <= d["index"] < d["entry"], dict(stype=TYS, shape=SH, entry=[1, 2, 3, 4, 5, 8], index=[0, 1, 2, -1], mask=[False]), dict(stype=[U8], entry=[6, 16], index=[3, 4, -2, 7])),
                 (C.shiftreg, {"mask": True}, lambda d: -d["entry"] <= d["index"] < d["entry"], dict(stype=TYS, shape=[(1,), (2,), (2, 2)], entry=[1, 2, 3, 4], index=[0, 1, 2, -1]), dict(entry=[6], index=[3, -2]))],
    "signabs": [(C.signabs, {}, None, dict(depth=[1, 2, 3, 4, 6], stype=TYS, btype=BT, shape=SH), dict(depth=[5, 7, 8, 9, 10, 12]))],
    "relu": [(C.relu, {}, None, dict(depth=[1, 2, 3, 4, 6], stype=TYS, btype=BT, shape=SH), dict(depth=[5, 7, 8, 9, 10, 12]))],
    "bi2uni": [(C.bi2uni, {}, None, dict(depth=[2, 3, 4, 6], stype=TYS, btype=BT, shape=SH), dict(depth=[5, 7, 8, 9, 10, 12]))],
    "uni2bi": [(C.uni2bi, {}, None, dict(depth=[2, 3, 4, 6], stype=TYS, btype=BT, shape=SH), dict(depth=[5, 7, 8, 9, 10, 12]))],
    "ssync": [(C.ssync, {}, None, dict(depth=[1, 2, 3, 4], stype=TYS, btype=BT, shape=SH), dict(depth=[5, 6, 7, 8]))],
    "cordiv": [(C.cordiv, {}, None, dict(entry=[1, 2, 4, 8], stype=TYS, rng=RN, dimr=[1, 2, 3, 4], shape=SH), dict(entry=[16], dimr=[5, 6]))],
    "div": [(C.div, {}, None, dict(mode=CASES, depth_sa=[2, 3, 4], depth_ss=[1, 2, 3], entry_kn=[1, 2, 4], rng=["Sobol", "race", "tc10"], dimr=[1, 2, 4], stype=[F, I8], btype=BT, shape=[(1,), (2,), (1, 2)]), dict(depth_sa=[5], depth_ss=[4], entry_kn=[8], rng=["RC"], stype=[I64]))],
    "sqrt": [(C.sqrt, {}, None, dict(mode=CASES, jk=[True, False], emit=[True, False], entry_kn=[1, 2, 4], entry_sr=[1, 2, 4], rng=["Sobol", "race", "tc10", "RC"], dimr=[1, 4], stype=[F, I8], btype=BT, shape=[(1,), (2,), (2, 2)]), dict(entry_kn=[8], entry_sr=[8], stype=[I64], dimr=[2, 3], shape=[(2, 1, 2)]))],
    "hardsigmoid": [(C.hardsigmoid, {}, None, dict(mode=CASES, depth=[3, 4, 6], stype=TYS, btype=BT, shape=SH), dict(depth=[5, 8, 10, 12]))],
    "fsuadd": [(C.fsuadd, {}, lambda d: -len(d["shape"]) <= d["dima"] < len(d["shape"]), dict(mode=CASES, scale=[None, 1, 2], dima=[0, 1, -1], depth=[3, 4, 6, 10], entry=[None, 5], shape=[(3, 2), (2, 3, 2), (1, 3), (4, 1)], stype=TYS, rscale=[None, 2], rentry=[None, 6]),
                dict(scale=[3, Fraction(3, 2)], dima=[2, -2], entry=[7], depth=[5, 8, 12], shape=[(2, 2), (5, 1)], rscale=[1, 4], rentry=[3])),
               (C.fsuadd, {"kind": "int", "btype": I64}, lambda d: d["mode"].lower() == "unipolar" or d["scale"] is None and d["entry"] is None, dict(mode=CASES, scale=[None, 1, 2], entry=[None, 7], hi=[3], stype=TYS, shape=[(3, 2), (1, 3)]), dict(scale=[4], hi=[7]))],
    "mul": [(C.mul_static, {}, None, dict(mode=CASES, width=[1, 2, 3, 4], rng=RN, dimr=[1, 2, 4], shape=SH, stype=TYS, rtype=BT), dict(width=[5, 6, 8], dimr=[3, 5, 8])),
            (C.mul_stream, {}, None, dict(mode=CASES, width=[1, 2, 3], rng=RN, dimr=[1, 2, 4], shape=SH, stype=TYS, rtype=BT), dict(width=[4, 5], dimr=[3, 5]))],
    "linear": [(C.linear, {}, nonscaled_ok, dict(mode=CASES, width=[1, 2, 3], rng=RN, dimr=[1, 2], batch=[1, 2, 3], nin=[1, 2, 3], nout=[1, 2], bias=[True, False], scale=[None, 1, 2], depth=[4, 6, 10]), dict(width=[4], dimr=[5], nin=[4], nout=[3], scale=[3], depth=[3, 12])),
               (C.linear, {"rng": "Sobol"}, None, dict(mode=BOTH, bias=[True, False], batch=[1, 2], nin=[1, 3], rscale=[None, 1, 2], rentry=[None, 4], scale=[None, 1]), dict(rscale=[3], rentry=[3, 7], rng=["RC"]))],
    "linearpc": [(C.linear, {"pc": True}, None, dict(mode=CASES, width=[1, 2, 3], rng=RN, dimr=[1, 2], batch=[1, 2, 3], nin=[1, 2, 3], nout=[1, 2], bias=[True, False]), dict(width=[4, 5], dimr=[5], nin=[4], nout=[3]))],
    "conv": [(C.conv, {}, geo(C.conv, 120), dict(mode=CASES, width=[1, 2, 3], rng=RN, dimr=[1, 2], batch=[1, 2], cin=[1, 2], cout=[1, 2], hw=[(2, 3), (3, 3), (2, 2)], k=[1, 2, (2, 1), (1, 2)], stride=[1, 2, (2, 1), (1, 2)], pad=[0, 1, (1, 0), (0, 1)], dil=[1, 2, (1, 2)], bias=[True, False], scale=[None, 1]), dict(hw=[(3, 4)], k=[(2, 3)], scale=[2], depth=[4, 6, 10], pad=[(2, 1)]))],
    "convpc": [(C.conv, {"pc": True}, geo(C.conv, 120), dict(mode=CASES, width=[1, 2, 3], rng=RN, dimr=[1, 2], batch=[1, 2], cin=[1, 2], cout=[1, 2], hw=[(2, 3), (3, 3), (2, 2)], k=[1, 2, (2, 1), (1, 2)], stride=[1, 2, (2, 1), (1, 2)], pad=[0, 1, (1, 0), (0, 1)], dil=[1, 2, (1, 2)], bias=[True, False]), dict(hw=[(3, 4)], k=[(2, 3)], pad=[(2, 1)]))],
    "rng": [(D.rng, {}, None, dict(kind=RN + ["SOBOL", "Race", "TC10"], width=[1, 2, 3, 5], dim=[1, 2, 3, 5, 8], rtype=TYS), dict(width=[4, 6, 7], dim=[4, 6, 7, 9, 10]))],
    "bingen": [(D.bingen, {}, None, dict(mode=CASES, width=[1, 2, 3, 4, 5, 8, 10], rtype=[F, I64], shape=[(1,), (3,), (2, 2), (2, 1, 2), ()]), dict(width=[6, 7, 12]))],
    "bsgen": [(D.bsgen, {}, lambda d: d["bshape"] != (3,) or d["cshape"] in ((1,), ()), dict(length=[2, 4, 8, 16], bshape=[(2,), (2, 2), (1,), (3,)], cshape=[(1,), (2,), ()], stype=TYS, btype=BT), dict(length=[32, 64]))],
    "chain": [(D.chain, {}, None, dict(mode=CASES, width=[1, 2, 3], kind=RN, dim=[1, 2, 3], stype=TYS, rtype=BT, shape=[(1,), (2,), (2, 2)]), dict(width=[4, 5], dim=[4, 5]))],
    "rawscale": [(D.rawscale, {}, None, dict(q=[1, 0.5, 0.9, 0.25], shape=[(1,), (2,), (2, 2), (3,)]), dict(q=[0.75, 0.99], shape=[(5,), (2, 1, 3)]))],
    "progerr": [(D.progerr, {}, None, dict(mode=CASES, scale=[1, 2, half, 3], shape=[(1,), (2,), (2, 2)], dtype=[F, I8]), dict(scale=[4], shape=[(3,)]))],
    "stability": [(D.stability, {}, None, dict(mode=CASES, scale=[1, 2], thr=[0.25, 0.05, 0.5], shape=[(1,), (2,), (2, 2)]), dict(scale=[3], thr=[0.1]))],
    "hublinear": [(D.hublinear, {}, hub_ok, dict(width=[2, 3, 4], rng_i=["Sobol", "race", "tc10"], rng_w=["Sobol", "race", "tc10"], cycle=[None, 1, 3, 6], rounding=["round", "floor", "ceil"], qi=[1, 0.5], qw=[1, 0.5], B=[1, 2], I=[1, 2], O=[1, 2], bias=[True, False]), dict(cycle=[2, 5, 7, 100], rng_i=["RC"], rng_w=["RC"]))],
    "hubconv": [(D.hubconv, {}, hub_ok, dict(width=[2, 3], rng_i=["Sobol", "race"], rng_w=["Sobol", "tc10"], cycle=[None, 1, 3], rounding=["round", "floor", "ceil"], batch=[1, 2], cin=[1, 2], cout=[1, 2], hw=[(2, 2), (2, 3)], k=[1, 2, (2, 1)], stride=[1, 2, (2, 1)], pad=[0, 1, (1, 0)], dil=[1, (1, 2)], bias=[True, False]), dict(width=[4], cycle=[2, 5]))],
    "fxplinear": [(D.fxplinear, {}, None, dict(wi=[3, 4, 8], ww=[3, 4, 8], rounding=["round", "floor", "ceil"], qi=[1, 0.5], qw=[1, 0.5], B=[1, 2], I=[1, 2], O=[1, 2], bias=[True, False]), dict(wi=[12], ww=[12], I=[3]))],
    "fxpconv": [(D.fxpconv, {}, geo(0, 60), dict(wi=[3, 5], ww=[3, 5], rounding=["round", "floor", "ceil"], batch=[1, 2], cin=[1, 2], cout=[1, 2], hw=[(2, 2), (2, 3)], k=[1, 2, (2, 1)], stride=[1, 2, (2, 1)], pad=[0, 1, (0, 1)], dil=[1, (1, 2)], bias=[True, False]), dict(wi=[8], hw=[(3, 3)]))],
    "tlutlinear": [(D.tlutlinear, {}, None, dict(temporal=["i", "w", "input", "weight"], widtht=[1, 2, 3, 4], fi=["fxp", "bfloat16", "float16", "float32"], fw=["fxp", "bfloat16", "float16", "float32"], wi=[4, 5, 8], ww=[4, 5, 8], cycle=[None, 1, 3], rounding=["round", "floor", "ceil"], B=[1, 2], I=[1, 2], O=[1, 2], bias=[True, False]), dict(cycle=[2, 6], wi=[6], qi=[1, 0.5], qw=[1, 0.5]))],
    "tlutconv": [(D.tlutconv, {}, geo(0, 24), dict(temporal=["i", "w"], widtht=[2, 3], fi=["fxp", "bfloat16", "float32"], fw=["fxp", "bfloat16", "float32"], wi=[4, 5], ww=[4, 5], cycle=[None, 1, 3], rounding=["round", "floor", "ceil"], batch=[1, 2], cin=[1, 2], cout=[1, 2], hw=[(2, 2), (2, 3)], k=[1, 2, (2, 1)], stride=[1, 2, (2, 1)], pad=[0, 1, (1, 0)], dil=[1, (1, 2)], bias=[True, False]), {})],
    "mgu": [(G.mgu, {}, None, dict(width=[2, 3], depth=[5, 8], ismul=[2, 3], rng=["Sobol", "RC"], dimr=[1, 2], bias=[True, False]), dict(batch=[1, 2], nin=[1, 2]))],
    "hubmgu": [(G.hubmgu, {}, None, dict(width=[1, 2], rng=["Sobol", "RC"], hx=[True, False], batch=[1, 2], nin=[1, 2], hid=[1, 2]), dict(width=[3]))],
    "hardmgu": [(G.hardmgu, {}, None, dict(batch=[1, 2], nin=[1, 2], hid=[1, 2], bias=[True, False], hx=[True, False]), {})],
    "clip": [(G.clip_scn, {}, None, dict(mode=BOTH, bitwidth=[1, 3, 8], freq=[1, 2, 3], nw=[1, 2, 3], bias=[True, False], conv=[True, False]), dict(bitwidth=[2, 4]))],
}


BIG = [(9,), (17,), (70,), (2, 1, 2, 2), (3, 3, 3)]
HUGE = [(5, 60), (260,)]
d3 = {"depth": 3}
ELEM = {"jkff": (C.jkff, {}), "shiftreg": (C.shiftreg, {}), "signabs": (C.signabs, d3), "relu": (C.relu, d3), "bi2uni": (C.bi2uni, d3), "uni2bi": (C.uni2bi, d3), "ssync": (C.ssync, {}),
        "cordiv": (C.cordiv, {}), "div": (C.div, {}), "sqrt": (C.sqrt, {}), "hardsigmoid": (C.hardsigmoid, {}), "mul": (C.mul_static, {}), "bingen": (D.bingen, {}), "rawscale": (D.rawscale, {}),
        "progerr": (D.progerr, {}), "stability": (D.stability, {}), "correlation": (D.correlation, {}), "fsuhardtanh": (D.fsu_hardtanh, {}), "hubact": (D.hub_hardsigmoid, {})}
SIGNED = ["float64", "float16", "bfloat16", "int32", "int16"]
TYPED = SIGNED + [U8]   # streams and tables hold no negative value, so they may be unsigned; buffers may not
ST = {"jkff", "shiftreg", "signabs", "relu", "bi2uni", "uni2bi", "ssync", "cordiv", "div", "sqrt", "hardsigmoid", "mul"}
BTY = {"signabs", "relu", "bi2uni", "uni2bi", "ssync", "div", "sqrt", "hardsigmoid"}
TWO = {"jkff": C.jkff, "ssync": C.ssync, "cordiv": C.cordiv, "mul": C.mul_stream, "correlation": D.correlation}
# other units and configurations the variants start from
BASE = {
    "shiftreg": [(C.shiftreg, {"mask": True})],
    "hubact": [(D.hub_relu, {}), (D.hub_hardtanh, {})],
    "mul": [(C.mul_stream, {})],
    "div": [(C.div, {"mode": "unipolar"})],
    "sqrt": [(C.sqrt, {"jk": j, "emit": e}) for j in (True, False) for e in (True, False)],
    "fsuadd": [(C.fsuadd, {"mode": m}) for m in BOTH],
    "linear": [(C.linear, {"mode": m}) for m in BOTH], "linearpc": [(C.linear, {"mode": m, "pc": True}) for m in BOTH],
    "conv": [(C.conv, {"mode": m, "pad": 1, "hw": (2, 2)}) for m in BOTH], "convpc": [(C.conv, {"mode": m, "pc": True, "pad": 1, "hw": (2, 2)}) for m in BOTH],
    "bsgen": [(D.bsgen, {})], "chain": [(D.chain, {})],
    "hublinear": [(D.hublinear, {"width": 3})], "fxplinear": [(D.fxplinear, {})], "tlutlinear": [(D.tlutlinear, {}), (D.tlutlinear, {"temporal": "w"})],
    "hubconv": [(D.hubconv, {"width": 2})], "fxpconv": [(D.fxpconv, {})], "tlutconv": [(D.tlutconv, {}), (D.tlutconv, {"temporal": "w"})],
    "mgu": [(G.mgu, {})], "hubmgu": [(G.hubmgu, {"width": 2})], "hardmgu": [(G.hardmgu, {})],
}
SIZES = {
    "B": [{"B": 2}, {"B": 1}, {"B": 3}],
    "batch": [{"batch": 2}, {"batch": 1}, {"batch": 3}],
    "img": [{"batch": 2, "hw": (2, 2)}, {"batch": 1, "hw": (2, 3)}, {"batch": 1, "hw": (2, 2)}],
    "shape": [{"shape": (2,)}, {"shape": (3,)}, {"shape": (1, 2)}],
    "cshape": [{"cshape": (1,)}, {"cshape": (2,)}, {"cshape": ()}],
    "hx": [{"hx": False}, {"hx": True}, {"hx": False}],
}
MIXED = {"hublinear": "B", "fxplinear": "B", "tlutlinear": "B", "hubconv": "img", "fxpconv": "img", "tlutconv": "img", "rawscale": "shape", "hubact": "shape", "fsuhardtanh": "shape", "bsgen": "cshape", "hardmgu": "batch hx"}


def variants(n):
    """the same units in evaluation mode, on non-contiguous inputs, with one tensor for both operands, and (stateless units) on inputs of changing size"""
    l = []
    for mk, kw in ([ELEM[n]] if n in ELEM else []) + BASE.get(n, []):
        l.append((V.as_("eval", mk), kw))
        if n not in ("bingen",):
            l.append((V.as_("strided", mk), dict(kw, shape=(2, 2)) if n in ELEM else kw))
        for k in MIXED.get(n, "").split():
            l.append((V.mixed_(mk, *SIZES[k]), {x: v for x, v in kw.items() if x not in SIZES[k][0]}))
    if n == "hubmgu":
        l.append((G.hubmgu_seq, {"seq": [{"batch": 2}, {"batch": 1}, {"batch": 3, "hx": False}, {"batch": 1}], "nin": 1, "hid": 1}))
    if n in TWO:
        l.append((V.as_("alias", TWO[n]), {}))
    return l


def wide(n, t):
    """larger operands than those of the grids"""
    l = []
    if n in ELEM:
        mk, kw = ELEM[n]
        slow = n in ("div", "stability", "correlation", "progerr")
        for s in BIG + ([] if slow and t < 2 else HUGE) + ([(1030,)] if t > 1 and not slow and n != "sqrt" else []):
            if n == "correlation" and len(s) > 1 and 1 < TT.numel(s[1:]) > 10:
                continue
            l.append((mk, dict(kw, shape=s)))
        l += [(mk, dict(kw, stype=y)) for y in TYPED if n in ST and not (n == "div" and y == U8)] + [(mk, dict(kw, btype=y)) for y in SIGNED if n in BTY]
    if n == "mul":
        l += grid(C.mul_stream, {}, stype=TYPED) + grid(C.mul_stream, {}, rtype=TYPED) + grid(C.mul_static, {}, rtype=TYPED)
    if n in ("bingen", "rng"):
        l += grid(D.bingen if n == "bingen" else D.rng, {}, rtype=TYPED)
    if n == "chain":
        l += grid(D.chain, {}, stype=TYPED) + grid(D.chain, {}, rtype=TYPED)
    if n == "bsgen":
        l += grid(D.bsgen, {}, stype=TYPED) + grid(D.bsgen, {}, btype=SIGNED) + grid(D.bsgen, {}, bshape=[(9,), (3, 3), (70,)])
    if n == "fsuadd":
        l += grid(C.fsuadd, {}, stype=TYPED, mode=BOTH) + grid(C.fsuadd, {}, btype=SIGNED, mode=BOTH)
    if n == "mul":
        l += [(C.mul_stream, {"shape": s}) for s in BIG + HUGE]
    if n == "hubact":
        l += [(f, {"shape": s}) for s in BIG for f in (D.hub_relu, D.hub_hardtanh)]
    if n == "fsuadd":
        for m in BOTH:
            l += grid(C.fsuadd, {"mode": m}, shape=[(9, 2), (17, 1), (2, 9), (3, 3, 3), (2, 2, 1, 2), (70, 2), (3, 70), (130, 1)])
            l += grid(C.fsuadd, {"mode": m, "shape": (2, 3, 1, 2)}, dima=[1, 2, 3, -1, -2])
    if n in ("linear", "linearpc"):
        for m in BOTH:
            l += [(C.linear, dict(mode=m, pc=n == "linearpc", width=2, batch=b, nin=i, nout=o)) for b, i, o in ((1, 9, 1), (1, 17, 1), (1, 33, 2), (1, 2, 9), (9, 2, 2), (1, 9, 9), (5, 5, 5), (1, 70, 1))]
    if n in ("conv", "convpc"):
        for m in BOTH:
            l += [(C.conv, dict(mode=m, pc=n == "convpc", width=2, **k)) for k in (dict(cin=3, cout=1, hw=(2, 2)), dict(batch=3, cout=1, hw=(2, 2)), dict(cout=5, hw=(2, 2)), dict(cout=1, hw=(4, 4), k=3), dict(cout=1, hw=(5, 3)), dict(cout=1, hw=(2, 9), k=1),
                                                                            dict(cout=1, hw=(2, 2), k=1, pad=2), dict(cout=1, hw=(4, 4), k=2, stride=3), dict(cout=1, hw=(4, 4), k=2, dil=3), dict(cout=1, cin=9, hw=(1, 1), k=1), dict(cout=1, hw=(3, 3), k=3, pad=1))]
    if n in ("hublinear", "fxplinear", "tlutlinear"):
        mk = {"hublinear": D.hublinear, "fxplinear": D.fxplinear, "tlutlinear": D.tlutlinear}[n]
        e = {"width": 3} if n == "hublinear" else {}
        l += [(mk, dict(e, B=b, I=i, O=o)) for b, i, o in ((1, 9, 1), (5, 1, 1), (1, 1, 9), (1, 17, 2), (3, 4, 3), (1, 33, 1))]
    if n in ("hubconv", "fxpconv", "tlutconv"):
        mk = {"hubconv": D.hubconv, "fxpconv": D.fxpconv, "tlutconv": D.tlutconv}[n]
        e = {"width": 2} if n == "hubconv" else {}
        l += [(mk, dict(e, **k)) for k in (dict(cin=3, cout=1, hw=(2, 2)), dict(batch=3, cout=1, hw=(2, 2)), dict(cout=4, hw=(2, 2)), dict(cout=1, hw=(4, 4), k=3), dict(cout=1, hw=(5, 3)), dict(cout=1, hw=(2, 2), k=1, pad=2), dict(cout=1, hw=(4, 4), k=2, stride=3), dict(cout=1, hw=(4, 4), k=2, dil=3))]
    if n in ("mgu", "hubmgu", "hardmgu"):
        mk = {"mgu": G.mgu, "hubmgu": G.hubmgu, "hardmgu": G.hardmgu}[n]
        l += [(mk, k) for k in (dict(nin=5), dict(nin=9), dict(batch=3), dict(hid=3), dict(nin=2, hid=2))]
    return l


TAB = ["Sobol", "RC", "race", "tc10"]


def large(n, t):
    """tables, counters and registers beyond the range of every narrow type: what only shows above 127, 255 or 2047"""
    one = {"shape": (1,)}
    l = []
    if n == "bsgen":
        l += grid(D.bsgen, {"bshape": (1,)}, length=[128, 256, 512, 1024, 4096]) + grid(D.bsgen, {"length": 512, "bshape": (2,), "cshape": (2,)}, stype=TYS, btype=["int16", "int32", I64])
    if n == "chain":
        l += grid(D.chain, one, width=[8, 9, 10], kind=TAB, mode=BOTH) + grid(D.chain, dict(one, width=8), stype=TYS, rtype=["int16", "int32", I64])
    if n == "rng":
        l += grid(D.rng, {}, dim=[11, 13, 16, 17, 21, 32, 33, 40, 50, 64]) + grid(D.rng, {}, width=[8, 9, 10], kind=TAB, rtype=["int16", I64]) + grid(D.rng, {"width": 9}, dim=[12, 20, 37])
    if n == "bingen":
        l += grid(D.bingen, {}, width=[11, 14, 16, 20], mode=BOTH, rtype=[F, I64, "int32"])
    if n == "mul":
        l += grid(C.mul_static, one, width=[8, 9, 10], mode=BOTH, stype=[F, I8]) + grid(C.mul_static, dict(one, width=9), rng=TAB, rtype=["int16", I64])
        l += grid(C.mul_stream, one, width=[7, 8, 9], mode=BOTH, stype=[F, I8, "int16"]) + grid(C.mul_stream, dict(one, width=8), rng=TAB, rtype=["int16", I64])
    if n == "shiftreg":
        l += grid(C.shiftreg, one, entry=[128, 130, 260], stype=[F, I8, U8, "int16"], index=[0, 127]) + grid(C.shiftreg, dict(one, entry=130), mask=[True], stype=[F, I8], index=[0, 129, -130])
    if n in ("signabs", "relu", "bi2uni", "uni2bi"):
        l += grid({"signabs": C.signabs, "relu": C.relu, "bi2uni": C.bi2uni, "uni2bi": C.uni2bi}[n], {}, depth=[8, 9, 10, 12, 16, 18], stype=[F, I8, U8], btype=[F, "int32"])
    if n == "ssync":
        l += grid(C.ssync, {}, depth=[7, 8, 9, 12, 16], stype=[F, I8, "int16"], btype=[F, "int32"])
        l += [(V.mixed_(C.ssync, *({"shape": s} for s in ss)), k) for ss in (((2, 3), (3, 2), (6,), (1, 6)), ((4,), (2, 2), (1,)), ((2,), (3,))) for k in ({}, {"depth": 1}, {"stype": I8})]
    if n == "cordiv":
        l += grid(C.cordiv, one, entry=[32, 64, 256], stype=[F, I8], rng=["Sobol", "tc10"])
    if n == "sqrt":
        l += grid(C.sqrt, dict(one, emit=True), entry_sr=[32, 256], mode=BOTH) + grid(C.sqrt, dict(one, emit=False, jk=False), entry_kn=[32], mode=BOTH)
    if n == "div":
        l += grid(C.div, {"mode": "unipolar"}, entry_kn=[32, 64], depth_ss=[8, 9]) + grid(C.div, {}, depth_sa=[7, 8, 9], stype=[F, I8])
    if n == "hardsigmoid":
        l += grid(C.hardsigmoid, {}, depth=[9, 12, 16], mode=BOTH, stype=[F, I8])
    if n == "fsuadd":
        for m in BOTH:
            l += grid(C.fsuadd, {"mode": m}, shape=[(130, 1), (300, 1), (2, 300)], stype=[I8, "int16"], depth=[5, 14]) + grid(C.fsuadd, {"mode": m, "shape": (300, 1)}, scale=[1, 200, 150])
            l += grid(C.fsuadd, {"mode": m}, depth=[14, 16, 20], stype=[F, I8]) + grid(C.fsuadd, {"mode": m, "scale": 2}, rscale=[Fraction(3, 2), Fraction(5, 2), 3], rentry=[None, 5], depth=[4, 9])
            l += grid(C.fsuadd, {"mode": m}, scale=[Fraction(3, 2), Fraction(5, 4)], entry=[None, 7], stype=[F, I8])
    if n in ("linear", "linearpc"):
        e = {"pc": n == "linearpc", "batch": 1, "nin": 2, "nout": 1}
        l += grid(C.linear, e, width=[8, 9, 10], mode=BOTH, rng=TAB) + [(C.linear, dict(e, width=2, nin=140, mode=m)) for m in (BOTH if n == "linearpc" else ["unipolar"])]
    if n in ("conv", "convpc"):
        e = {"pc": n == "convpc", "hw": (2, 2), "cout": 1}
        l += grid(C.conv, e, width=[8, 9], mode=BOTH, rng=TAB)
    if n == "conv":
        l += grid(C.conv, {"hw": (2, 3), "cout": 1}, rscale=[None, 1, 2, Fraction(3, 2)], rentry=[None, 3, 6], mode=BOTH)[1:] + grid(C.conv, {"hw": (2, 2), "k": 1, "scale": 1, "pad": 1}, rscale=[2], rentry=[None, 4], mode=BOTH)
    if n == "linear":
        l += grid(C.linear, {"batch": 1}, rscale=[Fraction(3, 2), Fraction(5, 2)], rentry=[None, 6], mode=BOTH)
    if n == "hardmgu":
        l += grid(G.hardmgu, {"hard": False}, bias=[True, False], hx=[True, False]) + [(G.hardmgu, {"hard": False, "batch": 2, "nin": 2})]
    if n == "hublinear":
        l += grid(D.hublinear, {"B": 1, "I": 1, "O": 1}, width=[5, 6, 7], cycle=[None, 17, 40], rng_w=["Sobol", "tc10"])
    if n in ("fxplinear", "fxpconv"):
        l += grid(D.fxplinear if n == "fxplinear" else D.fxpconv, {}, wi=[10, 12, 16], ww=[9, 16])
    if n in ("tlutlinear", "tlutconv"):
        l += grid(D.tlutlinear if n == "tlutlinear" else D.tlutconv, {}, temporal=["i", "w"], wi=[10, 13, 16], ww=[11, 16], widtht=[4, 5, 8])
    if n in ("progerr", "stability"):
        l += grid(D.progerr if n == "progerr" else D.stability, {}, scale=[100, Fraction(3, 2), Fraction(1, 4)], mode=BOTH)
    if n == "mgu":
        l += grid(G.mgu, {}, width=[8, 9], depth=[5, 12])
    if n == "hubmgu":
        l += grid(G.hubmgu, {"nin": 1, "hid": 1}, width=[3, 4])
        l += grid(G.hubmgu, {"nin": 1, "hid": 1}, width=[2, 3], ismul=[1, 2])
    return l


def with_cover(name, f):
    cache = {}

    def g(t):
        if t not in cache:
            l = f(min(t, 1))
            for mk, base, ok, ax, more in COV.get(name, []):
                ax = {k: list(v) for k, v in ax.items()}
                if t > 1:
                    for k, v in more.items():
                        ax[k] = ax.get(k, []) + list(v)
                l = l + cover(mk, base, ok, 3 if t > 1 else 2, **ax)
            cache[t] = l
        return cache[t]
    return g


for _n in COV:
    FAM[_n] = with_cover(_n, FAM[_n])


STREAM = ["jkff", "shiftreg", "signabs", "relu", "bi2uni", "uni2bi", "ssync", "cordiv", "div", "sqrt", "hardsigmoid", "fsuadd", "mul", "linear", "conv", "mgu", "bsgen", "chain"]
PC = ["linearpc", "convpc"]
LAYERS = ["hublinear", "hubconv", "fxplinear", "fxpconv", "tlutlinear", "tlutconv", "hubact", "fsuhardtanh", "hubmgu", "hardmgu"]
GEN = ["rng", "bingen", "rawscale"]
METRIC = ["progerr", "stability", "correlation"]
ALL = STREAM + PC + LAYERS + GEN + METRIC


# ------------------------------------------------------------------------------- rules
def equivalent(scn):
    """the extracted transfer function equals the reference transfer function"""
    S = analyse(scn)
    r = check(S, scn.ref)
    if r.status == "VIOLATION" and S.raised is not None:
        r.site = S.raised.site
    return r


def nb_(mk, kw, scn):
    """number of slices that may not influence each other"""
    mk = getattr(mk, "base", mk)
    if mk is H.default:
        return None
    if mk in (C.linear, C.conv, G.mgu, G.hardmgu):
        return kw.get("batch", {C.linear: 2, C.conv: 1, G.mgu: 1, G.hardmgu: 1}[mk])
    return TT.numel(scn.ins[0].shape)


def independent(scn, mk, kw):
    n_in = {i.name: TT.numel(i.shape) for i in scn.ins}
    mk = getattr(mk, "base", mk)
    if mk is C.fsuadd:
        shape = scn.ins[0].shape
        oshape, grp = RF.groups(shape, kw.get("dima", 0))
        return E.independent(scn, lambda t, j: {("x", i) for i in grp[j]})
    nb = nb_(mk, kw, scn)
    S = analyse(scn)
    nout = {}
    for p in S.phases:
        for e in p.edges:
            if e.raised is None:
                for t, o in enumerate([o for o in e.outs if o[0] == "T"]):
                    nout[t] = len(o[3])

    def allowed(t, j):
        b = j * nb // nout[t]
        return {(n, k) for n, m in n_in.items() for k in range(m) if m < nb or k * nb // m == b}
    return E.independent(scn, allowed)


def rejects(scn):
    return E.rejects(scn, scn.info["by"])


def illegal(name):
    return H.illegal_scn(name)


# ------------------------------------------------------------------------------- light samples
def light(name, thorough):
    """configurations used for the effect rules: the grid (thorough), or a sample of it in which every value of
    every axis occurs (as far as it goes, every pair of values)"""
    if thorough:
        return uniq(FAM[name](0 if name in HEAVY else 1)) + effv(name)
    l = uniq(FAM[name](0))
    d = [x for x in l if x[0] is H.default and x[1]["unit"] not in SLOW]
    r = [x for x in l if x[0] is not H.default]
    return d + spread(r, 16 if name in HEAVY else 40) + effv(name)


def effv(name):
    return [x for x in variants(name) if not x[0].__name__.endswith("_alias") and "_mixed" not in x[0].__name__ and x[0] is not G.hubmgu_seq][:4]


def spread(l, n):
    out, done = [], set()
    feats = []
    for mk, kw in l:
        f = [(mk.__name__, k, repr(v)) for k, v in sorted(kw.items())]
        feats.append((f or [(mk.__name__,)], list(combinations(f, 2))))
    left = list(range(len(l)))
    while left and len(out) < n:
        best = max(left, key=lambda i: (sum(x not in done for x in feats[i][0]) * 1000 + sum(x not in done for x in feats[i][1]), -i))
        left.remove(best)
        out.append(best)
        done.update(feats[best][0])
        done.update(feats[best][1])
    return [l[i] for i in sorted(out)]


HEAVY = {"linear", "conv", "linearpc", "convpc", "hublinear", "hubconv", "fxpconv", "tlutlinear", "tlutconv", "mgu", "hubmgu", "hardmgu"}


SLOW = {"HUBLinear", "HUBConv2d", "FSULinear", "FSUConv2d", "FSULinearPC", "FSUConv2dPC", "FSUMGUCell"}


class Item:
    def __init__(self, rule, mk, kw, rname=None):
        self.rule, self.mk, self.kw = rule, mk, kw
        self.rname = rname or rule.__name__

    def run(self):
        scn = self.mk(**self.kw)
        if self.rule is E.bits:
            which = {0} if getattr(self.mk, "base", self.mk) is C.shiftreg or self.kw.get("unit") == "ShiftReg" else None
            st = self.kw.get("stype", F)
            return E.bits(scn, st, which)
        if self.rule is independent:
            return independent(scn, self.mk, self.kw)
        if self.rule is E.ste:
            return E.ste(scn, "pass" if self.mk is D.round_ else "linear")
        return self.rule(scn)

    def label(self):
        return "%s: %s(%s)" % (self.rname, self.mk.__name__, ", ".join("%s=%s" % (k, v) for k, v in self.kw.items()))


def eq(t, *names):
    return [Item(equivalent, mk, kw) for n in names for mk, kw in uniq(FAM[n](t) + wide(n, t) + large(n, t) + variants(n))]


def rule(r, t, names):
    return [Item(r, mk, kw) for n in names for mk, kw in light(n, t)]


def c02(t):
    fs = [C.signabs, C.relu, C.bi2uni, C.uni2bi]
    l = []
    for f in fs:
        l += grid(f, {}, depth=[2, 3, 4] + ([5, 6, 7, 8, 9, 10] if t else [6]), btype=[F, I64])
        l += grid(f, {"btype": I8, "stype": I8}, depth=[2, 3, 4] + ([5, 6] if t else []))
        l += grid(f, {"depth": 3}, shape=SH) + grid(f, {}, depth=[8, 9, 12], stype=[F, I8, U8], btype=[F, "int32"])
    l += grid(C.ssync, {}, depth=[8, 9, 12], stype=[F, I8], btype=[F, "int32"])
    l += grid(C.ssync, {}, depth=[1, 2, 3] + ([4, 5, 6, 7] if t else [5]), btype=[F, I64])
    l += grid(C.hardsigmoid, {}, depth=[2, 3, 4] + ([5, 6, 8] if t else []), mode=BOTH)
    for m in BOTH:
        l += grid(C.fsuadd, {"mode": m}, depth=[2, 3, 4] + ([5, 6, 8, 10, 12] if t else [8]), scale=[None, 1, 2], shape=[(3, 2), (4, 1)])
        l += grid(C.fsuadd, {"mode": m, "kind": "int", "hi": 7}, depth=[2, 3] + ([4, 5] if t else []), scale=[None, 1])
        l += grid(C.linear, {"mode": m, "width": 2}, depth=[2, 3] + ([4, 5, 6] if t else []), scale=[1, None], bias=[True, False])
        l += grid(C.conv, {"mode": m, "hw": (2, 3)}, depth=[2, 3], scale=[1], bias=[True])
        l += grid(C.div, {"mode": m}, depth_sa=[2, 3], depth_ss=[1, 2])
    l += grid(G.mgu, {}, depth=[3, 4])
    return [Item(equivalent, mk, kw) for mk, kw in uniq(l)]


def c14(t):
    l = []
    for n in ("hublinear", "hubconv", "fxplinear", "fxpconv", "tlutlinear", "tlutconv"):
        l += light(n, t)
    return [Item(E.ste, mk, kw) for mk, kw in l if mk is not H.default or t]


PROPS = {
    "C01": lambda t: rule(E.bits, t, STREAM),
    "C02": c02,
    "C03": lambda t: rule(E.caller_writes, t, ALL + ["report"]),
    "C04": lambda t: rule(E.config_writes, t, [n for n in ALL if n != "fsuhardtanh"] + ["clip"]),
    "C05": lambda t: rule(E.snapshots, t, [n for n in ALL if n not in ("rng", "bingen", "progerr", "chain", "fsuhardtanh")]),
    "C06": lambda t: rule(E.ambient, t, ALL + ["clip"]),
    "C07": lambda t: eq(t, "rng") + [Item(E.lfsr_table, mk, kw) for mk, kw in FAM["lfsr"](t)] + [Item(E.permutation, mk, kw) for mk, kw in FAM["sysrand"](t)],
    "C08": lambda t: eq(t, "bingen", "bsgen", "chain"),
    "C09": lambda t: eq(t, "mul"),
    "C10": lambda t: eq(t, "fsuadd", "hardsigmoid"),
    "C11": lambda t: eq(t, "linear", "linearpc"),
    "C12": lambda t: eq(t, "conv", "convpc"),
    "C13": lambda t: [Item(independent, i.mk, i.kw) for i in rule(E.bits, t, ["jkff", "shiftreg", "signabs", "relu", "bi2uni", "uni2bi", "ssync", "cordiv", "div", "sqrt", "hardsigmoid", "fsuadd", "mul", "linear", "conv", "linearpc", "convpc", "mgu", "hardmgu"]) if i.mk is not H.default],
    "C14": c14,
    "C15": lambda t: eq(t, "progerr", "stability", "report"),
    "C16": lambda t: eq(t, "correlation"),
    "C17": lambda t: eq(t, "shapes"),
    "C18": lambda t: [Item(rejects, illegal, {"name": n}) for n in H.illegal()],
    "C19": lambda t: eq(t, "ssync"),
    "C20": lambda t: eq(t, "bi2uni", "uni2bi"),
    "C21": lambda t: eq(t, "cordiv", "div"),
    "C22": lambda t: eq(t, "sqrt"),
    "C23": lambda t: eq(t, "jkff", "shiftreg"),
    "C24": lambda t: eq(t, "signabs", "relu", "fsuhardtanh", "hubact"),
    "C25": lambda t: eq(t, "hublinear", "hubconv", "fxplinear", "fxpconv", "tlutlinear", "tlutconv"),
    "C26": lambda t: eq(t, "mgu", "hubmgu", "hardmgu"),
    "C27": lambda t: eq(t, "clip", "rawscale") + [Item(E.truncated, mk, kw) for mk, kw in FAM["trunc"](t)] + eq(t, "round"),
    "C28": lambda t: rule(E.runs, t, ALL) + [Item(E.runs, H.hubwidths, {"conv": c, "wi": a, "ww": b}) for c in (False, True) for a, b in ((4, 3), (3, 4))] + [Item(E.runs, G.hardmgu, {"fxp": (3, 4)})],
    "C29": lambda t: HW.items(t > 1),
}


# cheap enough for the large grid on every change
DEEP = {"C11", "C12", "C26", "C02", "C07", "C08", "C09", "C10", "C14", "C16", "C17", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27"}


def items(prop, thorough):
    return PROPS[prop](2 if thorough else 1 if prop in DEEP else 0)
