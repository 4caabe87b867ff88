"""Abstract semantics of the library surface the repository uses: builtins, math, numpy,
pylfsr, copy and the parts of torch / torch.nn that operate on abstract tensors."""
import ast
import math
import os as py_os
import itertools
import collections
import builtins as py_builtins
from fractions import Fraction
from math import inf
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from . import tensor as TT
from .tensor import (Tensor, Sym, AbsRaise, Unmodelled, DType, Ctx, DT, TNAMES, Storage, new, as_t, ew, is_scalar,
                     skind, sp, mk_sym, mk_scalar, result_type, castl, cast1, rgof, inplace, set_out, view_of, bshape, bget,
                     float32, int64, bool_, int8, numel)
from .libnames import TENSOR_ATTRS
from .interp import (ListV, IterV, GenV, LazyV, CmObj, NOTIMPL, DequeV, DictV, Mod, Ext, PyFn, Func, Class, Obj, Bound, StaticM, ClassM, Prop, ExcV, EXC)


AUTO = type("Auto", (), {"__repr__": lambda s: "auto()"})()


class MinMax(tuple):
    """the named pair returned by max/min/sort/... along a dimension"""
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


class Size(tuple):
    def numel(self):
        return numel(self)


class Device:
    type = "cpu"

    def __eq__(self, o):
        return isinstance(o, Device) or o == "cpu"

    def __hash__(self):
        return 1


class Opaque:
    """opaque library object"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class NpInt(int):
    def item(self):
        return int(self)


class NpFloat(float):
    def item(self):
        return float(self)


def npv(x):
    """an element of a numpy array"""
    return NpFloat(x) if type(x) is float else NpInt(x) if type(x) is int else x


class EnumInt(int):
    """a member of an IntEnum"""


class EnumStr(str):
    """a member of an enum with string values"""


class NdArr:
    """1-d numpy array of scalars"""

    def __init__(self, vals):
        self.vals = list(vals)

    def abs_getitem(self, it, i):
        if isinstance(i, slice):
            return NdArr(it.getitem(ListV(self.vals), i))
        if isinstance(i, (tuple, NdArr, list)):
            raise Unmodelled("numpy index")
        return npv(it.getitem(ListV(self.vals), i))

    def abs_binop(self, it, op, o, refl):
        if isinstance(o, Tensor):
            raise Unmodelled("numpy array with a tensor")
        if isinstance(o, NdArr):
            if len(o.vals) != len(self.vals):
                raise Unmodelled("numpy broadcast")
            ov = o.vals
        elif isinstance(o, (list, tuple)):
            raise Unmodelled("numpy broadcast")
        else:
            ov = [o] * len(self.vals)
        if op in ("Div", "FloorDiv", "Mod", "Pow", "MatMult"):
            if not all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in list(ov) + self.vals) or op in ("MatMult", "Pow"):
                raise Unmodelled("numpy " + op)
        return NdArr(it.binop(op, y, x) if refl else it.binop(op, x, y) for x, y in zip(self.vals, ov))

    def abs_compare(self, it, op, o):
        if isinstance(o, (NdArr, list, tuple, Tensor)) or not is_scalar(o):
            raise Unmodelled("numpy comparison")
        return NdArr(it.compare(op, x, o) for x in self.vals)

    def __len__(self):
        return len(self.vals)

    def abs_iter(self):
        return [npv(x) for x in self.vals]


class CtxMgr:
    def __init__(self, grad=None):
        self.grad = grad
        self.old = None


SCALAR_TYPES = {"int": "int", "float": "float", "bool": "bool"}


def shape_args(args):
    """(2,3) or ((2,3),) or ([2,3],)"""
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        args = args[0]
    out = []
    for a in args:
        if isinstance(a, Tensor):
            c = TT._cint(a)
            if c is None:
                raise Unmodelled("symbolic size")
            a = c
        if isinstance(a, bool) or not isinstance(a, int):
            if isinstance(a, bool):
                a = int(a)
            elif isinstance(a, Sym):
                raise Unmodelled("symbolic size")
            else:
                raise AbsRaise("TypeError", "sizes must be integers, got %s" % type(a).__name__)
        out.append(a)
    return tuple(out)


def cdim(d):
    if isinstance(d, Tensor):
        c = TT._cint(d)
        if c is None:
            raise Unmodelled("symbolic dim")
        return c
    if isinstance(d, (list, tuple)):
        return tuple(cdim(x) for x in d)
    if isinstance(d, float):
        raise AbsRaise("TypeError", "dim must be int")
    return d


def dtype_of(x):
    if x is None:
        return None
    if isinstance(x, DType):
        return x
    if isinstance(x, str):
        if x in TNAMES:
            return TNAMES[x]
        raise AbsRaise("ValueError", "invalid type: %r" % x)
    if isinstance(x, PyFn) and x.name in ("int", "float", "bool"):
        return {"int": int64, "float": TT.float64, "bool": bool_}[x.name]
    if isinstance(x, Ext) and x.path in TNAMES:
        return TNAMES[x.path]
    raise Unmodelled("dtype %r" % (x,))


def fl(dt):
    return dt if dt.kind == "f" else float32


def need(dt, ok, op):
    if dt.kind not in ok:
        raise AbsRaise("NotImplementedError", '"%s" not implemented for %r' % (op, dt))


def bitop(name, f):
    def g(a, b):
        dt = result_type(a, b)
        if dt.kind == "f":
            raise AbsRaise("NotImplementedError", '"%s_cpu" not implemented for %r' % (name, dt))
        return ew(f, (a, b), dt)
    return g


def f_not(x):
    if x.dtype.kind == "b":
        return ew(lambda a: T.sub(ONE, a), (x,), bool_)
    if x.dtype.kind == "f":
        raise AbsRaise("TypeError", "~ (operator.invert) is only implemented on integer and Boolean-type tensors")
    return ew(lambda a: T.sub(T.scale(a, -1), ONE), (x,), x.dtype)


def f_shift(left):
    def g(a, b):
        dt = result_type(a, b)
        if dt.kind == "f":
            raise AbsRaise("NotImplementedError", '"%s_cpu" not implemented for %r' % ("lshift" if left else "rshift", dt))
        if dt.kind == "b":
            raise AbsRaise("NotImplementedError", "shift not implemented for 'Bool'")
        if left:
            return ew(lambda x, y: T.mul(x, T.pow2(y)), (a, b), dt)
        return ew(lambda x, y: T.floor(T.mul(x, T.pow2(T.scale(y, -1)))), (a, b), dt)
    return g


def f_add(a, b, alpha=1):
    dt = result_type(a, b)
    if alpha != 1:
        b = f_mul(b, alpha)
    if dt.kind == "b":
        return ew(T.bor, (a, b), dt)
    return ew(T.add, (a, b), dt)


def f_sub(a, b, alpha=1):
    dt = result_type(a, b)
    for x in (a, b):
        if isinstance(x, Tensor) and x.dtype.kind == "b":
            raise AbsRaise("NotImplementedError", "Subtraction, the `-` operator, with a bool tensor is not supported.")
    if alpha != 1:
        b = f_mul(b, alpha)
    return ew(T.sub, (a, b), dt)


def f_mul(a, b):
    dt = result_type(a, b)
    return ew(T.mul, (a, b), dt)


def f_div(a, b, rounding_mode=None):
    dt = result_type(a, b)
    if rounding_mode is None:
        return ew(T.div, (a, b), fl(dt))
    f = {"floor": T.floor, "trunc": T.trunc}[rounding_mode]
    return ew(lambda x, y: f(T.div(x, y)), (a, b), dt)


def f_floordiv(a, b):
    return f_div(a, b, "floor")


def f_mod(a, b):
    dt = result_type(a, b)
    return ew(T.mod, (a, b), dt)


def f_fmod(a, b):
    dt = result_type(a, b)
    return ew(lambda x, y: T.sub(x, T.mul(y, T.trunc(T.div(x, y)))), (a, b), dt)


def f_pow(a, b):
    dt = result_type(a, b)
    if is_scalar(a) and not isinstance(a, Sym) and a == 2:
        if dt.kind != "f":
            return ew(lambda x, y: T.floor(T.pow2(y)) if not y.is_const() or y.cval() < 0 else T.pow2(y), (a, b), dt)
        return ew(lambda x, y: T.pow2(y), (a, b), dt)
    if is_scalar(b) and isinstance(b, int) and 0 <= b <= 4:
        def g(x, y):
            r = ONE
            for _ in range(b):
                r = T.mul(r, x)
            return r
        return ew(g, (a, b), dt)

    def h(x, y):
        if x.is_const() and x.cval() == 2:
            return T.pow2(y)
        return T.fn("pow", (x, y))
    return ew(h, (a, b), dt)


def cmpop(f):
    def g(a, b):
        return ew(f, (a, b), result_type(a, b), bool_, rg=False)
    return g


CMP = {"eq": cmpop(T.eq), "ne": cmpop(T.ne), "lt": cmpop(T.lt), "le": cmpop(T.le), "gt": cmpop(T.gt), "ge": cmpop(T.ge)}


def tobit(x):
    return x if T.is_bit(x) else T.ne(x, ZERO)


def logic(f):
    def g(a, b):
        a, b = as_t(a), as_t(b)
        sh = bshape(a.shape, b.shape)
        return new([f(tobit(x), tobit(y)) for x, y in zip(bget(a, sh), bget(b, sh))], sh, bool_)
    return g


def unary(f, floatout=False, ok="bif"):
    def g(x):
        if not isinstance(x, Tensor):
            raise AbsRaise("TypeError", "argument must be Tensor, not %s" % type(x).__name__)
        need(x.dtype, ok, "unary")
        dt = fl(x.dtype) if floatout else x.dtype
        return ew(f, (x,), dt)
    return g


def f_round(x, decimals=0):
    need(x.dtype, "if", "round")
    if decimals:
        k = Fraction(10) ** decimals
        return ew(lambda v: T.scale(T.pround(T.scale(v, k)), 1 / k), (x,), x.dtype)
    return ew(T.pround, (x,), x.dtype)


def f_neg(x):
    if x.dtype.kind == "b":
        raise AbsRaise("RuntimeError", "Negation, the `-` operator, on a bool tensor is not supported.")
    return ew(lambda a: T.scale(a, -1), (x,), x.dtype)


def f_clamp(x, min=None, max=None):
    if min is None and max is None:
        raise AbsRaise("RuntimeError", "torch.clamp: At least one of 'min' or 'max' must not be None")
    xs = [x]
    if min is not None:
        xs.append(min)
    if max is not None:
        xs.append(max)
    dt = result_type(*xs)
    if dt.kind == "b":
        raise AbsRaise("NotImplementedError", "clamp not implemented for 'Bool'")
    r = x
    f = lambda v, *b: T.clamp(v, b[0] if min is not None else None, b[-1] if max is not None else None)
    return ew(f, xs, dt)


def log2_(p):
    if p.is_const():
        c = p.cval()
        if c <= 0:
            return T.fn("log2", (p,))
        v = math.log2(c)
        if v == int(v):
            return P(int(v))
        return P(Fraction(v))
    return T.fn("log2", (p,))


def f_hardtanh(x, min_val=-1.0, max_val=1.0):
    if min_val > max_val:
        raise AbsRaise("AssertionError", "max_val must be larger than min_val")
    return ew(lambda v: T.clamp(v, P(min_val), P(max_val)), (x,), x.dtype)


def f_hardsigmoid(x):
    return ew(lambda v: T.clamp(T.add(T.scale(v, Fraction(1, 6)), P(Fraction(1, 2))), ZERO, ONE), (x,), x.dtype)


def f_mean(x, dim=None, keepdim=False, dtype=None):
    if x.dtype.kind != "f" and dtype is None:
        raise AbsRaise("RuntimeError", "mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
    dims = TT.reduce_dims(x, dim)
    n = 1
    for d in dims:
        n *= x.shape[d]
    if n == 0:
        raise Unmodelled("mean of nothing")
    return f_div(TT.tsum(x, dim, keepdim, dtype), n)


def f_prod(x, dim=None, keepdim=False, dtype=None):
    dt = dtype or (int64 if x.dtype.kind in "bi" else x.dtype)

    def f(vs):
        r = ONE
        for v in vs:
            r = T.mul(r, v)
        return r
    return TT.reduce(x, f, dim, keepdim, dt)


def minmax(name):
    def g(x, *a, **k):
        o = a[0] if a else k.get("other")
        if isinstance(o, Tensor):
            f = T.pmax if name == "max" else T.pmin
            return ew(f, (x, o), result_type(x, o))
        dim = o if a else k.get("dim")
        if dim is None:
            if x.numel() == 0:
                raise AbsRaise("RuntimeError", "%s(): Expected reduction dim to be specified for input.numel() == 0." % name)
            r = T.nary(name, x.get())
            return new([r], (), x.dtype, x.rg)
        keep = k.get("keepdim", a[1] if len(a) > 1 else False)
        v = TT.reduce(x, lambda vs: T.nary(name, vs), cdim(dim), keep)

        def am(vs):
            best, bi = vs[0], ZERO
            for i, q in enumerate(vs[1:], 1):
                c = T.gt(q, best) if name == "max" else T.lt(q, best)
                best = T.ite(c, q, best)
                bi = T.ite(c, P(i), bi)
            return bi
        i = TT.reduce(x, am, cdim(dim), keep, int64)
        return MinMax((v, i))
    return g


def amm(name):
    def g(x, dim=None, keepdim=False):
        return TT.reduce(x, lambda vs: T.nary(name, vs), cdim(dim), keepdim)
    return g


def argm(name):
    def g(x, dim=None, keepdim=False):
        if dim is None:
            x = TT.reshape(x, (-1,))
            dim = 0
        return minmax(name)(x, dim, keepdim=keepdim)[1]
    return g


def anyall(name):
    def g(x, dim=None, keepdim=False):
        def f(vs):
            r = ONE
            for v in vs:
                b = tobit(v)
                r = T.mul(r, b if name == "all" else T.sub(ONE, b))
            return r if name == "all" else T.sub(ONE, r)
        return TT.reduce(x, f, cdim(dim), keepdim, bool_)
    return g


def f_cumsum(x, dim, dtype=None):
    d = TT.norm_dim(dim, len(x.shape))
    dt = dtype or (int64 if x.dtype.kind in "bi" else x.dtype)
    cur = castl(x.get(), x.dtype, dt)
    inner = numel(x.shape[d + 1:])
    n = x.shape[d]
    for o in range(numel(x.shape[:d])):
        for k in range(1, n):
            for r in range(inner):
                at = (o * n + k) * inner + r
                cur[at] = T.add(cur[at], cur[at - inner])
    return new(cur, x.shape, dt, x.rg)


def f_quantile(x, q, dim=None, keepdim=False, interpolation="linear"):
    if x.dtype not in (float32, TT.float64):
        raise AbsRaise("RuntimeError", "quantile() input tensor must be either float or double dtype")
    if isinstance(q, Tensor):
        c = q.get()
        if q.numel() != 1 or not c[0].is_const():
            raise Unmodelled("quantile tensor")
        q = c[0].cval()
    if isinstance(q, Sym):
        raise Unmodelled("symbolic quantile")
    qf = Fraction(q)
    if not 0 <= qf <= 1:
        raise AbsRaise("RuntimeError", "quantile() q must be in the range [0, 1] but got %s" % float(qf))
    if x.numel() == 0:
        raise AbsRaise("RuntimeError", "quantile() input tensor must be non-empty")

    def f(vs):
        if qf == 0:
            return T.nary("min", vs)
        if qf == 1:
            return T.nary("max", vs)
        if len(vs) == 1:
            return vs[0]
        if all(v.is_const() for v in vs):
            s = sorted(v.cval() for v in vs)
            pos = qf * (len(s) - 1)
            k = math.floor(pos)
            if k + 1 >= len(s):
                return P(s[-1])
            return P(s[k] + (s[k + 1] - s[k]) * (pos - k))
        if len(vs) == 2:
            lo, hi = T.pmin(*vs), T.pmax(*vs)
            return T.add(lo, T.scale(T.sub(hi, lo), qf))
        return T.fn("quantile", tuple(sorted(vs, key=lambda z: z.key)), qf)
    return TT.reduce(x, f, cdim(dim), keepdim)


def f_where(c, a=None, b=None):
    if a is None:
        raise Unmodelled("where with one argument")
    if c.dtype.kind != "b":
        raise AbsRaise("RuntimeError", "where expected condition to be a boolean tensor")
    dt = result_type(a, b)
    a, b = as_t(a), as_t(b)
    sh = bshape(c.shape, a.shape, b.shape)
    av, bv = castl(bget(a, sh), a.dtype, dt), castl(bget(b, sh), b.dtype, dt)
    return new([T.ite(k, x, y) for k, x, y in zip(bget(c, sh), av, bv)], sh, dt, rgof(a, b))


def f_frexp(x):
    need(x.dtype, "f", "frexp")
    m, e = [], []
    for v in x.get():
        if v.is_const():
            mm, ee = math.frexp(v.cval())
            m.append(P(Fraction(mm)))
            e.append(P(ee))
        else:
            m.append(T.fn("frexp_m", (v,)))
            e.append(T.fn("frexp_e", (v,)))
    return (new(m, x.shape, x.dtype, x.rg), new(e, x.shape, TT.int32))


def f_ldexp(x, o):
    return ew(lambda a, b: T.mul(a, T.pow2(b)), (x, o), fl(result_type(x, o)))


def f_frac(x):
    need(x.dtype, "f", "frac")
    return ew(lambda a: T.sub(a, T.trunc(a)), (x,), x.dtype)


def f_nan_to_num(x, *a, **k):
    return ew(lambda v: v, (x,), x.dtype)


def f_var(x, dim=None, unbiased=True, keepdim=False, correction=None):
    m = f_mean(x, dim, True)
    d = f_sub(x, m)
    s = TT.tsum(f_mul(d, d), dim, keepdim)
    n = x.numel() if dim is None else numel([x.shape[i] for i in TT.reduce_dims(x, dim)])
    k = n - (1 if unbiased else 0)
    if k == 0:
        return f_mul(s, T_inf())
    return f_div(s, k)


def T_inf():
    return float("inf")


def f_std(x, *a, **k):
    return ew(T.sqrt_, (f_var(x, *a, **k),), x.dtype)


def f_std_mean(x, *a, **k):
    return (f_std(x, *a, **k), f_mean(x))


def f_flatten(x, start_dim=0, end_dim=-1):
    n = len(x.shape)
    if n == 0:
        return TT.reshape(x, (1,))
    a, b = TT.norm_dim(start_dim, n), TT.norm_dim(end_dim, n)
    return TT.reshape(x, x.shape[:a] + (numel(x.shape[a:b + 1]),) + x.shape[b + 1:])


def f_chunk(x, chunks, dim=0):
    d = TT.norm_dim(dim, len(x.shape))
    n = x.shape[d]
    k = -(-n // chunks)
    return f_split(x, k, d)


def f_narrow(x, dim, start, length):
    ix = [slice(None)] * len(x.shape)
    d = TT.norm_dim(dim, len(x.shape))
    ix[d] = slice(start, start + length)
    return TT._basic(x, tuple(ix))


def f_split(x, size, dim=0):
    d = TT.norm_dim(dim, len(x.shape))
    n = x.shape[d]
    if isinstance(size, int):
        sizes = [min(size, n - i) for i in range(0, n, size)]
    else:
        sizes = list(size)
    out, s = [], 0
    for k in sizes:
        out.append(f_narrow(x, d, s, k))
        s += k
    return tuple(out)


def f_unbind(x, dim=0):
    d = TT.norm_dim(dim, len(x.shape))
    return tuple(f_select(x, d, i) for i in range(x.shape[d]))


def f_select(x, dim, i):
    ix = [slice(None)] * len(x.shape)
    ix[TT.norm_dim(dim, len(x.shape))] = i
    return TT.index_get(x, tuple(ix))


def f_cumprod(x, dim, dtype=None):
    outs = []
    for q in f_unbind(x, dim):
        outs.append(q if not outs else f_mul(outs[-1], q))
    return TT.stack(outs, dim)


def f_index_select(x, dim, index):
    d = TT.norm_dim(dim, len(x.shape))
    ix = [slice(None)] * len(x.shape)
    ix[d] = index
    return TT.index_get(x, tuple(ix))


def f_gather(x, dim, index):
    d = TT.norm_dim(dim, len(x.shape))
    vals = []
    iv = index.get()
    for pos, p in zip(itertools.product(*[range(s) for s in index.shape]), iv):
        col = []
        for k in range(x.shape[d]):
            q = list(pos)
            q[d] = k
            col.append(TT.elem(x, q))
        if p.is_const() and not 0 <= p.cval() < x.shape[d]:
            raise AbsRaise("RuntimeError", "index out of bounds")
        vals.append(T.sel(tuple(col), p))
    return new(vals, index.shape, x.dtype, x.rg)


def f_take(x, index):
    return TT.index_get(TT.reshape(x, (-1,)), index)


def f_tile(x, reps):
    reps = tuple(reps)
    if len(reps) < len(x.shape):
        reps = (1,) * (len(x.shape) - len(reps)) + reps
    return TT.repeat(x, reps)


def f_repeat_interleave(x, n, dim=None):
    if not isinstance(n, int):
        raise Unmodelled("repeat_interleave")
    if dim is None:
        x = TT.reshape(x, (-1,))
        dim = 0
    d = TT.norm_dim(dim, len(x.shape))
    return TT.take(x, d, [k for k in range(x.shape[d]) for _ in range(n)])


def f_sort(x, dim=-1, descending=False):
    vs = x.get()
    if len(x.shape) == 1 and all(v.is_const() for v in vs):
        o = sorted(range(len(vs)), key=lambda i: vs[i].cval(), reverse=descending)
        return MinMax((new([vs[i] for i in o], x.shape, x.dtype), new([P(i) for i in o], x.shape, int64)))
    raise Unmodelled("sort")


def f_equal(a, b):
    if a.shape != b.shape:
        return False
    r = ONE
    for x, y in zip(a.get(), b.get()):
        r = T.mul(r, T.eq(x, y))
    return mk_sym(r, "bool")


def f_linear(x, w, b=None):
    if b is not None and not isinstance(b, Tensor):
        raise AbsRaise("TypeError", "linear(): bias must be Tensor")
    r = TT.matmul(x, TT.transpose(w, 0, 1) if len(w.shape) > 1 else w)
    if b is not None:
        if b.dtype is not r.dtype:
            raise AbsRaise("RuntimeError", "self and mat2 must have the same dtype")
        r = f_add(r, b)
    return r


def f_addmm(b, x, w, beta=1, alpha=1):
    return f_add(b, TT.matmul(x, w))


def f_bmm(a, b):
    if len(a.shape) != 3 or len(b.shape) != 3:
        raise AbsRaise("RuntimeError", "batch1 must be a 3D tensor")
    if a.shape[0] != b.shape[0]:
        raise AbsRaise("RuntimeError", "bmm batch mismatch")
    return TT.matmul(a, b)


def f_mm(a, b):
    if len(a.shape) != 2 or len(b.shape) != 2:
        raise AbsRaise("RuntimeError", "mat1 must be a matrix")
    return TT.matmul(a, b)


def f_einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    eq = eq.replace(" ", "")
    lhs, _, rhs = eq.partition("->")
    ins = lhs.split(",")
    if "..." in eq or "->" not in eq:
        raise Unmodelled("einsum form")
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape):
            raise AbsRaise("RuntimeError", "einsum dims")
        for c, n in zip(s, o.shape):
            if size.setdefault(c, n) != n:
                raise AbsRaise("RuntimeError", "einsum size mismatch")
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = TT.promote2(dt, o.dtype)
    red = [c for c in size if c not in rhs]
    vals = []
    for oi in itertools.product(*[range(size[c]) for c in rhs]):
        env = dict(zip(rhs, oi))
        acc = ZERO
        for ri in itertools.product(*[range(size[c]) for c in red]):
            env.update(zip(red, ri))
            m = ONE
            for s, o in zip(ins, ops):
                m = T.mul(m, TT.elem(o, [env[c] for c in s]))
            acc = T.add(acc, m)
        vals.append(acc)
    return new(vals, [size[c] for c in rhs], dt, rgof(*ops))


def f_unfold(x, kernel_size, dilation=1, padding=0, stride=1):
    return TT.unfold(x, kernel_size, dilation, padding, stride)


def f_fold(x, output_size, kernel_size, dilation=1, padding=0, stride=1):
    return TT.fold(x, output_size, kernel_size, dilation, padding, stride)


def f_padf(x, pad, mode="constant", value=None):
    if mode != "constant":
        raise Unmodelled("pad mode")
    return TT.pad(x, tuple(shape_args((tuple(pad),))), P(0 if value is None else value))


def f_masked_fill(x, mask, value):
    v = as_t(value)
    if v.numel() != 1:
        raise AbsRaise("RuntimeError", "masked_fill only supports a 0-dimensional value tensor")
    c = castl(v.get(), v.dtype, x.dtype)[0]
    sh = bshape(x.shape, mask.shape)
    return new([T.ite(m, c, o) for m, o in zip(bget(mask, sh), bget(x, sh))], sh, x.dtype, x.rg)


def f_outer(a, b):
    return f_mul(TT.unsqueeze(a, 1), TT.unsqueeze(b, 0))


def f_lerp(a, b, w):
    return f_add(a, f_mul(w, f_sub(b, a)))


def f_addcmul(x, a, b, value=1):
    return f_add(x, f_mul(f_mul(a, b), value))


def f_addcdiv(x, a, b, value=1):
    return f_add(x, f_mul(f_div(a, b), value))


def f_diff(x, dim=-1):
    d = TT.norm_dim(dim, len(x.shape))
    return f_sub(f_narrow(x, d, 1, x.shape[d] - 1), f_narrow(x, d, 0, x.shape[d] - 1))


def f_sum(x, dim=None, keepdim=False, dtype=None):
    return TT.tsum(x, cdim(dim), keepdim, dtype_of(dtype))


def f_dot(a, b):
    return TT.matmul(a, b)


def clone(x):
    r = new(x.get(), x.shape, x.dtype, x.rg)
    return r


def copysign_sign(x):
    return ew(T.psign, (x,), x.dtype)


# name -> (function, has inplace variant)
OPS = {
    "add": (f_add, 1), "sub": (f_sub, 1), "subtract": (f_sub, 1), "mul": (f_mul, 1), "multiply": (f_mul, 1), "div": (f_div, 1),
    "true_divide": (f_div, 1), "divide": (f_div, 1), "floor_divide": (f_floordiv, 1), "remainder": (f_mod, 1), "fmod": (f_fmod, 1),
    "pow": (f_pow, 1), "rsub": (lambda a, b: f_sub(b, a), 0),
    "bitwise_and": (bitop("bitwise_and", T.band), 1), "bitwise_or": (bitop("bitwise_or", T.bor), 1),
    "bitwise_xor": (bitop("bitwise_xor", T.bxor), 1), "bitwise_not": (f_not, 1),
    "bitwise_left_shift": (f_shift(True), 1), "bitwise_right_shift": (f_shift(False), 1),
    "logical_and": (logic(T.band), 1), "logical_or": (logic(T.bor), 1), "logical_xor": (logic(T.bxor), 1),
    "logical_not": (lambda x: new([T.sub(ONE, tobit(v)) for v in x.get()], x.shape, bool_), 1),
    "abs": (unary(T.pabs, ok="if"), 1), "absolute": (unary(T.pabs, ok="if"), 1), "neg": (f_neg, 1), "negative": (f_neg, 1),
    "sign": (copysign_sign, 1), "sgn": (copysign_sign, 1),
    "floor": (unary(T.floor, ok="if"), 1), "ceil": (unary(T.ceil, ok="if"), 1), "trunc": (unary(T.trunc, ok="if"), 1), "fix": (unary(T.trunc, ok="if"), 1),
    "round": (f_round, 1), "frac": (f_frac, 1), "clamp": (f_clamp, 1), "clip": (f_clamp, 1),
    "clamp_min": (lambda x, m: f_clamp(x, m), 1), "clamp_max": (lambda x, m: f_clamp(x, None, m), 1),
    "relu": (unary(lambda v: T.pmax(v, ZERO), ok="if"), 1),
    "square": (unary(lambda v: T.mul(v, v)), 1), "sqrt": (unary(T.sqrt_, True), 1), "log2": (unary(log2_, True), 1),
    "exp2": (unary(T.pow2, True), 1), "exp": (unary(lambda v: T.fn("exp", (v,)), True), 1),
    "sigmoid": (unary(lambda v: T.fn("sigmoid", (v,)), True), 1), "tanh": (unary(lambda v: T.fn("tanh", (v,)), True), 1),
    "reciprocal": (unary(T.inv, True), 1), "rsqrt": (unary(lambda v: T.inv(T.sqrt_(v)), True), 1),
    "maximum": (lambda a, b: ew(T.pmax, (a, b), result_type(a, b)), 0), "minimum": (lambda a, b: ew(T.pmin, (a, b), result_type(a, b)), 0),
    "fmax": (lambda a, b: ew(T.pmax, (a, b), result_type(a, b)), 0), "fmin": (lambda a, b: ew(T.pmin, (a, b), result_type(a, b)), 0),
    "max": (minmax("max"), 0), "min": (minmax("min"), 0), "amax": (amm("max"), 0), "amin": (amm("min"), 0),
    "argmax": (argm("max"), 0), "argmin": (argm("min"), 0), "any": (anyall("any"), 0), "all": (anyall("all"), 0),
    "sum": (f_sum, 0), "mean": (f_mean, 0), "prod": (f_prod, 0), "cumsum": (f_cumsum, 1), "cumprod": (f_cumprod, 1), "quantile": (f_quantile, 0),
    "std": (f_std, 0), "var": (f_var, 0), "std_mean": (f_std_mean, 0), "where": (f_where, 0), "frexp": (f_frexp, 0), "ldexp": (f_ldexp, 1),
    "nan_to_num": (f_nan_to_num, 1), "flatten": (f_flatten, 0), "chunk": (f_chunk, 0), "narrow": (f_narrow, 0), "split": (f_split, 0),
    "unbind": (f_unbind, 0), "select": (f_select, 0), "index_select": (f_index_select, 0), "gather": (f_gather, 0), "take": (f_take, 0), "tile": (f_tile, 0),
    "repeat_interleave": (f_repeat_interleave, 0), "sort": (f_sort, 0), "equal": (f_equal, 0), "matmul": (TT.matmul, 0), "mm": (f_mm, 0), "bmm": (f_bmm, 0),
    "mv": (TT.matmul, 0), "dot": (f_dot, 0), "addmm": (f_addmm, 0), "masked_fill": (f_masked_fill, 1), "outer": (f_outer, 0), "lerp": (f_lerp, 1),
    "addcmul": (f_addcmul, 1), "addcdiv": (f_addcdiv, 1), "diff": (f_diff, 0), "clone": (lambda x, memory_format=None: clone(x), 0),
    "roll": (lambda x, shifts, dims=None: TT.roll(x, cdim(shifts), cdim(dims)), 0), "flip": (lambda x, *d: TT.flip(x, shape_args(d)), 0),
    "isnan": (lambda x: new([ZERO] * x.numel(), x.shape, bool_), 0), "isinf": (lambda x: new([ZERO] * x.numel(), x.shape, bool_), 0),
    "numel": (lambda x: x.numel(), 0),
}
for _n, _f in CMP.items():
    OPS[_n] = (_f, 1)
for _n, _o in (("greater", "gt"), ("greater_equal", "ge"), ("less", "lt"), ("less_equal", "le"), ("not_equal", "ne")):
    OPS[_n] = (CMP[_o], 1)

# result dtype may be anything for these when writing to out=
ANYOUT = {"eq", "ne", "lt", "le", "gt", "ge", "greater", "less", "greater_equal", "less_equal", "not_equal", "logical_and", "logical_or", "logical_not", "logical_xor", "any", "all", "isnan"}

# view like operations: not in place, share storage
VIEWS = {
    "view": lambda x, *s: x.lib_view(*s),
}

FIRST_KW = ("input", "self")
KWNAMES = {"other": 1, "exponent": 1, "mat2": 1, "vec": 1}


def norm_call(name, args, kw):
    """input=/other= keywords to positions"""
    args = list(args)
    kw = dict(kw)
    if "input" in kw and name != "where":
        args.insert(0, kw.pop("input"))
    for k in ("other", "exponent", "mat2", "mask", "condition"):
        if k in kw and name not in ("max", "min"):
            args.append(kw.pop(k))
    if "axis" in kw:
        kw["dim"] = kw.pop("axis")
    kw.pop("memory_format", None)
    return args, kw


def call_op(name, args, kw):
    f, inp = OPS[name]
    args, kw = norm_call(name, args, kw)
    out = kw.pop("out", None)
    if "dtype" in kw and kw["dtype"] is not None:
        kw["dtype"] = dtype_of(kw["dtype"])
    try:
        r = f(*args, **kw)
    except TypeError as e:
        if "required positional argument" in str(e):
            raise AbsRaise("TypeError", "%s(): %s" % (name, e))
        raise Unmodelled("%s(): %s" % (name, e))
    if out is not None:
        if isinstance(out, (tuple, list)):
            return tuple(set_out(o, x, name, True) for o, x in zip(out, r))
        return set_out(out, r, name, name in ANYOUT, args)
    return r


def tensor_from(x, dtype=None):
    """torch.tensor(...)"""
    def walk(v):
        if isinstance(v, Tensor):
            return v.shape, list(v.get()), v.dtype
        if isinstance(v, NdArr):
            s_, q_, d_ = walk(ListV(v.vals))
            return s_, q_, TT.float64 if d_ is float32 else d_
        if isinstance(v, (list, tuple, range)):
            if len(v) == 0:
                return (0,), [], None
            subs = [walk(q) for q in v]
            if any(s[0] != subs[0][0] for s in subs):
                raise AbsRaise("ValueError", "expected sequence of equal length")
            dt = None
            for s in subs:
                if s[2] is not None:
                    dt = s[2] if dt is None else (s[2] if TT.DCAT[s[2].kind] > TT.DCAT[dt.kind] else dt)
            return (len(v),) + tuple(subs[0][0]), [q for s in subs for q in s[1]], dt
        if is_scalar(v):
            if isinstance(v, float) and (v != v):
                raise Unmodelled("nan")
            return (), [sp(v)], TT.KDEF[skind(v)]
        if v is None or isinstance(v, str):
            raise AbsRaise("TypeError", "must be real number, not %s" % type(v).__name__)
        raise Unmodelled("tensor of %r" % (v,))
    sh, vals, dt = walk(x)
    src = dt or float32
    dst = dtype or src
    return new(castl(vals, src, dst), sh, dst)


SOBOL_POLY = [None, (0, 0, []), (1, 0, [1]), (2, 1, [1, 3]), (3, 1, [1, 3, 1]), (3, 2, [1, 1, 1]), (4, 1, [1, 1, 3, 3]),
              (4, 4, [1, 3, 5, 13]), (5, 2, [1, 1, 5, 5, 17]), (5, 4, [1, 1, 5, 5, 5]), (5, 7, [1, 1, 7, 11, 19]), (5, 11, [1, 1, 5, 1, 1]),
              (5, 13, [1, 1, 1, 3, 11]), (5, 14, [1, 3, 5, 5, 31]), (6, 1, [1, 3, 3, 9, 7, 49]), (6, 13, [1, 1, 1, 15, 21, 21]),
              (6, 16, [1, 3, 1, 13, 27, 49]), (6, 19, [1, 1, 1, 15, 7, 5]), (6, 22, [1, 3, 1, 15, 13, 25]), (6, 25, [1, 1, 5, 5, 19, 61]),
              (7, 1, [1, 3, 7, 11, 23, 15, 103]), (7, 4, [1, 3, 7, 13, 13, 15, 69]), (7, 7, [1, 1, 3, 13, 7, 35, 63]),
              (7, 8, [1, 3, 5, 9, 1, 25, 53]), (7, 14, [1, 3, 1, 13, 9, 35, 107]), (7, 19, [1, 3, 1, 5, 27, 61, 31]),
              (7, 21, [1, 1, 5, 11, 19, 41, 61]), (7, 28, [1, 3, 5, 3, 3, 13, 69]), (7, 31, [1, 1, 7, 13, 1, 19, 1]),
              (7, 32, [1, 3, 7, 5, 13, 19, 59]), (7, 37, [1, 1, 3, 9, 25, 29, 41]), (7, 41, [1, 3, 5, 13, 23, 1, 55]),
              (7, 42, [1, 3, 7, 3, 13, 59, 17]), (7, 50, [1, 3, 1, 3, 5, 53, 69]), (7, 55, [1, 1, 5, 5, 23, 33, 13]),
              (7, 56, [1, 1, 7, 7, 1, 61, 123]), (7, 59, [1, 1, 7, 9, 13, 61, 49]), (7, 62, [1, 3, 3, 5, 3, 55, 33]),
              (8, 14, [1, 3, 1, 15, 31, 13, 49, 245]), (8, 21, [1, 3, 5, 15, 31, 59, 63, 97]), (8, 22, [1, 3, 1, 11, 11, 11, 77, 249]),
              (8, 38, [1, 3, 1, 11, 27, 43, 71, 9]), (8, 47, [1, 1, 7, 15, 21, 11, 81, 45]), (8, 49, [1, 3, 7, 3, 25, 31, 65, 79]),
              (8, 50, [1, 3, 1, 1, 19, 11, 3, 205]), (8, 52, [1, 1, 5, 9, 19, 21, 29, 157]), (8, 56, [1, 3, 7, 11, 1, 33, 89, 185]),
              (8, 67, [1, 3, 3, 3, 15, 9, 79, 71]), (8, 70, [1, 3, 7, 11, 15, 39, 119, 27]), (8, 84, [1, 1, 3, 1, 11, 31, 97, 225]),
              (8, 97, [1, 1, 1, 3, 23, 43, 57, 177]), (8, 103, [1, 3, 7, 7, 17, 17, 37, 71]), (8, 115, [1, 3, 1, 5, 27, 63, 123, 213]),
              (8, 122, [1, 1, 3, 5, 11, 43, 53, 133]), (9, 8, [1, 3, 5, 5, 29, 17, 47, 173, 479]), (9, 13, [1, 3, 3, 11, 3, 1, 109, 9, 69]),
              (9, 16, [1, 1, 1, 5, 17, 39, 23, 5, 343]), (9, 22, [1, 3, 1, 5, 25, 15, 31, 103, 499]),
              (9, 25, [1, 1, 1, 11, 11, 17, 63, 105, 183]), (9, 44, [1, 1, 5, 11, 9, 29, 97, 231, 363]),
              (9, 47, [1, 1, 5, 15, 19, 45, 41, 7, 383]), (9, 52, [1, 3, 7, 7, 31, 19, 83, 137, 221]),
              (9, 55, [1, 1, 1, 3, 23, 15, 111, 223, 83]), (9, 59, [1, 1, 5, 13, 31, 15, 55, 25, 161]),
              (9, 62, [1, 1, 3, 13, 25, 47, 39, 87, 257])]


def sobol_points(d, n):
    """first n points of dimension d (1-based) of the unscrambled Sobol sequence"""
    L = 30
    if d == 1:
        V = [1 << (L - 1 - i) for i in range(L)]
    else:
        s, a, m = SOBOL_POLY[d]
        m = list(m)
        for i in range(s, L):
            v = m[i - s] ^ (m[i - s] << s)
            for k in range(1, s):
                v ^= ((a >> (s - 1 - k)) & 1) * (m[i - k] << k)
            m.append(v)
        V = [m[i] << (L - 1 - i) for i in range(L)]
    x, out = 0, []
    for i in range(n):
        out.append(Fraction(x, 1 << L))
        c = 0
        k = i
        while k & 1:
            k >>= 1
            c += 1
        x ^= V[c]
    return out


class SobolEngine:
    def __init__(self, dim, scramble=False, seed=None):
        self.dim, self.pos = dim, 0


class AbsLFSR:
    count = 0

    def __init__(self, it, kw):
        self.it = it
        AbsLFSR.count += 1
        self.n = it.fresh_n
        it.fresh_n += 1
        self.step = 0
        self.width = kw.get("width")


class Lib:
    def __init__(self, it):
        self.it = it
        self.object_class = Class("object", [], {}, lib=True)
        self.builtins = {}
        self.mk_builtins()
        self.classes = {"Enum": Class("Enum", [self.object_class], {}, lib=True)}
        self.mk_nn()

    # ------------------------------------------------------------------ builtins
    def mk_builtins(self):
        it = self.it
        B = self.builtins

        def b(name):
            def deco(f):
                B[name] = PyFn(name, f)
                return f
            return deco

        @b("len")
        def _(it, x):
            if isinstance(x, Tensor):
                if not x.shape:
                    raise AbsRaise("TypeError", "len() of a 0-d tensor")
                return x.shape[0]
            if isinstance(x, (list, tuple, dict, str, range, set)):
                return len(x)
            if isinstance(x, Opaque) and hasattr(x, "length"):
                return x.length
            if isinstance(x, NdArr):
                return len(x.vals)
            if isinstance(x, Class) and "__members__" in x.d:
                return len(x.d["__members__"])
            if isinstance(x, Obj):
                f, c = x.cls.find("__len__")
                if f is not None:
                    return it.call(Bound(f, x), [], {})
            if not (x is None or is_scalar(x)):
                raise Unmodelled("len() of %r" % (x,))
            raise AbsRaise("TypeError", "object of type %r has no len()" % type(x).__name__)

        @b("range")
        def _(it, *a):
            a = [self.tensor_index(x) if isinstance(x, Tensor) else x for x in a]
            for x in a:
                if isinstance(x, Sym):
                    raise Unmodelled("symbolic range")
                if not isinstance(x, int):
                    raise AbsRaise("TypeError", "'%s' object cannot be interpreted as an integer" % type(x).__name__)
            if len(a) == 3 and a[2] == 0:
                raise AbsRaise("ValueError", "range() arg 3 must not be zero")
            r = range(*a)
            if len(r) > 100000:
                raise Unmodelled("huge range")
            return r

        @b("int")
        def _(it, x=0, base=None):
            if isinstance(x, Tensor):
                x = self.item(x)
            if isinstance(x, Sym):
                return mk_sym(T.trunc(x.p), "int")
            if isinstance(x, (int, float, str)):
                try:
                    return int(x) if base is None else int(x, base)
                except (ValueError, OverflowError) as e:
                    raise AbsRaise(type(e).__name__, str(e))
            raise AbsRaise("TypeError", "int() argument")

        @b("float")
        def _(it, x=0.0):
            if isinstance(x, Tensor):
                x = self.item(x)
            if isinstance(x, Sym):
                return mk_sym(x.p, "float")
            if isinstance(x, (int, float, str)):
                try:
                    return float(x)
                except ValueError as e:
                    raise AbsRaise("ValueError", str(e))
            raise AbsRaise("TypeError", "float() argument")

        @b("bool")
        def _(it, x=False):
            if isinstance(x, Sym):
                return mk_sym(tobit(x.p), "bool")
            return it.truth(x)

        @b("str")
        def _(it, x=""):
            return self.to_str(x)

        @b("repr")
        def _(it, x):
            return self.to_str(x)

        @b("list")
        def _(it, x=()):
            return ListV(it.iterate(x))

        @b("tuple")
        def _(it, x=()):
            return tuple(it.iterate(x))

        @b("set")
        def _(it, x=()):
            return set(it.iterate(x))

        @b("frozenset")
        def _(it, x=()):
            return frozenset(it.iterate(x))

        @b("dict")
        def _(it, *a, **k):
            d = DictV()
            d.owner = it.owner
            if a:
                if isinstance(a[0], dict):
                    d.update(a[0])
                else:
                    for p in it.iterate(a[0]):
                        x, y = it.iterate(p)
                        d[x] = y
            d.update(k)
            return d

        @b("type")
        def _(it, x):
            return self.type_of(x)

        @b("isinstance")
        def _(it, x, c):
            return self.isinstance(x, c)

        @b("issubclass")
        def _(it, x, c):
            cs = c if isinstance(c, tuple) else (c,)
            cs = [self.as_class(k) for k in cs]
            return isinstance(x, Class) and any(x.issub(k) for k in cs if isinstance(k, Class))

        @b("hasattr")
        def _(it, x, n):
            try:
                it.getattr(x, n)
                return True
            except AbsRaise as e:
                if e.etype == "AttributeError":
                    return False
                raise

        @b("getattr")
        def _(it, x, n, *d):
            try:
                return it.getattr(x, n)
            except AbsRaise as e:
                if e.etype == "AttributeError" and d:
                    return d[0]
                raise

        @b("setattr")
        def _(it, x, n, v):
            it.setattr(x, n, v)

        @b("delattr")
        def _(it, x, n):
            if isinstance(x, Obj):
                x.a.pop(n, None)

        def mm(name):
            def f(it, *a, key=None, default=None):
                if len(a) == 1:
                    if isinstance(a[0], Tensor):
                        a = it.iterate(a[0])
                    else:
                        a = it.iterate(a[0])
                if not a:
                    if default is not None:
                        return default
                    raise AbsRaise("ValueError", "%s() arg is an empty sequence" % name)
                if key is not None:
                    ks = [it.call(key, [x], {}) for x in a]
                    best = 0
                    for i in range(1, len(a)):
                        if it.truth(it.compare("Gt" if name == "max" else "Lt", ks[i], ks[best])):
                            best = i
                    return a[best]
                if any(isinstance(x, Sym) for x in a) and all(is_scalar(x) for x in a):
                    k = max((skind(x) for x in a), key=["bool", "int", "float"].index)
                    r = sp(a[0])
                    for x in a[1:]:
                        r = (T.pmax if name == "max" else T.pmin)(r, sp(x))
                    return mk_sym(r, k)
                best = a[0]
                for x in a[1:]:
                    if it.truth(it.compare("Gt" if name == "max" else "Lt", x, best)):
                        best = x
                return best
            return f
        B["max"] = PyFn("max", mm("max"))
        B["min"] = PyFn("min", mm("min"))

        @b("sum")
        def _(it, x, start=0):
            r = start
            for v in it.iterate(x):
                r = it.binop("Add", r, v)
            return r

        @b("abs")
        def _(it, x):
            if isinstance(x, Tensor):
                return call_op("abs", [x], {})
            if isinstance(x, Sym):
                return mk_sym(T.pabs(x.p), x.kind)
            if not is_scalar(x):
                raise AbsRaise("TypeError", "bad operand type for abs()")
            return abs(x)

        @b("round")
        def _(it, x, n=None):
            if isinstance(x, Tensor):
                return f_round(x, n or 0)
            if isinstance(x, Sym):
                if n:
                    raise Unmodelled("round digits")
                return mk_sym(T.pround(x.p), "int" if n is None else "float")
            return round(x) if n is None else round(x, n)

        @b("pow")
        def _(it, a, b, m=None):
            if m is not None:
                if not all(isinstance(x, int) for x in (a, b, m)):
                    raise Unmodelled("pow with a modulus")
                return pow(a, b, m)
            return it.binop("Pow", a, b)

        @b("divmod")
        def _(it, a, b):
            return (it.binop("FloorDiv", a, b), it.binop("Mod", a, b))

        @b("print")
        def _(it, *a, **k):
            for x in a:
                self.to_str(x)

        @b("enumerate")
        def _(it, x, start=0):
            if isinstance(x, (GenV, LazyV)):
                def body(g):
                    for i, v in enumerate(it.pull(x)):
                        g.yield_((i + start, v))
                return GenV(it, body)
            return IterV((i + start, v) for i, v in enumerate(it.iterate(x)))

        @b("zip")
        def _(it, *xs, **k):
            if len({id(x) for x in xs if isinstance(x, IterV)}) < sum(isinstance(x, IterV) for x in xs):
                raise Unmodelled("zip of one iterator with itself")
            if any(isinstance(x, (GenV, LazyV)) for x in xs):
                if k:
                    raise Unmodelled("strict zip of generators")

                def body(g):
                    for t in zip(*[it.pull(x) for x in xs]):
                        g.yield_(t)
                return GenV(it, body)
            v = [it.iterate(x) for x in xs]
            if k.get("strict") and len({len(x) for x in v}) > 1:
                raise AbsRaise("ValueError", "zip() arguments have different lengths")
            return IterV(zip(*v))

        @b("map")
        def _(it, f, *xs):
            return IterV(it.call(f, list(t), {}) for t in zip(*[it.iterate(x) for x in xs]))

        @b("filter")
        def _(it, f, xs):
            return IterV(x for x in it.iterate(xs) if it.truth(x if f is None else it.call(f, [x], {})))

        @b("reversed")
        def _(it, x):
            return IterV(reversed(it.iterate(x)))

        @b("sorted")
        def _(it, x, key=None, reverse=False):
            v = it.iterate(x)
            ks = [it.call(key, [q], {}) if key is not None else q for q in v]
            if any(isinstance(k, (Sym, Tensor)) for k in ks):
                raise Unmodelled("sorting symbolic values")
            return ListV(v[i] for i in sorted(range(len(v)), key=lambda i: ks[i], reverse=reverse))

        @b("any")
        def _(it, x):
            return any(it.truth(v) for v in it.iterate(x))

        @b("all")
        def _(it, x):
            return all(it.truth(v) for v in it.iterate(x))

        @b("callable")
        def _(it, x):
            return isinstance(x, (Func, PyFn, Class, Bound)) or isinstance(x, Obj) and x.cls.find("__call__")[0] is not None

        @b("id")
        def _(it, x):
            return id(x)

        @b("iter")
        def _(it, x, *sentinel):
            if sentinel:
                raise Unmodelled("iter() with a sentinel")
            if isinstance(x, IterV):
                return x
            if isinstance(x, Obj) and x.cls.find("__iter__")[0] is not None:
                return it.call(Bound(x.cls.find("__iter__")[0], x), [], {})
            return IterV(it.iterate(x))

        @b("next")
        def _(it, x, *default):
            if isinstance(x, Obj):
                f, c = x.cls.find("__next__")
                if f is not None:
                    return it.call(Bound(f, x), [], {})
            if isinstance(x, (GenV, LazyV)):
                ok, v = x.resume()
                if ok:
                    return v
                if default:
                    return default[0]
                raise AbsRaise("StopIteration", "", ExcV(EXC["StopIteration"], (x.value,) if isinstance(x, GenV) and x.value is not None else ()))
            if not isinstance(x, IterV):
                raise Unmodelled("next() of %r" % (x,))
            if x:
                return x.pop(0)
            if default:
                return default[0]
            raise AbsRaise("StopIteration", "")

        @b("vars")
        def _(it, x):
            return x.a

        for nm in ("bin", "hex", "oct", "chr", "ord"):
            def conv(nm):
                def f(it, x):
                    if isinstance(x, Tensor):
                        x = self.tensor_index(x)
                    if isinstance(x, Sym):
                        raise Unmodelled("%s of a symbolic value" % nm)
                    try:
                        return getattr(py_builtins, nm)(x)
                    except (TypeError, ValueError) as e:
                        raise AbsRaise(type(e).__name__, str(e))
                return f
            B[nm] = PyFn(nm, conv(nm))

        @b("format")
        def _(it, x, spec=""):
            if isinstance(x, (str, int, float)):
                try:
                    return format(x, spec)
                except ValueError as e:
                    raise AbsRaise("ValueError", str(e))
            return self.to_str(x)

        @b("slice")
        def _(it, *a):
            return slice(*a)

        B["object"] = self.object_class
        B["NotImplemented"] = NOTIMPL
        B["Ellipsis"] = Ellipsis
        B["complex"] = PyFn("complex", lambda it, *a: (_ for _ in ()).throw(Unmodelled("complex")))
        B["bytes"] = PyFn("bytes", lambda it, *a: b"")
        B["property"] = PyFn("property", lambda it, f: Prop(f))
        B["__name__"] = "__main__"
        B["open"] = PyFn("open", lambda it, *a, **k: (_ for _ in ()).throw(Unmodelled("open")))

    def type_of(self, x):
        if isinstance(x, Obj):
            return x.cls
        if isinstance(x, Tensor):
            return self.resolve("torch.nn.Parameter" if x.is_param else "torch.Tensor")
        if isinstance(x, bool):
            return self.builtins["bool"]
        if isinstance(x, Sym):
            return self.builtins[x.kind]
        for t, n in ((int, "int"), (float, "float"), (str, "str"), (list, "list"), (dict, "dict"), (tuple, "tuple"), (set, "set")):
            if isinstance(x, t):
                return self.builtins[n]
        if x is None:
            return Ext("types.NoneType")
        return Ext("type")

    def as_class(self, c):
        if isinstance(c, Ext) and c.path.startswith("torch.nn") and not c.path.endswith(".Parameter"):
            return self.ext_class(c.path)
        return c

    def isinstance(self, x, c):
        if isinstance(c, tuple):
            return any(self.isinstance(x, k) for k in c)
        c = self.as_class(c)
        if isinstance(c, Class):
            if isinstance(x, Obj):
                return x.cls.issub(c)
            if isinstance(x, ExcV):
                return x.cls.issub(c)
            return c is self.object_class
        if isinstance(c, PyFn) and hasattr(c, "pytype"):
            return isinstance(x, c.pytype)
        if isinstance(c, PyFn):
            n = c.name
            if n == "int":
                return isinstance(x, int) or isinstance(x, Sym) and x.kind in ("int", "bool")
            if n == "bool":
                return isinstance(x, bool) or isinstance(x, Sym) and x.kind == "bool"
            if n == "float":
                return isinstance(x, float) or isinstance(x, Sym) and x.kind == "float"
            t = {"str": str, "list": list, "tuple": tuple, "dict": dict, "set": set, "range": range, "slice": slice}.get(n)
            if t:
                return isinstance(x, t)
        if isinstance(c, Ext):
            if c.path in ("torch.Tensor", "torch.FloatTensor", "torch.tensor"):
                return isinstance(x, Tensor)
            if c.path == "torch.Size":
                return isinstance(x, Size)
            if c.path in ("torch.nn.Parameter", "torch.nn.parameter.Parameter"):
                return isinstance(x, Tensor) and x.is_param
            if c.path == "torch.dtype":
                return isinstance(x, DType)
            if c.path in ("numbers.Number", "numbers.Real"):
                return is_scalar(x)
            if c.path in ("numbers.Integral",):
                return isinstance(x, int)
            if c.path.startswith("collections.abc.") or c.path.startswith("typing."):
                n = c.path.rsplit(".", 1)[1]
                if n in ("Iterable", "Sequence", "Sized", "Collection"):
                    return isinstance(x, (list, tuple, str, dict, range, set)) and (n != "Sequence" or isinstance(x, (list, tuple, str, range)))
                if n in ("Mapping", "MutableMapping", "Dict"):
                    return isinstance(x, dict)
        raise Unmodelled("isinstance with %r" % (c,))

    def finish_enum(self, cls, st, mixin=None):
        """the class attributes of an Enum become its members"""
        if any(b is not self.classes["Enum"] and b is not self.object_class and b is not cls for b in cls.mro):
            raise Unmodelled("enum with mixins")
        mem = []
        for k, v in list(cls.d.items()):
            if k.startswith("_") or isinstance(v, (Func, StaticM, ClassM, Prop, PyFn)):
                continue
            same = [m for m in mem if type(m.a["value"] if isinstance(m, Obj) else m.value) is type(v) and (m.a["value"] if isinstance(m, Obj) else m) == v]
            if same:
                cls.d[k] = same[0]
                continue
            if isinstance(v, Sym) or v is AUTO:
                if v is not AUTO:
                    raise Unmodelled("symbolic enum value")
                v = len(mem) + 1
            if mixin is not None:
                if mixin == "str" and v is AUTO or not isinstance(v, (int, str)):
                    raise Unmodelled("enum value")
                o = (EnumInt if mixin == "int" else EnumStr)(v)
                o.name, o.value, o.ecls = k, v, cls
                mem.append(o)
                cls.d[k] = o
                continue
            o = Obj(cls)
            o.a.update(name=k, value=v, _name_=k, _value_=v)
            mem.append(o)
            cls.d[k] = o
        cls.d["__members__"] = mem

    def finish_dataclass(self, cls, st, opts):
        if set(opts) - {"frozen", "init", "repr", "eq", "slots", "kw_only", "order"} or opts.get("kw_only") or opts.get("init") is False or opts.get("order"):
            raise Unmodelled("dataclass options")
        fields = []
        for c in cls.mro[1:]:
            fields = [f for f in c.d.get("__fields__", []) if f not in fields] + fields
        own = [s for s in st.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation)]
        fields = fields + [s.target.id for s in own if s.target.id not in fields]
        cls.d["__fields__"] = fields
        it = self.it

        def default(n):
            v, c = cls.find(n)
            if isinstance(v, Opaque) and v.kind == "field":
                if v.factory is not None:
                    return True, it.call(v.factory, [], {})
                return v.has, v.default
            return (c is not None), v

        def init(it, o, *a, **k):
            if len(a) > len(fields):
                raise AbsRaise("TypeError", "__init__() takes %d positional arguments" % (len(fields) + 1))
            vals = dict(zip(fields, a))
            for n, v in k.items():
                if n not in fields or n in vals:
                    raise AbsRaise("TypeError", "__init__() got an unexpected keyword argument %r" % n)
                vals[n] = v
            for n in fields:
                if n not in vals:
                    has, v = default(n)
                    if not has:
                        raise AbsRaise("TypeError", "__init__() missing a required argument: %r" % n)
                    vals[n] = v
                o.a[n] = vals[n]
            pi, c = cls.find("__post_init__")
            if pi is not None:
                it.call(Bound(pi, o), [], {})

        def eq(it, o, p):
            if not isinstance(p, Obj) or p.cls is not o.cls:
                return False
            return all(it.truth(it.compare("Eq", o.a[n], p.a[n])) for n in fields)
        if "__init__" not in cls.d:
            cls.d["__init__"] = PyFn("__init__", init)
        if "__eq__" not in cls.d and opts.get("eq", True):
            cls.d["__eq__"] = PyFn("__eq__", eq)
        if opts.get("frozen"):
            def fr(it, o, n, v):
                raise AbsRaise("FrozenInstanceError", "cannot assign to field %r" % n)
            cls.d["__setattr__"] = PyFn("__setattr__", fr)

    def named_tuple_class(self, st, env, mod):
        names, defs = [], []
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if not isinstance(s, ast.AnnAssign):
                raise Unmodelled("NamedTuple with methods")
            names.append(s.target.id)
            if s.value is not None:
                defs.append(self.it.eval(s.value, env, mod))
        return self.py_namedtuple(st.name, names, defs)

    def py_namedtuple(self, name, names, defs=()):
        c = collections.namedtuple(name, names, defaults=defs)

        def mk(it, *a, **k):
            try:
                return c(*a, **k)
            except TypeError as e:
                raise AbsRaise("TypeError", str(e))
        f = PyFn(name, mk)
        f.pytype = c
        return f

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Obj):
            f, c = x.cls.find("__str__")
            if f is None or isinstance(f, PyFn):
                f, c = x.cls.find("__repr__")
            if isinstance(f, Func):
                return self.it.call(Bound(f, x), [], {})
            return "%s()" % x.cls.name
        if isinstance(x, ExcV):
            f, c = x.cls.find("__str__")
            if isinstance(f, Func):
                return self.it.call(f, [x], {})
            if x.cls.name == "KeyError" and len(x.args) == 1:
                return repr(x.args[0])
            return self.to_str(x.args[0]) if len(x.args) == 1 else self.to_str(x.args) if x.args else ""
        if isinstance(x, (Tensor, Sym)):
            return "<value>"
        if isinstance(x, DType):
            return repr(x)
        if isinstance(x, (list, tuple)):
            return "[" + ", ".join(self.to_str(v) for v in x) + "]"
        if isinstance(x, dict):
            return "{" + ", ".join("%s: %s" % (self.to_str(k), self.to_str(v)) for k, v in x.items()) + "}"
        return str(x)

    # ------------------------------------------------------------------ external names
    CONSTS = {"math.pi": math.pi, "math.e": math.e, "math.inf": inf, "numpy.pi": math.pi, "numpy.inf": inf, "torch.pi": math.pi, "torch.inf": inf,
              "typing.TYPE_CHECKING": False}

    def resolve(self, path):
        if path in self.CONSTS:
            return self.CONSTS[path]
        if path.startswith("torch.") and path.count(".") == 1:
            n = path[6:]
            if n in DT:
                return DT[n]
            if n in ("int", "float", "bool"):
                return DT[n]
        if path in ("torch.nn.Module", "torch.nn.modules.Module", "torch.nn.modules.module.Module"):
            return self.classes["Module"]
        if path == "torch.autograd.Function" or path == "torch.autograd.function.Function":
            return self.classes["Function"]
        if path.startswith("torch.nn.") and path.rsplit(".", 1)[1] in self.classes and ".functional" not in path and ".init" not in path:
            return self.classes[path.rsplit(".", 1)[1]]
        if path.startswith("typing.") or path.startswith("collections.abc"):
            return Ext(path)
        if path.startswith("torch.Tensor."):
            n = path[len("torch.Tensor."):]
            return PyFn("Tensor." + n, lambda it, s, *a, **k: it.call(it.getattr(s, n), list(a), k))
        if path.startswith("functools."):
            n = path.split(".")[1]
            if n == "partial":
                return PyFn("partial", lambda it, f, *a, **k: PyFn("partial", lambda it2, *b, **k2: it.call(f, list(a) + list(b), {**k, **k2})))
            if n == "reduce":
                def red(it, f, xs, *init):
                    v = it.iterate(xs)
                    r = init[0] if init else v.pop(0)
                    for x in v:
                        r = it.call(f, [r, x], {})
                    return r
                return PyFn("reduce", red)
        return Ext(path)

    def ext_class(self, path):
        v = self.resolve(path)
        if isinstance(v, Class):
            return v
        if path in ("abc.ABC",):
            return self.object_class
        if path == "enum.Enum":
            return self.classes["Enum"]
        raise Unmodelled("base class " + path)

    def call_ext(self, path, args, kw):
        it = self.it
        top = path.split(".")[0]
        if top == "torch":
            return self.call_torch(path, args, kw)
        if top == "math":
            return self.call_math(path[5:], args, kw)
        if top == "numpy":
            return self.call_numpy(path[6:], args, kw)
        if top == "copy":
            n = path.split(".")[-1]
            return self.copy(args[0], n == "deepcopy", {})
        if top == "pylfsr":
            if path == "pylfsr.LFSR":
                return self.mk_lfsr(args, kw)
        if top == "random":
            it.event("random", source=path, kwargs=sorted(kw))
            return self.rand_py(path, args)
        if top == "itertools":
            n = path.split(".")[-1]
            f = getattr(itertools, n, None)
            if n in ("product", "chain", "combinations", "permutations", "zip_longest"):
                rep = kw.get("repeat", 1)
                return ListV(itertools.product(*[it.iterate(a) for a in args], repeat=rep) if n == "product" else f(*[it.iterate(a) for a in args[:1]] + list(args[1:])) if n not in ("chain", "zip_longest") else itertools.zip_longest(*[it.iterate(a) for a in args], fillvalue=kw.get("fillvalue")) if n != "chain" else itertools.chain(*[it.iterate(a) for a in args]))
            if n == "repeat" and len(args) == 2:
                return IterV([args[0]] * args[1])
            if n == "accumulate" and len(args) <= 2 and not kw:
                out = []
                for v in it.iterate(args[0]):
                    out.append(v if not out else it.binop("Add", out[-1], v) if len(args) < 2 else it.call(args[1], [out[-1], v], {}))
                return IterV(out)
            if n == "starmap":
                return IterV(it.call(args[0], it.iterate(t), {}) for t in it.iterate(args[1]))
            if n == "count":
                st = [args[0] if args else kw.get("start", 0), args[1] if len(args) > 1 else kw.get("step", 1)]

                def cnt():
                    v = st[0]
                    st[0] = it.binop("Add", v, st[1])
                    return v
                return LazyV(cnt)
            if n == "cycle":
                vals = it.iterate(args[0])
                if vals:
                    pos = [0]

                    def cyc():
                        v = vals[pos[0] % len(vals)]
                        pos[0] += 1
                        return v
                    return LazyV(cyc)
            if n == "repeat" and len(args) == 1 and not kw:
                return LazyV(lambda: args[0])
            if n == "takewhile":
                def tw(g):
                    for v in it.pull(args[1]):
                        if not it.truth(it.call(args[0], [v], {})):
                            return
                        g.yield_(v)
                return GenV(it, tw)
            if n == "islice" and isinstance(args[0], IterV) and len(args) == 2 and isinstance(args[1], int):
                def sl(g):
                    if args[1] <= 0:
                        return
                    for i, v in enumerate(it.pull(args[0])):
                        g.yield_(v)
                        if i + 1 >= args[1]:
                            return
                return GenV(it, sl)
            if n == "pairwise":
                v = it.iterate(args[0])
                return IterV(zip(v, v[1:]))
            if n == "groupby":
                v = it.iterate(args[0])
                kf = args[1] if len(args) > 1 else kw.get("key")
                out = []
                for x in v:
                    q = x if kf is None else it.call(kf, [x], {})
                    if out and it.truth(it.compare("Eq", out[-1][0], q)):
                        out[-1][1].append(x)
                    else:
                        out.append((q, ListV([x])))
                return IterV((a, IterV(g)) for a, g in out)
            if n == "islice" and not isinstance(args[0], IterV) and all(x is None or isinstance(x, int) for x in args[1:]):
                return IterV(itertools.islice(it.iterate(args[0]), *args[1:]))
        if top == "operator":
            n = path.split(".")[-1]
            m = {"add": "Add", "sub": "Sub", "mul": "Mult", "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor", "truediv": "Div"}.get(n)
            if m:
                return it.binop(m, *args)
            m = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.get(n)
            if m:
                return it.compare(m, *args)
            m = {"neg": "USub", "invert": "Invert", "not_": "Not"}.get(n)
            if n in ("floordiv", "mod", "pow", "lshift", "rshift", "matmul"):
                return it.binop({"floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "lshift": "LShift", "rshift": "RShift", "matmul": "MatMult"}[n], *args)
            if n == "getitem":
                return it.getitem(*args)
            if n == "itemgetter" and len(args) == 1:
                return PyFn(n, lambda it, o: it.getitem(o, args[0]))
            if n == "itemgetter":
                return PyFn(n, lambda it, o: tuple(it.getitem(o, a) for a in args))
            if n == "attrgetter" and len(args) == 1 and "." not in args[0]:
                return PyFn(n, lambda it, o: it.getattr(o, args[0]))
            if n == "methodcaller":
                return PyFn(n, lambda it, o: it.call(it.getattr(o, args[0]), list(args[1:]), kw))
        if top == "warnings":
            return None
        if path == "logging.getLogger":
            return Opaque("logger")
        if top == "logging" and path.count(".") == 1:
            for x in args:
                self.to_str(x)
            return None
        if top == "os" and path in ("os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext") and all(isinstance(x, str) for x in args):
            return getattr(py_os.path, path.split(".")[2])(*args)
        if top == "typing":
            return args[0] if args else None
        if top in ("time", "os", "sys", "datetime", "secrets", "uuid"):
            it.event("ambient", source=path)
            return Sym(it.fresh("ambient"), "float")
        if path == "collections.OrderedDict":
            return it.call(self.builtins["dict"], args, kw)
        if path == "collections.Counter" and len(args) <= 1 and not kw:
            d = DictV()
            d.owner = it.owner
            for v in (it.iterate(args[0]) if args else ()):
                if isinstance(v, (Sym, Tensor)):
                    raise Unmodelled("Counter of symbolic values")
                d[v] = d.get(v, 0) + 1
            d.default = PyFn("int", lambda it: 0)
            d.counter = True
            return d
        if path == "collections.defaultdict":
            d = it.call(self.builtins["dict"], args[1:], kw)
            d.default = args[0] if args else None
            return d
        if path == "collections.deque":
            d = DequeV(it.iterate(args[0]) if args else ())
            d.owner = it.owner
            d.maxlen = args[1] if len(args) > 1 else kw.get("maxlen")
            if d.maxlen is not None and not isinstance(d.maxlen, int):
                raise Unmodelled("deque maxlen")
            if d.maxlen is not None and len(d) > d.maxlen:
                del d[:len(d) - d.maxlen]
            return d
        if path == "collections.namedtuple":
            f = args[1]
            return self.py_namedtuple(args[0], f.replace(",", " ").split() if isinstance(f, str) else [x for x in it.iterate(f)], tuple(it.iterate(kw["defaults"])) if kw.get("defaults") is not None else ())
        if path == "dataclasses.field":
            return Opaque("field", has="default" in kw, default=kw.get("default"), factory=kw.get("default_factory"))
        if path in ("dataclasses.replace", "dataclasses.asdict", "dataclasses.astuple") and isinstance(args[0], Obj) and args[0].cls.find("__fields__")[0] is not None:
            fs = args[0].cls.find("__fields__")[0]
            if path.endswith("replace"):
                return it.call(args[0].cls, [], {**{n: args[0].a[n] for n in fs}, **kw})
            r = DictV((n, self.copy(args[0].a[n], True, {})) for n in fs)
            return r if path.endswith("asdict") else tuple(r.values())
        if path == "enum.auto":
            return AUTO
        raise Unmodelled("external call " + path)

    def rand_py(self, path, args):
        n = path.split(".")[-1]
        it = self.it
        if n in ("randint", "randrange"):
            lo, hi = (args[0], args[1]) if n == "randint" else ((0, args[0] - 1) if len(args) == 1 else (args[0], args[1] - 1))
            return Sym(it.fresh("rand", lo, hi, True), "int")
        if n == "random":
            return Sym(it.fresh("rand", 0, 1), "float")
        if n == "seed":
            it.event("ambient", source=path)
            return None
        if n == "choice":
            return self.it.getitem(args[0], Sym(it.fresh("rand", 0, len(args[0]) - 1, True), "int"))
        if n == "shuffle":
            raise Unmodelled("shuffle")
        raise Unmodelled(path)

    # ------------------------------------------------------------------ math / numpy / lfsr
    def call_math(self, n, args, kw):
        a = []
        for x in args:
            if isinstance(x, Tensor):
                x = self.item(x)
            a.append(x)
        if n == "prod":
            r = kw.get("start", 1)
            for v in self.it.iterate(a[0]):
                r = self.it.binop("Mult", r, v)
            return r
        if any(isinstance(x, Sym) for x in a):
            x = sp(a[0])
            if n == "floor":
                return mk_sym(T.floor(x), "int")
            if n == "ceil":
                return mk_sym(T.ceil(x), "int")
            if n == "trunc":
                return mk_sym(T.trunc(x), "int")
            if n == "log2":
                return mk_sym(log2_(x), "float")
            if n == "sqrt":
                return mk_sym(T.sqrt_(x), "float")
            if n == "fabs":
                return mk_sym(T.pabs(x), "float")
            if n == "pow":
                return self.it.binop("Pow", a[0], a[1])
            if n == "exp":
                return mk_sym(T.fn("exp", (x,)), "float")
            raise Unmodelled("math." + n)
        f = getattr(math, n, None)
        if f is None:
            raise AbsRaise("AttributeError", "module 'math' has no attribute %r" % n)
        try:
            return f(*a, **kw)
        except (ValueError, OverflowError) as e:
            raise AbsRaise(type(e).__name__, str(e))
        except TypeError as e:
            raise AbsRaise("TypeError", str(e))

    def call_numpy(self, n, args, kw):
        it = self.it
        if n.startswith("random."):
            it.event("random", source="numpy." + n, kwargs=sorted(kw))
            m = n.split(".")[-1]
            if m == "randint":
                lo, hi = args[0], (args[1] if len(args) > 1 else kw.get("high"))
                size = args[2] if len(args) > 2 else kw.get("size")
                if hi is None:
                    lo, hi = 0, lo
                if isinstance(hi, Sym) or isinstance(lo, Sym):
                    raise Unmodelled("randint bound")
                if hi <= lo:
                    raise AbsRaise("ValueError", "low >= high")
                mk = lambda: mk_sym(it.fresh("rand", lo, hi - 1, True), "int")
                if size is None:
                    return mk()
                if isinstance(size, tuple):
                    size = size[0]
                return NdArr([mk() for _ in range(size)])
            if m == "seed":
                it.event("ambient", source="numpy." + n)
                return None
            if m in ("permutation",):
                k = args[0]
                return NdArr([Sym(it.fresh("rand", 0, k - 1, True), "int") for _ in range(k)])
            if m in ("rand", "random"):
                return Sym(it.fresh("rand", 0, 1), "float")
            if m == "choice":
                return it.getitem(args[0], Sym(it.fresh("rand", 0, len(args[0]) - 1, True), "int"))
            raise Unmodelled("numpy." + n)
        if n in ("sum", "mean", "abs", "absolute", "sin", "cos", "tan", "round", "around", "rint", "minimum", "maximum", "power", "log", "sign", "max", "min", "clip", "square", "gcd", "amax", "amin") \
                and not kw and all(isinstance(x, (int, float)) or isinstance(x, NdArr) and all(isinstance(q, (int, float)) for q in x.vals) or isinstance(x, (list, tuple)) and all(isinstance(q, (int, float)) for q in x) for x in args):
            fl_ = [list(x.vals) if isinstance(x, NdArr) else x for x in args]
            x = fl_[0]
            vec = isinstance(x, (list, tuple))
            if vec and len(args) == 1 and n in ("sum", "max", "min", "amax", "amin", "mean"):
                return {"sum": sum, "max": max, "amax": max, "min": min, "amin": min, "mean": lambda q: sum(q) / len(q)}[n](x)
            g = {"abs": abs, "absolute": abs, "sin": math.sin, "cos": math.cos, "tan": math.tan, "rint": lambda q: float(round(q)), "log": math.log, "sign": lambda q: (q > 0) - (q < 0),
                 "round": lambda q, d=0: round(q, d), "around": lambda q, d=0: round(q, d), "square": lambda q: q * q,
                 "minimum": min, "maximum": max, "power": pow, "clip": lambda q, a, b: min(max(q, a), b), "gcd": math.gcd}.get(n)
            if g and not any(isinstance(q, (list, tuple)) for q in fl_[1:]):
                try:
                    return NdArr([g(q, *fl_[1:]) for q in x]) if vec else g(*fl_)
                except (ValueError, ZeroDivisionError):
                    raise Unmodelled("numpy." + n)
        if n in ("zeros", "ones", "full") and isinstance(args[0], int) and "dtype" not in kw:
            return NdArr([0.0 if n == "zeros" else 1.0 if n == "ones" else args[1]] * args[0])
        if n == "linspace" and len(args) == 3 and all(isinstance(x, (int, float)) for x in args) and args[2] > 1:
            return NdArr([args[0] + (args[1] - args[0]) * q / (args[2] - 1) for q in range(args[2])])
        if n in ("log2", "ceil", "floor", "sqrt", "prod", "exp"):
            r = self.call_math(n, args, kw)
            if n in ("ceil", "floor") and isinstance(r, int):
                return float(r)
            return r
        if n in ("array", "asarray"):
            return NdArr(it.iterate(args[0]))
        if n == "arange":
            return NdArr(range(*args))
        raise Unmodelled("numpy." + n)

    def mk_lfsr(self, args, kw):
        it = self.it
        o = Opaque("lfsr")
        poly = kw.get("fpoly", args[0] if args else None)
        o.poly = poly
        o.id = "lfsr%d" % it.fresh_n
        it.fresh_n += 1
        o.step = 0
        init = kw.get("initstate", args[1] if len(args) > 1 else "ones")
        o.width = getattr(poly, "width", None)
        if isinstance(init, str) and init in ("random", "rand"):
            it.event("random", source="pylfsr.LFSR", kwargs=sorted(kw))
            it.event("mayraise", what="ValueError: the random initial state of the LFSR can be all-zero")
        elif not isinstance(init, str):
            bits = []
            for v in it.iterate(init):
                bits.append(v.p if isinstance(v, Sym) else P(v))
            from .compare import is_zero
            tot = ZERO
            for b in bits:
                tot = T.add(tot, b)
            z, w = is_zero(T.eq0(tot), 300000)
            if z is None:
                it.event("mayraise_unknown", what="LFSR initial state")
            elif z is False:
                it.event("mayraise", what="ValueError: the initial state of the LFSR can be all-zero")
        return o

    # ------------------------------------------------------------------ copy
    def copy(self, x, deep, memo):
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, Tensor):
            if not deep:
                r = view_of(x, x.shape, x.strides, x.off)
                return r
            r = Tensor(Storage(list(x.st.data)), x.shape, x.dtype, x.strides, x.off, x.rg, x.leaf, x.is_param)
            memo[id(x)] = r
            return r
        if isinstance(x, dict):
            r = DictV()
            r.owner = self.it.owner
            memo[id(x)] = r
            for k, v in x.items():
                r[k] = self.copy(v, deep, memo) if deep else v
            return r
        if isinstance(x, list):
            r = ListV(self.copy(v, deep, memo) if deep else v for v in x)
            return r
        if isinstance(x, tuple):
            return tuple(self.copy(v, deep, memo) if deep else v for v in x)
        if isinstance(x, Obj):
            r = Obj(x.cls)
            memo[id(x)] = r
            r.registered = set(x.registered)
            r.inited = x.inited
            for k, v in x.a.items():
                r.a[k] = self.copy(v, deep, memo) if deep else v
            return r
        return x

    # ------------------------------------------------------------------ torch functions
    def call_torch(self, path, args, kw):
        it = self.it
        n = path[6:]
        for p in ("nn.functional.", "special.", "ops.aten."):
            if n.startswith(p):
                return self.call_F(n[len(p):], args, kw)
        if n.startswith("nn.init."):
            return self.call_init(n[8:], args, kw)
        if n in ("nn.Parameter", "nn.parameter.Parameter"):
            return self.mk_param(*args, **kw)
        if n in ("no_grad", "inference_mode", "autograd.no_grad"):
            return CtxMgr(False)
        if n in ("enable_grad",):
            return CtxMgr(True)
        if n in ("set_grad_enabled",):
            return CtxMgr(args[0])
        if n in ("cuda.amp.autocast", "autocast", "amp.autocast", "autograd.profiler.profile"):
            return CtxMgr(None)
        if n == "device":
            return Device()
        if n == "get_default_dtype":
            return float32
        if n in ("cuda.is_available", "backends.cuda.is_built"):
            return False
        if n in ("is_tensor",):
            return isinstance(args[0], Tensor)
        if n in ("is_floating_point",):
            return args[0].dtype.kind == "f"
        if n in ("is_grad_enabled",):
            return Ctx.grad_enabled
        if n in ("Tensor", "FloatTensor"):
            return self.mk_Tensor(args, float32)
        if "torch." + n in TNAMES:
            return self.mk_Tensor(args, TNAMES["torch." + n])
        if n in ("tensor", "as_tensor", "asarray", "from_numpy"):
            x = args[0] if args else kw["data"]
            dt = dtype_of(kw.get("dtype"))
            if n != "tensor" and isinstance(x, Tensor):
                return x if dt is None or dt is x.dtype else self.cast(x, dt)
            r = tensor_from(x, dt)
            if kw.get("requires_grad"):
                r.rg = True
            return r
        if n in ("zeros", "ones", "empty", "rand", "randn", "full"):
            kw = dict(kw)
            dt = dtype_of(kw.pop("dtype", None))
            out = kw.pop("out", None)
            size = kw.pop("size", None)
            fv = None
            if n == "full":
                fv = kw.pop("fill_value", None)
                if size is None:
                    size, args = args[0], args[1:]
                if fv is None:
                    fv = args[0]
                sh = shape_args((size,) if isinstance(size, (tuple, list)) else (size,))
            else:
                sh = shape_args(args if size is None else ((size,) if isinstance(size, (tuple, list)) else (size,)))
            dt = dt or (as_t(fv).dtype if n == "full" else float32)
            r = self.filled(n, sh, dt, fv)
            if kw.get("requires_grad"):
                r.rg = True
            if out is not None:
                return set_out(out, r, n)
            return r
        if n in ("zeros_like", "ones_like", "empty_like", "rand_like", "randn_like", "full_like"):
            x = args[0] if args else kw["input"]
            if not isinstance(x, Tensor):
                raise AbsRaise("TypeError", "%s(): argument 'input' must be Tensor, not %s" % (n, type(x).__name__))
            dt = dtype_of(kw.get("dtype")) or x.dtype
            fv = None
            if n == "full_like":
                fv = args[1] if len(args) > 1 else kw["fill_value"]
            r = self.filled(n[:-5], x.shape, dt, fv)
            if kw.get("requires_grad"):
                r.rg = True
            return r
        if n in ("randint", "randperm", "normal", "bernoulli", "multinomial", "rand", "poisson", "randint_like"):
            it.event("random", source=path, kwargs=sorted(kw))
            if n == "randperm":
                k = args[0]
                if isinstance(k, Sym):
                    raise Unmodelled("randperm")
                dt = dtype_of(kw.get("dtype")) or int64
                return new([it.fresh("randperm", 0, k - 1, True) for _ in range(k)], (k,), dt)
            if n == "randint":
                lo, hi, sh = (0, args[0], args[1]) if len(args) == 2 else args[:3]
                return new([it.fresh("rand", lo, hi - 1, True) for _ in range(numel(sh))], sh, dtype_of(kw.get("dtype")) or int64)
            if n == "bernoulli":
                x = args[0]
                return new([it.fresh("rand", 0, 1, True) for _ in range(x.numel())], x.shape, x.dtype)
            raise Unmodelled(path)
        if n in ("manual_seed", "seed", "cuda.manual_seed", "cuda.manual_seed_all", "random.manual_seed", "set_default_dtype", "set_default_tensor_type", "set_num_threads",
                 "use_deterministic_algorithms", "set_rng_state", "random.seed", "initial_seed"):
            it.event("ambient", source=path)
            return None
        if n == "arange":
            kw = dict(kw)
            dt = dtype_of(kw.pop("dtype", None))
            a = [self.item(x) if isinstance(x, Tensor) else x for x in args]
            for k in ("start", "end", "step"):
                if k in kw:
                    a.append(kw[k])
            if any(isinstance(x, Sym) for x in a):
                raise Unmodelled("symbolic arange")
            st, en, sp_ = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            vals = []
            k = 0
            while (Fraction(st) + k * Fraction(sp_) < Fraction(en)) if sp_ > 0 else (Fraction(st) + k * Fraction(sp_) > Fraction(en)):
                vals.append(P(Fraction(st) + k * Fraction(sp_)))
                k += 1
                if k > 100000:
                    raise Unmodelled("huge arange")
            src = float32 if any(isinstance(x, float) for x in a) else int64
            r = new(castl(vals, float32, dt or src), (len(vals),), dt or src)
            if kw.get("out") is not None:
                return set_out(kw["out"], r, "arange")
            return r
        if n == "linspace":
            s, e, k = args[:3]
            if k == 1:
                return new([sp(s)], (1,), float32)
            st = T.scale(T.sub(sp(e), sp(s)), Fraction(1, k - 1))
            return new([T.add(sp(s), T.scale(st, i)) for i in range(k)], (k,), dtype_of(kw.get("dtype")) or float32)
        if n == "eye":
            m = args[0]
            return new([ONE if i == j else ZERO for i in range(m) for j in range(m)], (m, m), float32)
        if n in ("cat", "concat", "concatenate", "stack", "hstack", "vstack"):
            kw = dict(kw)
            ts = args[0] if args else kw.get("tensors")
            dim = cdim(args[1] if len(args) > 1 else kw.get("dim", kw.get("axis", 0)))
            ts = it.iterate(ts)
            if n == "stack":
                r = TT.stack(ts, dim)
            elif n == "vstack":
                r = TT.cat([TT.reshape(t, (1, -1)) if len(t.shape) < 2 else t for t in ts], 0)
            elif n == "hstack":
                r = TT.cat(ts, 0 if len(ts[0].shape) == 1 else 1)
            else:
                r = TT.cat(ts, dim)
            if kw.get("out") is not None:
                return set_out(kw["out"], r, n, True, tuple(ts))
            return r
        if n == "broadcast_tensors":
            sh = bshape(*[a.shape for a in args])
            return tuple(TT.expand(a, sh) for a in args)
        if n == "meshgrid":
            raise Unmodelled("meshgrid")
        if n == "einsum":
            return f_einsum(args[0], *args[1:])
        if n == "result_type":
            return result_type(*args)
        if n == "promote_types":
            return TT.promote2(*args)
        if n == "iinfo":
            d = dtype_of(args[0])
            if d.kind == "f" or d.kind == "b":
                raise AbsRaise("TypeError", "torch.iinfo() requires an integer input type")
            lo, hi = d.rng or (-2 ** 63, 2 ** 63 - 1)
            return Opaque("finfo", min=lo, max=hi, bits=(hi - lo + 1).bit_length() - 1, dtype=d.name)
        if n == "finfo":
            d = dtype_of(args[0]) if args else float32
            if d.kind != "f":
                raise AbsRaise("TypeError", "torch.finfo() requires a floating point input type")
            if d is float32 or d is TT.float64:
                x = 3.4028234663852886e+38 if d is float32 else 1.7976931348623157e+308
                e = 2.0 ** -23 if d is float32 else 2.0 ** -52
                t = 2.0 ** -126 if d is float32 else 2.0 ** -1022
                return Opaque("finfo", min=-x, max=x, eps=e, tiny=t, smallest_normal=t, resolution=1e-6 if d is float32 else 1e-15, bits=32 if d is float32 else 64, dtype=d.name)
            raise Unmodelled(n)
        if n == "numel":
            return args[0].numel()
        if n == "Size":
            return Size(it.iterate(args[0]) if args else ())
        if n in ("quasirandom.SobolEngine",):
            kw = dict(kw)
            d = args[0] if args else kw.get("dimension")
            scr = args[1] if len(args) > 1 else kw.get("scramble", False)
            if not isinstance(d, int) or isinstance(d, bool):
                raise AbsRaise("TypeError", "SobolEngine dimension")
            if d < 1 or d > 21201:
                raise AbsRaise("ValueError", "Supported range of dimensionality for SobolEngine is [1, 21201]")
            if scr:
                it.event("random", source=path, kwargs=sorted(kw))
                raise Unmodelled("scrambled Sobol")
            return SobolEngine(d)
        if n == "softmax" or n == "log_softmax":
            raise Unmodelled(n)
        if n in OPS or n.endswith("_") and n[:-1] in OPS:
            if not args and "input" not in kw and n != "where":
                raise AbsRaise("TypeError", "%s(): missing input" % n)
            if args and not isinstance(args[0], Tensor) and n not in ("where", "result_type", "pow", "rsub", "bitwise_and", "bitwise_or", "bitwise_xor", "remainder", "sub", "add", "mul", "div", "subtract", "multiply", "divide", "true_divide"):
                raise AbsRaise("TypeError", "%s(): argument 'input' (position 1) must be Tensor, not %s" % (n, type(args[0]).__name__))
            if n in OPS:
                return call_op(n, args, kw)
            return it.call(it.getattr(args[0], n), list(args[1:]), kw)
        if args and isinstance(args[0], Tensor) or "input" in kw:
            a = list(args)
            k = dict(kw)
            if "input" in k:
                a.insert(0, k.pop("input"))
            out = k.pop("out", None)
            r = self.tensor_method(a[0], n, path)(it, *a[1:], **k)
            if out is not None:
                return set_out(out, r, n)
            return r
        raise Unmodelled("call of " + path)

    def filled(self, n, sh, dt, fv=None):
        it = self.it
        k = numel(sh)
        if n == "zeros":
            return new([ZERO] * k, sh, dt)
        if n == "ones":
            return new([ONE] * k, sh, dt)
        if n == "full":
            v = cast1(sp(self.item(fv) if isinstance(fv, Tensor) else fv), float32, dt)
            return new([v] * k, sh, dt)
        if n == "empty":
            if k > 200000:
                raise Unmodelled("huge tensor")
            return new([it.fresh("junk", isint=dt.kind != "f") for _ in range(k)], sh, dt)
        if n in ("rand", "randn"):
            it.event("random", source="torch." + n, kwargs=[])
            return new([it.fresh("rand", 0 if n == "rand" else -inf, 1 if n == "rand" else inf) for _ in range(k)], sh, dt)
        raise Unmodelled(n)

    def mk_Tensor(self, args, dt):
        if len(args) == 1 and isinstance(args[0], Tensor):
            if args[0].dtype is not dt:
                raise AbsRaise("TypeError", "expected %s" % dt)
            return view_of(args[0], args[0].shape, args[0].strides, args[0].off)
        if len(args) == 1 and isinstance(args[0], Size):
            return self.filled("empty", tuple(args[0]), dt)
        if len(args) == 1 and isinstance(args[0], (list, tuple)):
            r = tensor_from(args[0])
            return new(castl(r.get(), r.dtype, dt), r.shape, dt)
        if not args:
            return new([], (0,), dt)
        if any(isinstance(a, float) for a in args):
            raise AbsRaise("TypeError", "new(): data must be a sequence (got float)")
        return self.filled("empty", shape_args(args), dt)

    def mk_param(self, data=None, requires_grad=True):
        if data is None:
            data = new([], (0,), float32)
        if not isinstance(data, Tensor):
            raise AbsRaise("TypeError", "Parameter data must be a Tensor")
        if requires_grad and data.dtype.kind != "f":
            raise AbsRaise("RuntimeError", "Only Tensors of floating point and complex dtype can require gradients")
        r = Tensor(data.st, data.shape, data.dtype, data.strides, data.off, rg=bool(requires_grad), leaf=True, is_param=True)
        return r

    def call_init(self, n, args, kw):
        it = self.it
        t = args[0]
        v = None
        if n in ("zeros_",):
            v = [ZERO] * t.numel()
        elif n == "ones_":
            v = [ONE] * t.numel()
        elif n == "constant_":
            v = [sp(args[1])] * t.numel()
        elif n in ("normal_", "uniform_", "xavier_uniform_", "xavier_normal_", "kaiming_uniform_", "kaiming_normal_", "trunc_normal_", "orthogonal_"):
            it.event("random", source="torch.nn.init." + n, kwargs=sorted(kw), args=list(args[1:]), kw=dict(kw))
            v = [it.fresh("init") for _ in range(t.numel())]
        if v is None:
            raise Unmodelled("nn.init." + n)
        TT.write(t, v, n)
        return t

    def call_F(self, n, args, kw):
        it = self.it
        kw = dict(kw)
        if n == "linear":
            return f_linear(args[0], kw.get("weight", args[1] if len(args) > 1 else None), kw.get("bias", args[2] if len(args) > 2 else None))
        if n == "conv2d":
            return self.F_conv2d(*args, **kw)
        if n == "unfold":
            return f_unfold(*args, **kw)
        if n == "fold":
            return f_fold(*args, **kw)
        if n == "pad":
            return f_padf(*args, **kw)
        ip = kw.pop("inplace", False)
        if n == "hardtanh" or n == "hardtanh_":
            r = f_hardtanh(*args, **kw)
        elif n == "hardsigmoid":
            r = f_hardsigmoid(*args, **kw)
        elif n == "relu":
            r = OPS["relu"][0](args[0])
        elif n == "relu6":
            r = f_hardtanh(args[0], 0, 6)
        elif n == "threshold":
            th, v = args[1], args[2]
            r = ew(lambda x: T.ite(T.gt(x, P(th)), x, P(v)), (args[0],), args[0].dtype)
        elif n in OPS:
            return call_op(n, args, kw)
        elif n == "one_hot":
            raise Unmodelled("one_hot")
        elif n in ("mse_loss", "l1_loss"):
            d = f_sub(args[0], args[1])
            return f_mean(f_mul(d, d) if n == "mse_loss" else ew(T.pabs, (d,), d.dtype))
        else:
            raise Unmodelled("torch.nn.functional." + n)
        if ip or n.endswith("_"):
            return inplace(args[0], r, n)
        return r

    def F_conv2d(self, input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
        if padding == "same" or padding == "valid":
            raise Unmodelled("string padding")
        return TT.conv2d(input, weight, bias, stride, padding, dilation, groups)

    # ------------------------------------------------------------------ tensors
    def item(self, x):
        if x.numel() != 1:
            raise AbsRaise("RuntimeError", "a Tensor with %d elements cannot be converted to Scalar" % x.numel())
        return mk_scalar(x.get()[0], x.dtype)

    def tensor_index(self, x):
        if x.dtype.kind == "f" or x.numel() != 1:
            raise AbsRaise("TypeError", "only integer tensors of a single element can be converted to an index")
        v = self.item(x)
        return int(v) if isinstance(v, bool) else v

    def cast(self, x, dt):
        if dt is x.dtype:
            return x
        r = new(castl(x.get(), x.dtype, dt), x.shape, dt, x.rg)
        return r

    def tensor_attr(self, x, name):
        if name == "data":
            r = view_of(x, x.shape, x.strides, x.off)
            r.rg, r.leaf = False, True
            return r
        if name == "shape":
            return Size(x.shape)
        if name == "dtype":
            return x.dtype
        if name == "device":
            return Device()
        if name == "requires_grad":
            return x.rg
        if name == "is_leaf":
            return x.leaf
        if name == "grad":
            return None
        if name in ("T", "mT", "H"):
            n = len(x.shape)
            if name == "mT":
                return TT.transpose(x, -1, -2)
            return TT.permute(x, list(range(n))[::-1])
        if name == "ndim":
            return len(x.shape)
        if name == "is_cuda":
            return False
        if name == "grad_fn":
            return None if x.leaf else True
        if name == "__class__":
            return self.type_of(x)
        if name not in TENSOR_ATTRS:
            raise AbsRaise("AttributeError", "'Tensor' object has no attribute %r" % name)
        return PyFn("Tensor." + name, self.tensor_method(x, name, "Tensor." + name))

    TYPED = {"float": float32, "double": TT.float64, "half": TT.float16, "bfloat16": TT.bfloat16, "int": TT.int32, "long": int64,
             "short": TT.int16, "char": int8, "byte": TT.uint8, "bool": bool_}

    def tensor_method(self, x, name, path):
        it = self.it
        if name in self.TYPED:
            return lambda it, **k: self.cast(x, self.TYPED[name])
        if name in OPS and name not in ("where",):
            return lambda it, *a, **k: call_op(name, [x] + list(a), k)
        if name == "where":
            return lambda it, c, o: f_where(c, x, o)
        if name.endswith("_") and not name.endswith("__") and name[:-1] in OPS and OPS[name[:-1]][1]:
            def inp(it, *a, **k):
                if name[:-1] in ANYOUT:
                    r = call_op(name[:-1], [x] + list(a), k)
                    return inplace(x, r, name, True)
                return inplace(x, call_op(name[:-1], [x] + list(a), k), name)
            return inp
        m = getattr(self, "tm_" + name, None)
        if m is not None:
            return lambda it, *a, **k: m(x, *a, **k)
        dunder = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__and__": "BitAnd", "__or__": "BitOr", "__xor__": "BitXor", "__lshift__": "LShift", "__rshift__": "RShift"}
        if name in dunder:
            return lambda it, o: self.tbinop(dunder[name], x, o)
        if hasattr_torch(name):
            raise Unmodelled("tensor method " + name)
        raise AbsRaise("AttributeError", "'Tensor' object has no attribute %r" % name)

    def tm_masked_select(self, x, m):
        return TT.index_get(x, m)

    def tm_count_nonzero(self, x, dim=None):
        return f_sum(ew(tobit, (x,), x.dtype, bool_), dim)

    def tm_positive(self, x):
        return x

    def tm_norm(self, x, p=2, dim=None, keepdim=False, dtype=None):
        if p in (2, "fro", 2.0):
            return ew(T.sqrt_, (f_sum(f_mul(x, x), dim, keepdim),), x.dtype)
        if p == 1:
            return f_sum(OPS["abs"][0](x), dim, keepdim)
        raise Unmodelled("norm")

    def tm_isclose(self, x, o, rtol=1e-5, atol=1e-8, equal_nan=False):
        if x.dtype is not o.dtype:
            raise AbsRaise("RuntimeError", "dtype mismatch")
        return ew(lambda a, b: T.le(T.pabs(T.sub(a, b)), T.add(sp(atol), T.mul(sp(rtol), T.pabs(b)))), (x, o), x.dtype, bool_)

    def tm_allclose(self, x, o, rtol=1e-5, atol=1e-8, equal_nan=False):
        r = OPS["all"][0](self.tm_isclose(x, o, rtol, atol))
        return mk_sym(r.get()[0], "bool")

    def tm_atleast_1d(self, x):
        return x if x.shape else TT.reshape(x, (1,))

    def tm_atleast_2d(self, x):
        return x if len(x.shape) > 1 else TT.reshape(x, (1, -1))

    def tm_hypot(self, x, o):
        return ew(lambda a, b: T.sqrt_(T.add(T.mul(a, a), T.mul(b, b))), (x, o), result_type(x, o))

    def tm_storage_offset(self, x):
        return x.off

    def tm_nonzero(self, x, as_tuple=False):
        v = [tobit(q) for q in x.get()]
        if not all(q.is_const() for q in v):
            raise Unmodelled("nonzero of symbolic values")
        ix = [k for k in itertools.product(*[range(n) for n in x.shape])]
        ix = [k for k, q in zip(ix, v) if q.cval()]
        if as_tuple:
            return tuple(new([P(k[d]) for k in ix], (len(ix),), int64) for d in range(len(x.shape)))
        return new([P(d) for k in ix for d in k], (len(ix), len(x.shape)), int64)

    def tm_type(self, x, dtype=None, non_blocking=False):
        if dtype is None:
            return x.dtype.tname
        return self.cast(x, dtype_of(dtype))

    def tm_to(self, x, *a, **k):
        dt = dtype_of(k.get("dtype")) if k.get("dtype") is not None else None
        for v in a:
            if isinstance(v, DType) or isinstance(v, PyFn):
                dt = dtype_of(v)
            elif isinstance(v, Tensor):
                dt = v.dtype
        r = x if dt is None else self.cast(x, dt)
        if k.get("copy") and r is x:
            return clone(x)
        return r

    def tm_type_as(self, x, o):
        return self.cast(x, o.dtype)

    def tm_cpu(self, x):
        return x

    def tm_cuda(self, x, *a, **k):
        raise AbsRaise("RuntimeError", "no cuda")

    def tm_item(self, x):
        return self.item(x)

    def tm_tolist(self, x):
        def go(t):
            if not t.shape:
                return mk_scalar(t.get()[0], t.dtype)
            return ListV(go(TT.index_get(t, i)) for i in range(t.shape[0]))
        return go(x)

    def tm_numpy(self, x):
        if x.rg:
            raise AbsRaise("RuntimeError", "Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        raise Unmodelled("numpy()")

    def tm_size(self, x, dim=None):
        if dim is None:
            return Size(x.shape)
        return x.shape[TT.norm_dim(dim, len(x.shape))]

    def tm_dim(self, x):
        return len(x.shape)

    tm_ndimension = tm_dim

    def tm_nelement(self, x):
        return x.numel()

    def tm_stride(self, x, d=None):
        return x.strides if d is None else x.strides[d]

    def tm_element_size(self, x):
        return 4

    def tm_is_floating_point(self, x):
        return x.dtype.kind == "f"

    def tm_is_contiguous(self, x):
        return x.is_contig()

    def tm_contiguous(self, x, memory_format=None):
        return x if x.is_contig() else clone(x)

    def tm_detach(self, x):
        r = view_of(x, x.shape, x.strides, x.off)
        r.rg, r.leaf = False, True
        return r

    def tm_detach_(self, x):
        x.rg, x.leaf = False, True
        return x

    def tm_requires_grad_(self, x, requires_grad=True):
        if x.owner != "fresh":
            self.it.event("rebind", owner=x.owner, op="requires_grad_")
        x.rg = requires_grad
        return x

    def tm_retain_grad(self, x):
        return None

    def tm_share_memory_(self, x):
        return x

    def tm_view(self, x, *s):
        if len(s) == 1 and isinstance(s[0], DType):
            if s[0] is x.dtype:
                return x
            raise Unmodelled("view dtype")
        return TT.view(x, shape_args(s))

    def tm_reshape(self, x, *s, shape=None):
        return TT.reshape(x, shape_args(s if shape is None else (shape,)))

    def tm_view_as(self, x, o):
        return TT.view(x, o.shape)

    def tm_reshape_as(self, x, o):
        return TT.reshape(x, o.shape)

    def tm_ravel(self, x):
        return TT.reshape(x, (-1,))

    def tm_permute(self, x, *d, dims=None):
        return TT.permute(x, shape_args(d if dims is None else (dims,)))

    def tm_transpose(self, x, a=None, b=None, dim0=None, dim1=None):
        return TT.transpose(x, a if a is not None else dim0, b if b is not None else dim1)

    tm_swapaxes = tm_transpose

    def tm_movedim(self, x, a, b):
        n = len(x.shape)
        a, b = TT.norm_dim(a, n), TT.norm_dim(b, n)
        d = [i for i in range(n) if i != a]
        d.insert(b, a)
        return TT.permute(x, d)

    def tm_t(self, x):
        if len(x.shape) > 2:
            raise AbsRaise("RuntimeError", "t() expects a tensor with <= 2 dimensions")
        return TT.transpose(x, 0, 1) if len(x.shape) == 2 else x

    def tm_unsqueeze(self, x, dim):
        return TT.unsqueeze(x, cdim(dim))

    def tm_squeeze(self, x, dim=None):
        return TT.squeeze(x, cdim(dim))

    def _reshaped(self, x, r, op):
        if x.owner != "fresh":
            self.it.event("rebind", owner=x.owner, op=op)
        x.shape, x.strides, x.off = r.shape, r.strides, r.off
        return x

    def tm_unsqueeze_(self, x, dim):
        return self._reshaped(x, TT.unsqueeze(x, cdim(dim)), "unsqueeze_")

    def tm_squeeze_(self, x, dim=None):
        return self._reshaped(x, TT.squeeze(x, cdim(dim)), "squeeze_")

    def tm_transpose_(self, x, a, b):
        return self._reshaped(x, TT.transpose(x, a, b), "transpose_")

    def tm_t_(self, x):
        return self._reshaped(x, TT.transpose(x, 0, 1), "t_")

    def tm_resize_(self, x, *s):
        sh = shape_args(s)
        if numel(sh) > len(x.st.data):
            raise Unmodelled("resize_")
        x.shape, x.strides = sh, TT.contig(sh)
        return x

    def tm_set_(self, x, o):
        if x.owner != "fresh":
            self.it.event("rebind", owner=x.owner, op="set_")
        x.st, x.shape, x.strides, x.off = o.st, o.shape, o.strides, o.off
        return x

    def tm_expand(self, x, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return TT.expand(x, s)

    def tm_expand_as(self, x, o):
        return TT.expand(x, o.shape)

    def tm_broadcast_to(self, x, s):
        return TT.expand(x, tuple(s))

    def tm_repeat(self, x, *s):
        return TT.repeat(x, shape_args(s))

    def tm_fill_(self, x, v):
        TT.check_inplace(x)
        if isinstance(v, Tensor):
            if v.numel() != 1 or v.shape != ():
                raise AbsRaise("RuntimeError", "fill_ only supports 0-dimension value tensor but got tensor with %d dimensions." % len(v.shape))
            v2, src = v.get()[0], v.dtype
        elif is_scalar(v):
            v2, src = sp(v), TT.KDEF[skind(v)]
        else:
            raise AbsRaise("TypeError", "fill_(): argument must be Number, not %s" % type(v).__name__)
        c = cast1(v2, src, x.dtype)
        TT.write(x, [c] * x.numel(), "fill_")
        return x

    def tm_zero_(self, x):
        return self.tm_fill_(x, 0)

    def tm_copy_(self, x, o, non_blocking=False):
        o = as_t(o)
        TT.check_inplace(x)
        if bshape(x.shape, o.shape) != x.shape:
            raise AbsRaise("RuntimeError", "copy_: shape mismatch")
        TT.write(x, castl(bget(o, x.shape), o.dtype, x.dtype), "copy_")
        return x

    def tm_new_zeros(self, x, *s, dtype=None, device=None):
        return self.filled("zeros", shape_args(s), dtype_of(dtype) or x.dtype)

    def tm_new_ones(self, x, *s, dtype=None, device=None):
        return self.filled("ones", shape_args(s), dtype_of(dtype) or x.dtype)

    def tm_new_empty(self, x, *s, dtype=None, device=None):
        return self.filled("empty", shape_args(s), dtype_of(dtype) or x.dtype)

    def tm_new_full(self, x, s, v, dtype=None, device=None):
        return self.filled("full", shape_args((s,)), dtype_of(dtype) or x.dtype, v)

    def tm_new_tensor(self, x, v, dtype=None):
        return tensor_from(v, dtype_of(dtype) or x.dtype)

    def tm_normal_(self, x, mean=0, std=1, generator=None):
        return self.call_init("normal_", [x], {})

    def tm_uniform_(self, x, *a, **k):
        return self.call_init("uniform_", [x], {})

    def tm_random_(self, x, *a, **k):
        return self.call_init("uniform_", [x], {})

    def tm_bernoulli_(self, x, *a, **k):
        self.it.event("random", source="Tensor.bernoulli_", kwargs=[])
        TT.write(x, [self.it.fresh("rand", 0, 1, True) for _ in range(x.numel())], "bernoulli_")
        return x

    def tm_index_fill_(self, x, dim, index, v):
        raise Unmodelled("index_fill_")

    def tm_index_copy_(self, x, dim, index, src):
        ix = [slice(None)] * len(x.shape)
        ix[TT.norm_dim(dim, len(x.shape))] = index
        TT.index_set(x, tuple(ix), src, "index_copy_")
        return x

    def tm_scatter_(self, x, *a, **k):
        raise Unmodelled("scatter_")

    def tm_numel(self, x):
        return x.numel()

    def tm_register_hook(self, x, h):
        return None

    def tm_backward(self, x, *a, **k):
        raise Unmodelled("backward")

    def tm_data_ptr(self, x):
        return x.st.id * 1000 + x.off

    def tm___len__(self, x):
        return x.shape[0]

    def tm___getitem__(self, x, i):
        return TT.index_get(x, i)

    def tm___setitem__(self, x, i, v):
        return TT.index_set(x, i, v)

    def tm_get_device(self, x):
        return -1

    def tm_is_complex(self, x):
        return False

    def tm_unfold(self, x, *a):
        raise Unmodelled("Tensor.unfold")

    def tensor_setattr(self, x, name, v):
        if name == "data":
            if not isinstance(v, Tensor):
                raise AbsRaise("TypeError", "Variable data has to be a tensor, but got %s" % type(v).__name__)
            if x.rg and v.dtype.kind != "f":
                raise AbsRaise("RuntimeError", "data set to a tensor that requires gradients must be floating point or complex dtype")
            if x.owner != "fresh":
                self.it.event("rebind", owner=x.owner, op=".data=")
            x.st, x.shape, x.strides, x.off, x.dtype = v.st, v.shape, v.strides, v.off, v.dtype
            x.gen += 1
            return
        if name == "requires_grad":
            if v and x.dtype.kind != "f":
                raise AbsRaise("RuntimeError", "only Tensors of floating point dtype can require gradients")
            if x.owner != "fresh":
                self.it.event("rebind", owner=x.owner, op="requires_grad=")
            x.rg = bool(v)
            return
        if name == "grad":
            return
        raise Unmodelled("tensor attribute assignment " + name)

    BIN = {"Add": f_add, "Sub": f_sub, "Mult": f_mul, "Div": f_div, "FloorDiv": f_floordiv, "Mod": f_mod, "Pow": f_pow,
           "BitAnd": OPS["bitwise_and"][0], "BitOr": OPS["bitwise_or"][0], "BitXor": OPS["bitwise_xor"][0],
           "LShift": f_shift(True), "RShift": f_shift(False), "MatMult": TT.matmul}

    def tbinop(self, op, a, b):
        for x in (a, b):
            if not isinstance(x, Tensor) and not is_scalar(x):
                if x is not None and not isinstance(x, (str, list, tuple, dict, set, Obj)):
                    raise Unmodelled("tensor %s %r" % (op, x))
                raise AbsRaise("TypeError", "unsupported operand type(s) for %s: 'Tensor' and %r" % (op, type(x).__name__))
        return self.BIN[op](a, b)

    def tcompare(self, op, a, b):
        for x in (a, b):
            if not isinstance(x, Tensor) and not is_scalar(x):
                if x is not None and not isinstance(x, (str, list, tuple, dict, set, Obj)) or op in ("Eq", "NotEq"):
                    raise Unmodelled("comparison of a tensor with %r" % (x,))
                raise AbsRaise("TypeError", "comparison of Tensor with %s" % type(x).__name__)
        return CMP[{"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op]](a, b)

    def unop(self, op, x):
        if op == "USub":
            return f_neg(x)
        if op == "Invert":
            return f_not(x)
        return x

    def inplace_op(self, op, a, b):
        if op == "MatMult":
            raise Unmodelled("@=")
        r = self.tbinop(op, a, b)
        return inplace(a, r, "%s=" % op)

    # ------------------------------------------------------------------ containers
    def dict_attr(self, d, name):
        it = self.it

        def f(it, *a, **k):
            if name in ("update", "pop", "setdefault", "clear", "popitem", "__setitem__"):
                it.owned_write(d, "%s(%s)" % (name, ", ".join(repr(x) for x in a if isinstance(x, str))))
            if name == "copy":
                r = DictV(d)
                r.owner = it.owner
                return r
            if name == "pop" and a and a[0] not in d and len(a) == 1:
                raise AbsRaise("KeyError", repr(a[0]))
            if name in ("keys", "values", "items"):
                return ListV(getattr(d, name)())
            if name == "popitem" and not d:
                raise AbsRaise("KeyError", "popitem(): dictionary is empty")
            if name == "most_common" and getattr(d, "counter", False):
                return ListV(sorted(d.items(), key=lambda q: -q[1])[:a[0] if a else None])
            return getattr(dict, name)(d, *a, **k)
        if not hasattr(dict, name) and not (name == "most_common" and getattr(d, "counter", False)):
            raise AbsRaise("AttributeError", "'dict' object has no attribute %r" % name)
        return PyFn("dict." + name, f)

    def list_attr(self, l, name):
        if isinstance(l, DequeV) and name == "maxlen":
            return l.maxlen

        def dq(it, *a):
            it.owned_write(l, name)
            if name == "appendleft":
                l.insert(0, a[0])
                if l.maxlen is not None and len(l) > l.maxlen:
                    l.pop()
            elif name in ("append", "extend", "extendleft"):
                for v in (a if name == "append" else it.iterate(a[0])):
                    if name == "extendleft":
                        l.insert(0, v)
                        if l.maxlen is not None and len(l) > l.maxlen:
                            l.pop()
                    else:
                        l.append(v)
                        if l.maxlen is not None and len(l) > l.maxlen:
                            del l[0]
            elif name == "popleft":
                if not l:
                    raise AbsRaise("IndexError", "pop from an empty deque")
                return l.pop(0)
            elif name == "rotate":
                n = a[0] if a else 1
                if not isinstance(n, int):
                    raise Unmodelled("rotate")
                if l:
                    n %= len(l)
                    l[:] = l[-n:] + l[:-n] if n else l[:]
        if isinstance(l, DequeV) and name in ("append", "appendleft", "extend", "extendleft", "popleft", "rotate"):
            return PyFn("deque." + name, dq)

        def f(it, *a, **k):
            if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__"):
                it.owned_write(l, name)
            if name == "copy":
                r = type(l)(l)
                if isinstance(l, DequeV):
                    r.maxlen = l.maxlen
                return r
            if name == "extend":
                a = (it.iterate(a[0]),)
            try:
                return getattr(list, name)(l, *a, **k)
            except (IndexError, ValueError) as e:
                raise AbsRaise(type(e).__name__, str(e))
        if not hasattr(list, name):
            raise AbsRaise("AttributeError", "'list' object has no attribute %r" % name)
        return PyFn("list." + name, f)

    def sym_attr(self, s, name):
        if name == "item":
            return PyFn("item", lambda it: s)
        if name in ("is_integer",):
            return PyFn(name, lambda it: mk_sym(T.eq(T.floor(s.p), s.p), "bool"))
        if hasattr(int, name) or hasattr(float, name):
            raise Unmodelled("method %r of a number" % name)
        raise AbsRaise("AttributeError", "scalar has no attribute %r" % name)

    def misc_attr(self, o, name):
        it = self.it
        if isinstance(o, SobolEngine):
            if name == "draw":
                def draw(it, n=1, out=None, dtype=None):
                    if o.dim >= len(SOBOL_POLY) or n > 4096:
                        raise Unmodelled("Sobol dimension %d" % o.dim)
                    cols = [sobol_points(d, o.pos + n)[o.pos:] for d in range(1, o.dim + 1)]
                    o.pos += n
                    return new([P(cols[d][k]) for k in range(n) for d in range(o.dim)], (n, o.dim), dtype_of(dtype) or float32)
                return PyFn("draw", draw)
            if name == "fast_forward":
                def ff(it, n):
                    o.pos += n
                    return o
                return PyFn("fast_forward", ff)
            if name == "reset":
                def rs(it):
                    o.pos = 0
                    return o
                return PyFn("reset", rs)
            if name == "draw_base2":
                d = self.misc_attr(o, "draw")
                return PyFn("draw_base2", lambda it, m, **k: d.f(it, 2 ** m, **k))
            if name == "dimension":
                return o.dim
        if isinstance(o, Opaque):
            if o.kind == "lfsr":
                if name in ("get_fpolyList", "getFpolyList"):
                    def gp(it, m=None):
                        return ListV([Opaque("fpoly", width=m, ix=i) for i in range(2 if m and m > 2 else 1)])
                    return PyFn(name, gp)
                if name == "state":
                    if o.width is None:
                        raise Unmodelled("lfsr width")
                    return NdArr([Sym(T.bit("%s.%d.%d" % (o.id, o.step, j)), "int") for j in range(o.width)])
                if name in ("next", "runKCycle", "runFullCycle"):
                    def nx(it, *a):
                        if name != "next":
                            raise Unmodelled(name)
                        o.step += 1
                        return Sym(T.bit("%s.out.%d" % (o.id, o.step)), "int")
                    return PyFn(name, nx)
            if o.kind == "ctx":
                if name in o.d:
                    return o.d[name]
                if name == "save_for_backward":
                    def sv(it, *a):
                        o.d["saved_tensors"] = tuple(a)
                    return PyFn(name, sv)
                if name in ("mark_non_differentiable", "set_materialize_grads", "mark_dirty"):
                    return PyFn(name, lambda it, *a: None)
                if name in LIB_ATTRS or name.startswith("__"):
                    raise Unmodelled("ctx." + name)
                raise AbsRaise("AttributeError", "ctx has no attribute %r" % name)
            if o.kind == "finfo":
                return getattr(o, name)
            if o.kind == "logger" and name in ("debug", "info", "warning", "error", "log", "setLevel", "addHandler", "exception", "critical"):
                return PyFn(name, lambda it, *a, **k: None)
            if o.kind == "logger" and name == "isEnabledFor":
                return PyFn(name, lambda it, *a: False)
        if isinstance(o, NdArr):
            if name in ("size",):
                return len(o.vals)
            if name == "shape":
                return (len(o.vals),)
            if name in ("tolist",):
                return PyFn(name, lambda it: ListV(o.vals))
            if name == "copy":
                return PyFn(name, lambda it: NdArr(o.vals))
            if name == "item" and len(o.vals) == 1:
                return PyFn(name, lambda it: o.vals[0])
            if name == "sum":
                return PyFn(name, lambda it: npv(it.call(self.builtins["sum"], [ListV(o.vals)], {})))
            if name in ("max", "min"):
                return PyFn(name, lambda it: npv(it.call(self.builtins[name], [ListV(o.vals)], {})))
            if name == "mean":
                return PyFn(name, lambda it: npv(it.binop("Div", it.call(self.builtins["sum"], [ListV(o.vals)], {}), len(o.vals))))
            if name == "ndim":
                return 1
        if isinstance(o, PyFn) and o.name == "dict" and name == "fromkeys":
            def fk(it, ks, v=None):
                d = DictV((k, v) for k in it.iterate(ks))
                d.owner = it.owner
                return d
            return PyFn(name, fk)
        if isinstance(o, PyFn) and name == "from_iterable" and o.name == "chain":
            return PyFn(name, lambda it, x: ListV(v for y in it.iterate(x) for v in it.iterate(y)))
        if isinstance(o, PyFn) and o.name == "lru_cache" and name == "cache_clear":
            return PyFn(name, lambda it: o.cache_clear())
        if isinstance(o, Device):
            if name == "type":
                return "cpu"
            if name == "index":
                return None
        if isinstance(o, (Func, PyFn, Bound)) and name in ("__name__", "__doc__", "__module__"):
            return getattr(o, "name", "")
        if isinstance(o, Class) and name == "__name__":
            return o.name
        return NotImplemented

    def opaque_element(self, o, i):
        if all(isinstance(x, Opaque) and x.kind == "fpoly" for x in o):
            return Opaque("fpoly", width=o[0].width, ix=i.p)
        raise Unmodelled("symbolic index into a python list")

    def memoised(self, f):
        """functools.lru_cache: the first result for each argument is kept; sharing it is visible only if it is mutable"""
        store = {}

        def g(it, *a, **k):
            for x in list(a) + list(k.values()):
                if isinstance(x, (Tensor, Sym)):
                    raise Unmodelled("a memoised function of a symbolic value")
            try:
                key = (tuple((type(x).__name__, x) for x in a), tuple(sorted(k.items())))
                hit = key in store
            except TypeError:
                raise AbsRaise("TypeError", "unhashable argument")
            if not hit:
                old, it.owner = it.owner, "cache:" + getattr(f, "name", "?")
                try:
                    r = it.call(f, list(a), k)
                finally:
                    it.owner = old
                if isinstance(r, (Tensor, Obj)):
                    raise Unmodelled("a memoised function returning a mutable object")
                store[key] = r
            return store[key]
        p = PyFn("lru_cache", g)
        p.__dict__["cache_clear"] = lambda: store.clear()
        return p

    def misc_setattr(self, o, name, v):
        if isinstance(o, Opaque) and o.kind == "ctx":
            o.d[name] = v
            return True
        return False

    def enter(self, v):
        if isinstance(v, CmObj):
            if not isinstance(v.gen, GenV):
                raise AbsRaise("TypeError", "not a generator")
            ok, r = v.gen.resume()
            if not ok:
                raise AbsRaise("RuntimeError", "generator didn't yield")
            return r
        if isinstance(v, CtxMgr):
            v.old = Ctx.grad_enabled
            if v.grad is not None:
                Ctx.grad_enabled = bool(v.grad)
            return v
        if isinstance(v, Obj):
            f, c = v.cls.find("__enter__")
            if f is not None:
                return self.it.call(Bound(f, v), [], {})
        raise Unmodelled("context manager")

    def exit(self, v, exc=None, ev=None):
        """leave a with block; true if the exception is swallowed"""
        if isinstance(v, CmObj):
            if exc is None:
                ok, r = v.gen.resume()
            else:
                try:
                    ok, r = v.gen.resume("throw", exc)
                except AbsRaise as e:
                    if e is exc:
                        return False
                    raise
            if ok:
                raise AbsRaise("RuntimeError", "generator didn't stop")
            return exc is not None
        if isinstance(v, Obj):
            f, c = v.cls.find("__exit__")
            if f is not None:
                a = [None, None, None] if exc is None else [ev.cls, ev, None]
                r = self.it.call(Bound(f, v), a, {})
                return exc is not None and self.it.truth(r)
        return False

    # ------------------------------------------------------------------ nn
    def mk_nn(self):
        it = self.it
        lib = self
        md = {}
        Module = Class("Module", [self.object_class], md, lib=True)
        self.classes["Module"] = Module

        def m(name):
            def deco(f):
                md[name] = PyFn("Module." + name, f)
                return f
            return deco

        @m("__init__")
        def _(it, o, *a, **k):
            if a or k:
                raise AbsRaise("TypeError", "Module.__init__() takes 1 positional argument")
            o.inited = True
            o.a["training"] = True

        @m("__setattr__")
        def _(it, o, name, v):
            if isinstance(v, Tensor) and v.is_param:
                if not o.inited:
                    raise AbsRaise("AttributeError", "cannot assign parameters before Module.__init__() call")
                o.registered.add(name)
                o.a[name] = v
                return
            if isinstance(v, Obj) and v.cls.issub(Module):
                if not o.inited:
                    raise AbsRaise("AttributeError", "cannot assign module before Module.__init__() call")
                o.registered.discard(name)
                o.a[name] = v
                return
            if name in o.registered:
                if v is not None:
                    raise AbsRaise("TypeError", "cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (type(v).__name__, name))
            elif isinstance(o.a.get(name), Obj) and o.a[name].cls.issub(Module):
                if v is not None:
                    raise AbsRaise("TypeError", "cannot assign as child module '%s' (torch.nn.Module or None expected)" % name)
            elif name in getattr(o, "buffers", ()) and v is not None and not isinstance(v, Tensor):
                raise AbsRaise("TypeError", "cannot assign as buffer")
            o.a[name] = v

        @m("__call__")
        def _(it, o, *a, **k):
            f, c = o.cls.find("forward")
            if f is None:
                raise AbsRaise("NotImplementedError", "Module [%s] is missing the required \"forward\" function" % o.cls.name)
            return it.call(it.bind(f, o, c), list(a), k)

        def params(o, seen):
            out = []
            for n, v in o.a.items():
                if isinstance(v, Tensor) and n in o.registered and id(v) not in seen:
                    seen.add(id(v))
                    out.append((n, v))
            for n, v in o.a.items():
                if isinstance(v, Obj) and v.cls.issub(Module) and id(v) not in seen:
                    seen.add(id(v))
                    out.extend((n + "." + k, p) for k, p in params(v, seen))
            return out

        @m("parameters")
        def _(it, o, recurse=True):
            return ListV(p for _, p in params(o, set()))

        @m("named_parameters")
        def _(it, o, prefix="", recurse=True):
            return ListV(params(o, set()))

        @m("children")
        def _(it, o):
            return ListV(v for v in o.a.values() if isinstance(v, Obj) and v.cls.issub(Module))

        @m("named_children")
        def _(it, o):
            return ListV((k, v) for k, v in o.a.items() if isinstance(v, Obj) and v.cls.issub(Module))

        @m("modules")
        def _(it, o):
            out, seen = [], set()

            def go(x):
                if id(x) in seen:
                    return
                seen.add(id(x))
                out.append(x)
                for v in x.a.values():
                    if isinstance(v, Obj) and v.cls.issub(Module):
                        go(v)
            go(o)
            return ListV(out)

        @m("register_parameter")
        def _(it, o, name, p):
            o.registered.add(name)
            o.a[name] = p

        @m("register_buffer")
        def _(it, o, name, t, persistent=True):
            if not isinstance(t, Tensor) and t is not None:
                raise AbsRaise("TypeError", "cannot assign object to buffer")
            o.a[name] = t
            o.buffers = {**getattr(o, "buffers", {}), name: persistent}

        def bufs(o, keep=False, pre="", seen=None):
            out = [(pre + n, o.a[n]) for n, q in getattr(o, "buffers", {}).items() if o.a.get(n) is not None and (q or not keep)]
            for n, v in o.a.items():
                if isinstance(v, Obj) and v.cls.issub(Module):
                    out.extend(bufs(v, keep, pre + n + "."))
            return out

        @m("buffers")
        def _(it, o, recurse=True):
            return ListV(v for _, v in bufs(o))

        @m("named_buffers")
        def _(it, o, prefix="", recurse=True):
            return ListV(bufs(o))

        @m("add_module")
        def _(it, o, name, x):
            o.a[name] = x
        md["register_module"] = md["add_module"]

        @m("to")
        def _(it, o, *a, **k):
            dts = [x for x in list(a) + list(k.values()) if isinstance(x, DType)]
            if dts:
                for n, p in params(o, set()):
                    if p.dtype.kind == "f":
                        q = lib.cast(p, dts[0])
                        p.st, p.shape, p.strides, p.off, p.dtype = q.st, q.shape, q.strides, q.off, q.dtype
            return o
        def modules(o, out):
            if not any(x is o for x in out):
                out.append(o)
                for v in o.a.values():
                    if isinstance(v, Obj) and v.cls.issub(Module):
                        modules(v, out)
            return out

        for nm in ("cpu", "eval", "train", "requires_grad_", "zero_grad", "share_memory"):
            def mk(nm):
                def f(it, o, *a, **k):
                    if nm in ("eval", "train"):
                        for x in modules(o, []):
                            x.a["training"] = nm == "train" and bool(a[0] if a else k.get("mode", True))
                    if nm == "requires_grad_":
                        for n, p in params(o, set()):
                            if p.dtype.kind == "f":
                                p.rg = a[0] if a else True
                    return o
                return f
            md[nm] = PyFn("Module." + nm, mk(nm))
        md["extra_repr"] = PyFn("extra_repr", lambda it, o: "")
        md["_get_name"] = PyFn("_get_name", lambda it, o: o.cls.name)
        md["__repr__"] = PyFn("__repr__", lambda it, o: "%s()" % o.cls.name)
        md["apply"] = PyFn("apply", lambda it, o, f: [it.call(f, [x], {}) for x in it.call(Bound(md["modules"], o), [], {})] and o)

        @m("state_dict")
        def _(it, o, *a, **k):
            return DictV(params(o, set()) + bufs(o, True))

        def cls(name, d, base=Module):
            c = Class(name, [base], {k: (PyFn(name + "." + k, v) if not isinstance(v, PyFn) else v) for k, v in d.items()}, lib=True)
            self.classes[name] = c
            return c

        def sinit(o):
            md["__init__"].f(self.it, o)

        def sset(o, k, v):
            md["__setattr__"].f(self.it, o, k, v)

        # Linear
        def lin_init(it, o, in_features, out_features, bias=True, device=None, dtype=None):
            sinit(o)
            sset(o, "in_features", in_features)
            sset(o, "out_features", out_features)
            sh = shape_args((out_features, in_features))
            it.event("random", source="torch.nn.Linear", kwargs=[])
            sset(o, "weight", self.mk_param(new([it.fresh("init") for _ in range(numel(sh))], sh, float32)))
            if bias is True or (not isinstance(bias, bool) and it.truth(bias)):
                sset(o, "bias", self.mk_param(new([it.fresh("init") for _ in range(sh[0])], (sh[0],), float32)))
            else:
                md["register_parameter"].f(it, o, "bias", None)

        def lin_fwd(it, o, x):
            return f_linear(x, o.a["weight"], o.a["bias"])
        cls("Linear", {"__init__": lin_init, "forward": lin_fwd})

        def conv_init(it, o, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
            sinit(o)
            if groups <= 0:
                raise AbsRaise("ValueError", "groups must be a positive integer")
            if in_channels % groups != 0:
                raise AbsRaise("ValueError", "in_channels must be divisible by groups")
            if out_channels % groups != 0:
                raise AbsRaise("ValueError", "out_channels must be divisible by groups")
            if padding_mode not in ("zeros", "reflect", "replicate", "circular"):
                raise AbsRaise("ValueError", "padding_mode must be one of ...")
            ks = TT.two(kernel_size)
            for k, v in (("in_channels", in_channels), ("out_channels", out_channels), ("kernel_size", ks), ("stride", TT.two(stride)),
                         ("padding", padding if isinstance(padding, str) else TT.two(padding)), ("dilation", TT.two(dilation)), ("groups", groups), ("padding_mode", padding_mode), ("transposed", False)):
                sset(o, k, v)
            sh = shape_args((out_channels, in_channels // groups) + tuple(ks))
            it.event("random", source="torch.nn.Conv2d", kwargs=[])
            sset(o, "weight", self.mk_param(new([it.fresh("init") for _ in range(numel(sh))], sh, float32)))
            if it.truth(bias):
                sset(o, "bias", self.mk_param(new([it.fresh("init") for _ in range(sh[0])], (sh[0],), float32)))
            else:
                md["register_parameter"].f(it, o, "bias", None)

        def conv_fwd(it, o, x):
            return TT.conv2d(x, o.a["weight"], o.a["bias"], o.a["stride"], o.a["padding"], o.a["dilation"], o.a["groups"])
        cls("Conv2d", {"__init__": conv_init, "forward": conv_fwd})

        def id_init(it, o, *a, **k):
            sinit(o)
        cls("Identity", {"__init__": id_init, "forward": lambda it, o, x: x})

        def ht_init(it, o, min_val=-1.0, max_val=1.0, inplace=False, min_value=None, max_value=None):
            sinit(o)
            if not isinstance(max_val, Sym) and not isinstance(min_val, Sym) and not max_val > min_val:
                raise AbsRaise("AssertionError", "max_val must be larger than min_val")
            sset(o, "min_val", min_val)
            sset(o, "max_val", max_val)
            sset(o, "inplace", inplace)

        def ht_fwd(it, o, x):
            r = ew(lambda v: T.clamp(v, sp(o.a["min_val"]), sp(o.a["max_val"])), (x,), x.dtype)
            if it.truth(o.a["inplace"]):
                return inplace(x, r, "hardtanh_")
            return r
        cls("Hardtanh", {"__init__": ht_init, "forward": ht_fwd})

        def act(name, f):
            def ini(it, o, inplace=False):
                sinit(o)
                sset(o, "inplace", inplace)

            def fwd(it, o, x):
                r = f(x)
                return inplace(x, r, name) if o.a["inplace"] else r
            cls(name, {"__init__": ini, "forward": fwd})
        act("Hardsigmoid", f_hardsigmoid)
        act("ReLU", lambda x: OPS["relu"][0](x))
        act("ReLU6", lambda x: f_hardtanh(x, 0, 6))
        act("Sigmoid", lambda x: OPS["sigmoid"][0](x))
        act("Tanh", lambda x: OPS["tanh"][0](x))
        act("Softsign", lambda x: OPS["div"][0](x, OPS["add"][0](OPS["abs"][0](x), 1)))

        def pad_init(it, o, padding, value):
            sinit(o)
            sset(o, "padding", tuple(padding) if isinstance(padding, (tuple, list)) else (padding,) * 4)
            sset(o, "value", value)

        def pad_fwd(it, o, x):
            p = o.a["padding"]
            return TT.pad(x, p, P(o.a["value"]))
        cls("ConstantPad2d", {"__init__": pad_init, "forward": pad_fwd})
        cls("ZeroPad2d", {"__init__": lambda it, o, p: pad_init(it, o, p, 0), "forward": pad_fwd})

        def seq_init(it, o, *mods):
            sinit(o)
            for i, x in enumerate(mods):
                sset(o, str(i), x)

        def seq_fwd(it, o, x):
            for k, v in list(o.a.items()):
                if isinstance(v, Obj):
                    x = it.call(v, [x], {})
            return x
        cls("Sequential", {"__init__": seq_init, "forward": seq_fwd})

        def kids(o):
            return [o.a[str(i)] for i in range(o.length)]

        def ml_append(it, o, x):
            sset(o, str(o.length), x)
            o.length += 1
            return o

        def ml_init(it, o, xs=()):
            sinit(o)
            o.length = 0
            for x in it.iterate(xs) if xs is not None else ():
                ml_append(it, o, x)

        def ml_get(it, o, i):
            if isinstance(i, Tensor):
                i = self.tensor_index(i)
            return it.getitem(ListV(kids(o)), i)

        def ml_extend(it, o, xs):
            for x in it.iterate(xs):
                ml_append(it, o, x)
            return o

        def ml_set(it, o, i, v):
            if not isinstance(i, int) or not -o.length <= i < o.length:
                raise AbsRaise("IndexError", "index out of range")
            sset(o, str(i % o.length), v)
        lists = {"__init__": ml_init, "__len__": lambda it, o: o.length, "__getitem__": ml_get, "__iter__": lambda it, o: ListV(kids(o)), "append": ml_append, "extend": ml_extend, "__setitem__": ml_set}
        cls("ModuleList", dict(lists))
        def pl_append(it, o, x):
            return ml_append(it, o, x if not isinstance(x, Tensor) or x.is_param else self.mk_param(x))
        def pl_init(it, o, xs=()):
            sinit(o)
            o.length = 0
            for x in it.iterate(xs) if xs is not None else ():
                pl_append(it, o, x)
        cls("ParameterList", dict(lists, __init__=pl_init, append=pl_append))
        cls("ModuleDict", {"__init__": lambda it, o, d=None: (sinit(o), [sset(o, k, v) for k, v in (d or {}).items()], None)[2],
                           "__getitem__": lambda it, o, k: it.getitem(DictV((n, v) for n, v in o.a.items() if isinstance(v, Obj)), k),
                           "__setitem__": lambda it, o, k, v: sset(o, k, v),
                           "keys": lambda it, o: ListV(n for n, v in o.a.items() if isinstance(v, Obj)),
                           "values": lambda it, o: ListV(v for n, v in o.a.items() if isinstance(v, Obj)),
                           "items": lambda it, o: ListV((n, v) for n, v in o.a.items() if isinstance(v, Obj)),
                           "__contains__": lambda it, o, k: isinstance(o.a.get(k), Obj),
                           "__len__": lambda it, o: sum(isinstance(v, Obj) for v in o.a.values())})

        def fl_init(it, o, start_dim=1, end_dim=-1):
            sinit(o)
            o.a.update(start_dim=start_dim, end_dim=end_dim)
        cls("Flatten", {"__init__": fl_init, "forward": lambda it, o, x: f_flatten(x, o.a["start_dim"], o.a["end_dim"])})

        def fo_init(it, o, output_size, kernel_size, dilation=1, padding=0, stride=1):
            sinit(o)
            o.a.update(output_size=output_size, kernel_size=kernel_size, dilation=dilation, padding=padding, stride=stride)
        cls("Fold", {"__init__": fo_init, "forward": lambda it, o, x: f_fold(x, o.a["output_size"], o.a["kernel_size"], o.a["dilation"], o.a["padding"], o.a["stride"])})

        def uf_init(it, o, kernel_size, dilation=1, padding=0, stride=1):
            sinit(o)
            for k, v in (("kernel_size", kernel_size), ("dilation", dilation), ("padding", padding), ("stride", stride)):
                sset(o, k, v)
        cls("Unfold", {"__init__": uf_init, "forward": lambda it, o, x: TT.unfold(x, o.a["kernel_size"], o.a["dilation"], o.a["padding"], o.a["stride"])})

        # autograd.Function
        fd = {}
        Function = Class("Function", [self.object_class], fd, lib=True)
        self.classes["Function"] = Function

        def apply_(it, cls_, *args, **kw):
            ctx = Opaque("ctx", d={})
            ctx.abs = True
            f, c = cls_.find("forward")
            if f is None:
                raise AbsRaise("NotImplementedError", "forward")
            f = f.f if isinstance(f, StaticM) else f
            if kw:
                raise AbsRaise("TypeError", "apply() takes no keyword arguments")
            need = Ctx.grad_enabled and any(isinstance(a, Tensor) and a.rg for a in args)
            ctx.d["needs_input_grad"] = tuple(Ctx.grad_enabled and isinstance(a, Tensor) and a.rg for a in args)
            old = Ctx.grad_enabled
            Ctx.grad_enabled = False
            try:
                r = it.call(f, [ctx] + list(args), {})
            finally:
                Ctx.grad_enabled = old
            it.event("function_apply", cls=cls_, ctx=ctx, nargs=len(args), args=list(args), result=r)

            def mark(x):
                if isinstance(x, Tensor):
                    if any(x is a for a in args):
                        x = view_of(x, x.shape, x.strides, x.off)
                    if need and x.dtype.kind == "f":
                        x.rg, x.leaf = True, False
                return x
            if isinstance(r, tuple):
                return tuple(mark(x) for x in r)
            return mark(r)
        fd["apply"] = ClassM(PyFn("Function.apply", apply_))

    def obj_attr(self, o, name):
        if self.lib_attr(o.cls, name):
            raise Unmodelled("attribute %r of %s" % (name, o.cls.name))
        return NotImplemented

    def lib_attr(self, cls, name):
        """could the real class have this attribute (from a library base, or from object)"""
        if name.startswith("__") and name.endswith("__"):
            return True
        return any(c.lib for c in cls.mro) and name in LIB_ATTRS


# attributes library classes have that are not modelled (using one is outside the analysis, not an error)
LIB_ATTRS = frozenset("""
T_destination _apply _backward_cls _backward_hooks _backward_pre_hooks _buffers _call_impl _compiled_autograd_backward_state _compiled_autograd_key _compiled_call_impl
_conv_forward _forward_hooks _forward_hooks_always_called _forward_hooks_with_kwargs _forward_pre_hooks _forward_pre_hooks_with_kwargs _get_abs_string_index
_get_backward_hooks _get_backward_pre_hooks _get_compiled_autograd_symints _get_item_by_idx _get_name _input_grad_buffers _input_metadata _is_full_backward_hook
_is_pure_view _load_from_state_dict _load_state_dict_post_hooks _load_state_dict_pre_hooks _materialize_non_diff_grads _maybe_warn_non_full_backward_hook _modules
_named_members _non_persistent_buffers_set _parameters _raw_saved_tensors _register_hook _register_hook_dict _register_load_state_dict_pre_hook _register_state_dict_hook
_replicate_for_data_parallel _reversed_padding_repeated_twice _save_to_state_dict _sequence_nr _set_sequence_nr _slow_forward _state_dict_hooks _state_dict_pre_hooks
_version _wrapped_call_impl add_module append apply backward bfloat16 boxed_grads_call buffers call_super_init children clear clear_saved_tensors_on_access compile cpu
cuda dilation dirty_tensors double dump_patches eval extend extra_repr float forward generate_vmap_rule get_buffer get_extra_state get_parameter get_submodule groups half
in_channels in_features input_grad_buffers insert ipu items jvp kernel_size keys load_state_dict mark_dirty mark_non_differentiable mark_shared_storage materialize_grads
maybe_clear_saved_tensors metadata modules mtia name named_buffers named_children named_modules named_parameters needs_input_grad next_functions non_differentiable
out_channels out_features output_grad_dtypes output_padding padding padding_mode parameters pop register_backward_hook register_buffer register_forward_hook
register_forward_pre_hook register_full_backward_hook register_full_backward_pre_hook register_hook register_load_state_dict_post_hook register_load_state_dict_pre_hook
register_module register_parameter register_prehook register_state_dict_post_hook register_state_dict_pre_hook requires_grad requires_grad_ reset_parameters
save_for_backward save_for_forward saved_for_forward saved_tensors saved_variables set_extra_state set_materialize_grads set_output_grad_dtype set_submodule setup_context
share_memory state_dict stride to to_empty to_save train training transposed type update values vjp vmap xpu zero_grad
""".split())


def hasattr_torch(name):
    """tensor methods we do not model but torch has: be conservative, everything that is not obviously a typo"""
    return not name.startswith("_")
