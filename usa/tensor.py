"""Abstract tensors: concrete shape, dtype and aliasing structure; every element is a
normal form of usa.terms (array expansion)."""
from fractions import Fraction
from itertools import product as iproduct
from math import inf
import math
from . import terms as T
from .terms import Poly, P, ZERO, ONE


class AbsRaise(Exception):
    """an exception raised by the analysed program"""

    def __init__(self, etype, msg="", value=None):
        Exception.__init__(self, "%s: %s" % (etype, msg))
        self.etype, self.msg, self.value = etype, msg, value
        self.site = None


class Unmodelled(Exception):
    """construct outside of the abstract semantics: the obligation stays undecided"""


class DType:
    def __init__(self, name, kind, rank, rng=None, tname=None):
        self.name, self.kind, self.rank, self.rng, self.tname = name, kind, rank, rng, tname

    def __repr__(self):
        return "torch." + self.name

    @property
    def is_floating_point(self):
        return self.kind == "f"


bool_ = DType("bool", "b", 0, None, "torch.BoolTensor")
uint8 = DType("uint8", "i", 1, (0, 255), "torch.ByteTensor")
int8 = DType("int8", "i", 2, (-128, 127), "torch.CharTensor")
int16 = DType("int16", "i", 3, (-32768, 32767), "torch.ShortTensor")
int32 = DType("int32", "i", 4, (-2 ** 31, 2 ** 31 - 1), "torch.IntTensor")
int64 = DType("int64", "i", 5, None, "torch.LongTensor")
bfloat16 = DType("bfloat16", "f", 10, None, "torch.BFloat16Tensor")
float16 = DType("float16", "f", 11, None, "torch.HalfTensor")
float32 = DType("float32", "f", 12, None, "torch.FloatTensor")
float64 = DType("float64", "f", 13, None, "torch.DoubleTensor")
complex64 = DType("complex64", "c", 20, None, "torch.ComplexFloatTensor")
DT = {d.name: d for d in (bool_, uint8, int8, int16, int32, int64, bfloat16, float16, float32, float64, complex64)}
DT.update({"float": float32, "double": float64, "half": float16, "long": int64, "int": int32, "short": int16})
TNAMES = {d.tname: d for d in DT.values()}


class Ctx:
    """sink of the effects the analysed program has"""
    interp = None
    grad_enabled = True

    @staticmethod
    def event(kind, **kw):
        if Ctx.interp is not None:
            Ctx.interp.event(kind, **kw)


_sid = [0]


class Storage:
    __slots__ = ("data", "owner", "id", "version")

    def __init__(self, data, owner="fresh"):
        self.data = data
        self.owner = owner
        _sid[0] += 1
        self.id = _sid[0]
        self.version = 0


def contig(shape):
    st = []
    n = 1
    for s in reversed(shape):
        st.append(n)
        n *= s
    return tuple(reversed(st))


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Tensor:
    __slots__ = ("st", "shape", "strides", "off", "dtype", "is_param", "rg", "leaf", "owner", "gen", "_pos")

    def __init__(self, st, shape, dtype, strides=None, off=0, rg=False, leaf=True, is_param=False):
        self.st = st
        self.shape = tuple(shape)
        self.strides = contig(self.shape) if strides is None else tuple(strides)
        self.off = off
        self.dtype = dtype
        self.rg = rg
        self.leaf = leaf
        self.is_param = is_param
        self.owner = "fresh"
        self.gen = 0
        self._pos = None

    def positions(self):
        p = self._pos
        if p is None or p[0] != (self.shape, self.strides, self.off):
            pos = [self.off]
            for s, k in zip(self.shape, self.strides):
                pos = [b + i * k for b in pos for i in range(s)]
            self._pos = p = ((self.shape, self.strides, self.off), pos)
        return p[1]

    def get(self):
        d = self.st.data
        return [d[i] for i in self.positions()]

    def numel(self):
        return numel(self.shape)

    def is_contig(self):
        n = 1
        for s, k in zip(reversed(self.shape), reversed(self.strides)):
            if s != 1 and k != n:
                return False
            n *= s
        return True

    def __repr__(self):
        return "Tensor(%s, %s, %s)" % (self.shape, self.dtype, [T.show(x) for x in self.get()[:6]])


def new(vals, shape, dtype, rg=False):
    t = Tensor(Storage(list(vals)), shape, dtype)
    if rg and Ctx.grad_enabled and dtype.kind == "f":
        t.rg, t.leaf = True, False
    return t


def view_of(t, shape, strides, off):
    r = Tensor(t.st, shape, t.dtype, strides, off, rg=t.rg and Ctx.grad_enabled, leaf=not (t.rg and Ctx.grad_enabled))
    return r


def scalar_tensor(x, dtype=None):
    if dtype is None:
        dtype = bool_ if isinstance(x, bool) else int64 if isinstance(x, int) else float32
    return new([P(x)], (), dtype)


class Sym:
    """symbolic python scalar"""
    __slots__ = ("p", "kind")

    def __init__(self, p, kind):
        self.p, self.kind = p, kind

    def __repr__(self):
        return "Sym(%s)" % T.show(self.p)


def mk_scalar(p, dtype):
    """value of .item()"""
    kind = {"b": "bool", "i": "int", "f": "float"}[dtype.kind]
    return mk_sym(p, kind)


def mk_sym(p, kind):
    if p.is_const():
        c = p.cval()
        if kind == "bool":
            return bool(c)
        if kind == "int":
            return int(c)
        return float(c)
    return Sym(p, kind)


def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction, Sym))


def skind(x):
    if isinstance(x, Sym):
        return x.kind
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    return "float"


def sp(x):
    """scalar -> Poly"""
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, float) and (x != x or x in (inf, -inf)):
        if x == inf:
            return T.var("inf", 10 ** 30, inf)
        if x == -inf:
            return T.scale(T.var("inf", 10 ** 30, inf), -1)
        raise Unmodelled("non finite constant")
    return P(x)


# ------------------------------------------------------------------ dtype handling
KCAT = {"bool": 0, "int": 1, "float": 2}
DCAT = {"b": 0, "i": 1, "f": 2, "c": 3}
KDEF = {"bool": bool_, "int": int64, "float": float32}


def promote2(a, b):
    if a is b:
        return a
    if a.kind == "f" and b.kind == "f" and {a.name, b.name} == {"float16", "bfloat16"}:
        return float32
    if a.kind == "i" and b.kind == "i" and uint8 in (a, b):
        o = a if b is uint8 else b
        return int16 if o is int8 else o
    return a if a.rank >= b.rank else b


def result_type(*xs):
    """torch.result_type over tensors and python scalars"""
    dim, zero, sc = None, None, None
    for x in xs:
        if isinstance(x, Tensor):
            if x.shape == ():
                zero = x.dtype if zero is None else promote2(zero, x.dtype)
            else:
                dim = x.dtype if dim is None else promote2(dim, x.dtype)
        else:
            d = KDEF[skind(x)]
            sc = d if sc is None else promote2(sc, d)
    r = dim
    if zero is not None:
        if r is None:
            r = zero
        elif DCAT[zero.kind] > DCAT[r.kind]:
            r = promote2(r, zero)
    if sc is not None:
        if r is None:
            r = sc
        elif DCAT[sc.kind] > DCAT[r.kind]:
            r = sc
    return r


def cast1(p, src, dst):
    if src is dst:
        return p
    if dst.kind == "b":
        return p if T.is_bit(p) else T.ne(p, ZERO)
    if dst.kind == "i":
        if src.kind == "f":
            p = T.trunc(p)
        if dst.rng is not None and not T.is_bit(p):
            p = T.wrap(p, dst.rng)
        return p
    return p


def fit(p, dtype):
    """value computed in dtype arithmetic"""
    if dtype.rng is not None and not T.is_bit(p):
        return T.wrap(p, dtype.rng)
    return p


def castl(vals, src, dst):
    if src is dst or (dst.kind == "f"):
        return list(vals)
    return [cast1(p, src, dst) for p in vals]


# ------------------------------------------------------------------ broadcasting
def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    raise AbsRaise("RuntimeError", "shapes %s do not broadcast" % (shapes,))
                d = s[j]
        # size 0 dims
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0 and s[j] == 0:
                d = 0
        out.append(d)
    return tuple(out)


def bget(t, shape):
    """elements of t broadcast to shape"""
    if t.shape == shape:
        return t.get()
    n = len(shape)
    k = n - len(t.shape)
    strides = [0] * k + [0 if s == 1 and shape[k + i] != 1 else t.strides[i] for i, s in enumerate(t.shape)]
    pos = [t.off]
    for s, st in zip(shape, strides):
        pos = [b + i * st for b in pos for i in range(s)]
    d = t.st.data
    return [d[i] for i in pos]


def as_t(x):
    if isinstance(x, Tensor):
        return x
    if is_scalar(x):
        return new([sp(x)], (), KDEF[skind(x)])
    raise AbsRaise("TypeError", "expected Tensor, got %s" % type(x).__name__)


def rgof(*xs):
    return Ctx.grad_enabled and any(isinstance(x, Tensor) and x.rg for x in xs)


def ew(f, xs, dtype, outdtype=None, rg=True):
    """elementwise: operands are cast to dtype first"""
    ts = [as_t(x) for x in xs]
    shape = bshape(*[t.shape for t in ts])
    cols = [castl(bget(t, shape), t.dtype, dtype) for t in ts]
    od = outdtype or dtype
    vals = [fit(f(*c), od) for c in zip(*cols)] if cols and cols[0] else []
    return new(vals, shape, od, rg and rgof(*xs))


# ------------------------------------------------------------------ writing
def check_inplace(t):
    if t.rg and t.leaf and Ctx.grad_enabled:
        raise AbsRaise("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation.")
    if any(k == 0 and s > 1 for s, k in zip(t.shape, t.strides)):
        raise AbsRaise("RuntimeError", "in-place write to a tensor with overlapping memory")


def write(t, vals, op):
    pos = t.positions()
    d = t.st.data
    changed = any(d[i] is not v and d[i] != v for i, v in zip(pos, vals))
    for i, v in zip(pos, vals):
        d[i] = v
    t.st.version += 1
    Ctx.event("write", storage=t.st, owner=t.st.owner, op=op, changed=changed)


def can_cast(src, dst):
    return DCAT[src.kind] <= DCAT[dst.kind]


def inplace(t, res, op, nodtype=False):
    """t.op_(...) with result tensor res"""
    check_inplace(t)
    if not nodtype and not can_cast(res.dtype, t.dtype):
        raise AbsRaise("RuntimeError", "result type %s can't be cast to the desired output type %s" % (res.dtype, t.dtype))
    if bshape(t.shape, res.shape) != t.shape:
        raise AbsRaise("RuntimeError", "output with shape %s doesn't match the broadcast shape %s" % (t.shape, res.shape))
    write(t, castl(bget(res, t.shape), res.dtype, t.dtype), op)
    return t


def set_out(out, res, op, anyd=False, args=()):
    if not isinstance(out, Tensor):
        raise Unmodelled("out= of %s" % type(out).__name__)
    if Ctx.grad_enabled and (out.rg or any(isinstance(a, Tensor) and a.rg for a in args)):
        raise AbsRaise("RuntimeError", "%s(): functions with out=... arguments don't support automatic differentiation, but one of the arguments requires grad." % op)
    if not anyd and not can_cast(res.dtype, out.dtype):
        raise AbsRaise("RuntimeError", "result type %s can't be cast to the desired output type %s" % (res.dtype, out.dtype))
    vals = castl(res.get(), res.dtype, out.dtype)
    if out.shape != res.shape:
        # resize (same storage object, new content)
        Ctx.event("resize", storage=out.st, owner=out.st.owner, op=op)
        out.shape, out.strides, out.off = res.shape, contig(res.shape), 0
        old = out.st.data
        out.st.data = list(vals) + old[len(vals):]
        out.st.version += 1
        if old:
            Ctx.event("write", storage=out.st, owner=out.st.owner, op=op, changed=True)
        return out
    write(out, vals, op)
    return out


# ------------------------------------------------------------------ shape operations
def norm_dim(d, n):
    if not isinstance(d, int):
        raise Unmodelled("symbolic dim")
    if not -max(n, 1) <= d < max(n, 1):
        raise AbsRaise("IndexError", "Dimension out of range (got %d for %d dims)" % (d, n))
    return d % max(n, 1)


def infer_shape(shape, n):
    shape = list(shape)
    if any(not isinstance(s, int) for s in shape):
        raise Unmodelled("symbolic shape")
    if -1 in shape:
        k = shape.index(-1)
        m = 1
        for i, s in enumerate(shape):
            if i != k:
                m *= s
        if m == 0 or n % m:
            raise AbsRaise("RuntimeError", "shape %s is invalid for input of size %d" % (shape, n))
        shape[k] = n // m
    if numel(shape) != n:
        raise AbsRaise("RuntimeError", "shape %s is invalid for input of size %d" % (shape, n))
    return tuple(shape)


def try_view(t, shape):
    """strides of a view or None"""
    if t.is_contig():
        return contig(shape)
    # general stride computation: match groups of dims
    old = [(s, k) for s, k in zip(t.shape, t.strides) if s != 1]
    newstr = [0] * len(shape)
    # process from the right
    oi = len(old) - 1
    ni = len(shape) - 1
    while oi >= 0:
        # collect chunk of contiguous old dims
        base = old[oi][1]
        size = old[oi][0]
        while oi > 0 and old[oi - 1][1] == old[oi][0] * old[oi][1]:
            oi -= 1
            size *= old[oi][0]
        n = 1
        while ni >= 0 and (n < size or shape[ni] == 1):
            newstr[ni] = n * base
            n *= shape[ni]
            ni -= 1
            if n == size and not (ni >= 0 and shape[ni] == 1):
                break
        if n != size:
            return None
        oi -= 1
    while ni >= 0:
        newstr[ni] = 1
        if shape[ni] != 1:
            return None
        ni -= 1
    return tuple(newstr)


def view(t, shape):
    shape = infer_shape(shape, t.numel())
    st = try_view(t, shape)
    if st is None:
        raise AbsRaise("RuntimeError", "view size is not compatible with input tensor's size and stride")
    return view_of(t, shape, st, t.off)


def reshape(t, shape):
    shape = infer_shape(shape, t.numel())
    st = try_view(t, shape)
    if st is None:
        return new(t.get(), shape, t.dtype, t.rg)
    return view_of(t, shape, st, t.off)


def permute(t, dims):
    dims = [norm_dim(d, len(t.shape)) for d in dims]
    if sorted(dims) != list(range(len(t.shape))):
        raise AbsRaise("RuntimeError", "permute: bad dims")
    return view_of(t, [t.shape[d] for d in dims], [t.strides[d] for d in dims], t.off)


def transpose(t, a, b):
    n = len(t.shape)
    a, b = norm_dim(a, n), norm_dim(b, n)
    d = list(range(n))
    if n:
        d[a], d[b] = d[b], d[a]
    return permute(t, d)


def unsqueeze(t, d):
    n = len(t.shape) + 1
    d = norm_dim(d, n)
    sh, st = list(t.shape), list(t.strides)
    sh.insert(d, 1)
    st.insert(d, st[d] * t.shape[d] if d < len(t.shape) else 1)
    return view_of(t, sh, st, t.off)


def squeeze(t, d=None):
    n = len(t.shape)
    if d is None:
        ds = set(range(n))
    elif isinstance(d, (tuple, list)):
        ds = {norm_dim(x, n) for x in d}
    else:
        ds = {norm_dim(d, n)}
    keep = [i for i in range(n) if not (i in ds and t.shape[i] == 1)]
    return view_of(t, [t.shape[i] for i in keep], [t.strides[i] for i in keep], t.off)


def expand(t, shape):
    shape = list(shape)
    k = len(shape) - len(t.shape)
    if k < 0:
        raise AbsRaise("RuntimeError", "expand: too few dims")
    st = []
    for i, s in enumerate(shape):
        if i < k:
            if s == -1:
                raise AbsRaise("RuntimeError", "expand -1")
            st.append(0)
        else:
            o = t.shape[i - k]
            if s == -1:
                shape[i] = o
                st.append(t.strides[i - k])
            elif o == s:
                st.append(t.strides[i - k])
            elif o == 1:
                st.append(0)
            else:
                raise AbsRaise("RuntimeError", "The expanded size of the tensor (%d) must match the existing size (%d) at non-singleton dimension %d" % (s, o, i))
    return view_of(t, shape, st, t.off)


def repeat(t, reps):
    n = len(reps)
    if n < len(t.shape):
        raise AbsRaise("RuntimeError", "Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
    k = n - len(t.shape)
    sh = [1] * k + list(t.shape)
    st = [0] * k + list(t.strides)
    pos = [t.off]
    out = []
    for s, r, stv in zip(sh, reps, st):
        pos = [b + (i % s) * stv for b in pos for i in range(s * r)]
        out.append(s * r)
    d = t.st.data
    return new([d[i] for i in pos], out, t.dtype, t.rg)


def cat(ts, dim=0):
    ts = [t for t in ts]
    if not ts:
        raise AbsRaise("RuntimeError", "cat of an empty list")
    for t in ts:
        if not isinstance(t, Tensor):
            raise AbsRaise("TypeError", "cat expects tensors")
    ts2 = [t for t in ts if t.shape != (0,)] or ts[:1]
    n = len(ts2[0].shape)
    dim = norm_dim(dim, n)
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = promote2(dt, t.dtype)
    for t in ts2[1:]:
        if len(t.shape) != n or any(a != b for i, (a, b) in enumerate(zip(t.shape, ts2[0].shape)) if i != dim):
            raise AbsRaise("RuntimeError", "Sizes of tensors must match except in dimension %d" % dim)
    shape = list(ts2[0].shape)
    shape[dim] = sum(t.shape[dim] for t in ts2)
    outer = numel(shape[:dim])
    cols = []
    for t in ts2:
        g = castl(t.get(), t.dtype, dt)
        w = numel(t.shape[dim:])
        cols.append([g[i * w:(i + 1) * w] for i in range(outer)])
    vals = [v for i in range(outer) for c in cols for v in c[i]]
    return new(vals, shape, dt, rgof(*ts))


def stack(ts, dim=0):
    ts = list(ts)
    if not ts:
        raise AbsRaise("RuntimeError", "stack expects a non-empty TensorList")
    if any(not isinstance(t, Tensor) for t in ts):
        raise AbsRaise("TypeError", "stack expects tensors")
    if any(t.shape != ts[0].shape for t in ts):
        raise AbsRaise("RuntimeError", "stack expects each tensor to be equal size")
    d = norm_dim(dim, len(ts[0].shape) + 1)
    return cat([unsqueeze(t, d) for t in ts], d)


def roll(t, shift, dim=None):
    if dim is None:
        v = t.get()
        n = len(v)
        return new([v[(i - shift) % n] for i in range(n)], t.shape, t.dtype, t.rg)
    if isinstance(dim, (tuple, list)):
        r = t
        for s, d in zip(shift, dim):
            r = roll(r, s, d)
        return r
    d = norm_dim(dim, len(t.shape))
    n = t.shape[d]
    return take(t, d, [(i - shift) % n for i in range(n)])


def take(t, d, idxs):
    """copy with dimension d restricted to concrete indices"""
    pos = [t.off]
    for i, (s, st) in enumerate(zip(t.shape, t.strides)):
        rng = idxs if i == d else range(s)
        pos = [b + k * st for b in pos for k in rng]
    sh = list(t.shape)
    sh[d] = len(idxs)
    dd = t.st.data
    return new([dd[i] for i in pos], sh, t.dtype, t.rg)


def flip(t, dims):
    if isinstance(dims, int):
        dims = (dims,)
    r = t
    for d in dims:
        d = norm_dim(d, len(t.shape))
        r = take(r, d, list(range(t.shape[d] - 1, -1, -1)))
    return r if r is not t else new(t.get(), t.shape, t.dtype, t.rg)


def pad(t, p, value=ZERO):
    """F.pad constant, p in torch order (last dim first)"""
    n = len(t.shape)
    lohi = [(0, 0)] * n
    if len(p) % 2 or len(p) // 2 > n:
        raise AbsRaise("RuntimeError", "bad padding length")
    for k in range(len(p) // 2):
        lohi[n - 1 - k] = (p[2 * k], p[2 * k + 1])
    shape = [s + a + b for s, (a, b) in zip(t.shape, lohi)]
    if any(s < 0 for s in shape):
        raise AbsRaise("RuntimeError", "negative size from padding")
    vals = []
    v = cast1(value, float32, t.dtype) if t.dtype.kind != "f" else value
    d = t.st.data
    for idx in iproduct(*[range(s) for s in shape]):
        src = [i - a for i, (a, b) in zip(idx, lohi)]
        if all(0 <= i < s for i, s in zip(src, t.shape)):
            vals.append(d[t.off + sum(i * k for i, k in zip(src, t.strides))])
        else:
            vals.append(v)
    return new(vals, shape, t.dtype, t.rg)


def elem(t, idx):
    return t.st.data[t.off + sum(i * k for i, k in zip(idx, t.strides))]


# ------------------------------------------------------------------ reductions
def reduce_dims(t, dim):
    n = len(t.shape)
    if dim is None:
        return list(range(n))
    if isinstance(dim, (tuple, list)):
        if len(dim) == 0:
            return list(range(n))
        return sorted(norm_dim(d, n) for d in dim)
    return [norm_dim(dim, n)] if n else []


def groups(t, dims):
    """list of (out index, list of element values)"""
    n = len(t.shape)
    keep = [i for i in range(n) if i not in dims]
    for oi in iproduct(*[range(t.shape[i]) for i in keep]):
        vals = []
        for ri in iproduct(*[range(t.shape[i]) for i in dims]):
            idx = [0] * n
            for k, i in zip(keep, oi):
                idx[k] = i
            for k, i in zip(dims, ri):
                idx[k] = i
            vals.append(elem(t, idx))
        yield oi, vals


def reduce(t, f, dim=None, keepdim=False, dtype=None):
    dims = reduce_dims(t, dim)
    out = [f(v) for _, v in groups(t, dims)]
    if keepdim:
        shape = [1 if i in dims else s for i, s in enumerate(t.shape)]
    else:
        shape = [s for i, s in enumerate(t.shape) if i not in dims]
    return new(out, shape, dtype or t.dtype, t.rg)


def psum(vals):
    r = ZERO
    for v in vals:
        r = T.add(r, v)
    return r


def tsum(t, dim=None, keepdim=False, dtype=None):
    src = t
    if dtype is None:
        dtype = int64 if t.dtype.kind in "bi" else t.dtype
    vals = castl(src.get(), src.dtype, dtype)
    s2 = new(vals, src.shape, dtype, src.rg)
    s2.rg = src.rg
    r = reduce(s2, lambda v: fit(psum(v), dtype), dim, keepdim, dtype)
    return r


# ------------------------------------------------------------------ linear algebra
def matmul(a, b):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise AbsRaise("TypeError", "matmul expects tensors")
    if a.dtype is not b.dtype:
        raise AbsRaise("RuntimeError", "expected m1 and m2 to have the same dtype, but got: %s != %s" % (a.dtype, b.dtype))
    if a.dtype.kind == "b":
        raise AbsRaise("RuntimeError", "matmul not implemented for 'Bool'")
    if not a.shape or not b.shape:
        raise AbsRaise("RuntimeError", "both arguments to matmul need to be at least 1D")
    a1 = len(a.shape) == 1
    b1 = len(b.shape) == 1
    if a1:
        a = unsqueeze(a, 0)
    if b1:
        b = unsqueeze(b, 1)
    if a.shape[-1] != b.shape[-2]:
        raise AbsRaise("RuntimeError", "mat1 and mat2 shapes cannot be multiplied (%s and %s)" % (a.shape, b.shape))
    bs = bshape(a.shape[:-2], b.shape[:-2]) if (len(a.shape) > 2 or len(b.shape) > 2) else ()
    n, k, m = a.shape[-2], a.shape[-1], b.shape[-1]
    av = bget(a, bs + (n, k))
    bv = bget(b, bs + (k, m))
    vals = []
    for q in range(numel(bs)):
        ab, bb = q * n * k, q * k * m
        for i in range(n):
            row = av[ab + i * k: ab + (i + 1) * k]
            for j in range(m):
                s = ZERO
                for x in range(k):
                    s = T.add(s, T.mul(row[x], bv[bb + x * m + j]))
                vals.append(fit(s, a.dtype))
    shape = list(bs)
    if not a1:
        shape.append(n)
    if not b1:
        shape.append(m)
    return new(vals, shape, a.dtype, rgof(a, b))


def two(x):
    if isinstance(x, (tuple, list)):
        x = tuple(x)
        if len(x) == 1:
            return (x[0], x[0])
        return x
    return (x, x)


def unfold(t, ks, dil=1, padding=0, stride=1):
    if len(t.shape) not in (3, 4):
        raise AbsRaise("RuntimeError", "unfold expects 3D or 4D input")
    if t.dtype.kind != "f":
        raise AbsRaise("RuntimeError", "\"im2col\" not implemented for %s" % t.dtype)
    ks, dil, padding, stride = two(ks), two(dil), two(padding), two(stride)
    squeeze_b = len(t.shape) == 3
    if squeeze_b:
        t = unsqueeze(t, 0)
    tp = pad(t, (padding[1], padding[1], padding[0], padding[0])) if any(padding) else t
    B, C, H, W = tp.shape
    oh = (H - dil[0] * (ks[0] - 1) - 1) // stride[0] + 1
    ow = (W - dil[1] * (ks[1] - 1) - 1) // stride[1] + 1
    if oh < 1 or ow < 1:
        raise AbsRaise("RuntimeError", "unfold: calculated shape of the array of sliding blocks is too small")
    vals = []
    for b in range(B):
        for c in range(C):
            for i in range(ks[0]):
                for j in range(ks[1]):
                    for y in range(oh):
                        for x in range(ow):
                            vals.append(elem(tp, (b, c, y * stride[0] + i * dil[0], x * stride[1] + j * dil[1])))
    shape = (B, C * ks[0] * ks[1], oh * ow)
    if squeeze_b:
        shape = shape[1:]
    return new(vals, shape, t.dtype, t.rg)


def fold(t, out_size, ks, dil=1, padding=0, stride=1):
    out_size, ks, dil, padding, stride = two(out_size), two(ks), two(dil), two(padding), two(stride)
    if len(t.shape) != 3:
        raise AbsRaise("RuntimeError", "fold expects 3D input")
    if t.dtype.kind != "f":
        raise AbsRaise("RuntimeError", "\"col2im\" not implemented for %s" % t.dtype)
    B, CK, L = t.shape
    kk = ks[0] * ks[1]
    if CK % kk:
        raise AbsRaise("RuntimeError", "fold: bad channel count")
    C = CK // kk
    H, W = out_size
    oh = (H + 2 * padding[0] - dil[0] * (ks[0] - 1) - 1) // stride[0] + 1
    ow = (W + 2 * padding[1] - dil[1] * (ks[1] - 1) - 1) // stride[1] + 1
    if oh * ow != L:
        raise AbsRaise("RuntimeError", "Given output_size=%s, expected size of input's dimension 2 to match the calculated number of sliding blocks %d * %d = %d, but got input.size(2)=%d." % (out_size, oh, ow, oh * ow, L))
    acc = {}
    for b in range(B):
        for c in range(C):
            for i in range(ks[0]):
                for j in range(ks[1]):
                    for y in range(oh):
                        for x in range(ow):
                            hy = y * stride[0] + i * dil[0] - padding[0]
                            wx = x * stride[1] + j * dil[1] - padding[1]
                            if 0 <= hy < H and 0 <= wx < W:
                                k = (b, c, hy, wx)
                                acc[k] = T.add(acc.get(k, ZERO), elem(t, (b, (c * ks[0] + i) * ks[1] + j, y * ow + x)))
    vals = [acc.get(k, ZERO) for k in iproduct(range(B), range(C), range(H), range(W))]
    return new(vals, (B, C, H, W), t.dtype, t.rg)


def conv2d(t, w, b=None, stride=1, padding=0, dilation=1, groups=1):
    if groups != 1:
        raise Unmodelled("grouped convolution")
    if t.dtype is not w.dtype:
        raise AbsRaise("RuntimeError", "Input type and weight type should be the same")
    B = t.shape[0]
    ks = w.shape[2:]
    u = unfold(t, ks, dilation, padding, stride)          # B, CK, L
    wm = reshape(w, (w.shape[0], -1))
    o = matmul(wm, u)                                     # B, O, L
    stride, padding, dilation = two(stride), two(padding), two(dilation)
    oh = (t.shape[2] + 2 * padding[0] - dilation[0] * (ks[0] - 1) - 1) // stride[0] + 1
    ow = (t.shape[3] + 2 * padding[1] - dilation[1] * (ks[1] - 1) - 1) // stride[1] + 1
    o = reshape(o, (B, w.shape[0], oh, ow))
    if b is not None:
        o = ew(T.add, (o, reshape(b, (1, -1, 1, 1))), o.dtype)
    return o


# ------------------------------------------------------------------ indexing
def index_get(t, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = _expand_ell(t, ix)
    # boolean masks with constant content become index lists
    adv = [k for k, i in enumerate(ix) if isinstance(i, Tensor) and not (i.shape == () and i.dtype.kind == "i" and i.get()[0].is_const()) or isinstance(i, list)]
    if not adv:
        return _basic(t, ix)
    return _advanced(t, ix)


def _expand_ell(t, ix):
    n = sum(1 for i in ix if i is not None and i is not Ellipsis and not (isinstance(i, Tensor) and i.dtype.kind == "b"))
    n += sum(len(i.shape) for i in ix if isinstance(i, Tensor) and i.dtype.kind == "b")
    if n > len(t.shape):
        raise AbsRaise("IndexError", "too many indices for tensor of dimension %d" % len(t.shape))
    out = []
    seen = False
    for i in ix:
        if i is Ellipsis:
            if seen:
                raise AbsRaise("IndexError", "two ellipses")
            seen = True
            out.extend([slice(None)] * (len(t.shape) - n))
        else:
            out.append(i)
    if not seen:
        out.extend([slice(None)] * (len(t.shape) - n))
    return tuple(out)


def _cint(i):
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, int):
        return i
    if isinstance(i, Tensor) and i.numel() == 1 and i.dtype.kind == "i" and i.get()[0].is_const():
        return int(i.get()[0].cval())
    return None


def _slice(s, n):
    a, b, c = s.start, s.stop, s.step

    def cv(x):
        if x is None:
            return None
        v = _cint(x)
        if v is None:
            raise Unmodelled("symbolic slice bound")
        return v
    a, b, c = cv(a), cv(b), cv(c)
    if c is not None and c <= 0:
        raise AbsRaise("ValueError", "step must be greater than zero")
    return range(n)[slice(a, b, c)]


def _basic(t, ix):
    shape, strides, off = [], [], t.off
    d = 0
    for i in ix:
        if i is None:
            shape.append(1)
            strides.append(0)
            continue
        n, st = t.shape[d], t.strides[d]
        if isinstance(i, slice):
            r = _slice(i, n)
            if len(r):
                off += r.start * st
            shape.append(len(r))
            strides.append(r.step * st)
        elif isinstance(i, Sym):
            return _advanced(t, ix)
        else:
            c = _cint(i)
            if c is None:
                raise AbsRaise("IndexError", "tensors used as indices must be long, byte or bool tensors")
            if not -n <= c < n:
                raise AbsRaise("IndexError", "index %d is out of bounds for dimension %d with size %d" % (c, d, n))
            off += (c % n) * st
        d += 1
    return view_of(t, shape, strides, off)


def _to_index(i):
    if isinstance(i, list):
        from .torchmodel import tensor_from
        i = tensor_from(i)
    if isinstance(i, Sym):
        return new([i.p], (), int64)
    if isinstance(i, Tensor):
        if i.dtype.kind == "f":
            raise AbsRaise("IndexError", "tensors used as indices must be long, int, byte or bool tensors")
        if i.dtype in (int8, int16):
            raise AbsRaise("IndexError", "tensors used as indices must be long, int, byte or bool tensors")
    return i


def _advanced(t, ix):
    # normalise: tensors/ints in advanced positions, slices elsewhere
    ents = []
    d = 0
    for i in ix:
        if i is None:
            ents.append(("new", None, None))
            continue
        i = _to_index(i)
        if isinstance(i, Tensor) and i.dtype.kind == "b":
            v = i.get()
            if not all(x.is_const() for x in v):
                raise Unmodelled("data dependent mask index")
            if i.shape != t.shape[d:d + len(i.shape)]:
                raise AbsRaise("IndexError", "The shape of the mask does not match the shape of the indexed tensor")
            hit = [k for k, x in zip(iproduct(*[range(s) for s in i.shape]), v) if x.cval()]
            for a in range(len(i.shape)):
                ents.append(("adv", d, new([P(h[a]) for h in hit], (len(hit),), int64)))
                d += 1
            continue
        if isinstance(i, slice):
            ents.append(("sl", d, _slice(i, t.shape[d])))
        elif isinstance(i, Tensor):
            ents.append(("adv", d, i))
        else:
            c = _cint(i)
            if c is None:
                raise AbsRaise("IndexError", "bad index")
            if not -t.shape[d] <= c < t.shape[d]:
                raise AbsRaise("IndexError", "index out of bounds")
            ents.append(("adv", d, new([P(c)], (), int64)))
        d += 1
    advs = [e for e in ents if e[0] == "adv"]
    ashape = bshape(*[e[2].shape for e in advs])
    avals = [bget(e[2], ashape) for e in advs]
    # result layout
    pos_first = next(k for k, e in enumerate(ents) if e[0] == "adv")
    last = max(k for k, e in enumerate(ents) if e[0] == "adv")
    contiguous = all(ents[k][0] == "adv" for k in range(pos_first, last + 1))
    layout = []   # list of ("adv",) or ("sl", dim, range) or ("new",)
    if not contiguous:
        layout.append(("adv",))
    done = not contiguous
    for e in ents:
        if e[0] == "adv":
            if not done:
                layout.append(("adv",))
                done = True
        elif e[0] == "sl":
            layout.append(("sl", e[1], e[2]))
        else:
            layout.append(("new",))
    shape = []
    for l in layout:
        if l[0] == "adv":
            shape.extend(ashape)
        elif l[0] == "sl":
            shape.append(len(l[2]))
        else:
            shape.append(1)
    vals = []
    na = numel(ashape)
    rngs = []
    for l in layout:
        if l[0] == "adv":
            rngs.append(range(na))
        elif l[0] == "sl":
            rngs.append(l[2])
        else:
            rngs.append(range(1))
    dd = t.st.data
    for tup in iproduct(*rngs):
        fixed = 0
        ai = 0
        for l, v in zip(layout, tup):
            if l[0] == "adv":
                ai = v
            elif l[0] == "sl":
                fixed += v * t.strides[l[1]]
        sym = []
        base = t.off + fixed
        for e, av in zip(advs, avals):
            p = av[ai]
            dm = e[1]
            n, st = t.shape[dm], t.strides[dm]
            if p.is_const():
                c = p.cval()
                if not -n <= c < n:
                    raise AbsRaise("IndexError", "index %s is out of bounds for dimension %d with size %d" % (c, dm, n))
                base += (c % n) * st
            else:
                lo, hi = T.interval(p)
                if hi < -n or lo >= n:
                    raise AbsRaise("IndexError", "index is out of bounds")
                sym.append((p, n, st))
        vals.append(_symsel(dd, base, sym))
    return new(vals, shape, t.dtype, t.rg)


def _symsel(dd, base, sym):
    if not sym:
        return dd[base]
    p, n, st = sym[0]
    return T.sel(tuple(_symsel(dd, base + k * st, sym[1:]) for k in range(n)), p)


def index_set(t, ix, val, op="setitem"):
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = _expand_ell(t, ix)
    basic = all(i is None or isinstance(i, slice) or (not isinstance(i, (list, Sym)) and _cint(i) is not None and not (isinstance(i, Tensor) and i.shape != ())) for i in ix)
    v = as_t(val)
    if basic:
        dst = _basic(t, ix)
        if t.rg and t.leaf and Ctx.grad_enabled:
            check_inplace(t)
        bs = v
        # leading ones of the value may be dropped
        while len(bs.shape) > len(dst.shape) and bs.shape[0] == 1:
            bs = squeeze(bs, 0)
        if bshape(dst.shape, bs.shape) != dst.shape:
            raise AbsRaise("RuntimeError", "shape mismatch in assignment: %s into %s" % (v.shape, dst.shape))
        write(dst, castl(bget(bs, dst.shape), v.dtype, t.dtype), op)
        return
    # mask or index assignment on the first dims
    if len([i for i in ix if not (isinstance(i, slice) and i == slice(None))]) == 1:
        k, i = next((k, i) for k, i in enumerate(ix) if not (isinstance(i, slice) and i == slice(None)))
        i = _to_index(i)
        if isinstance(i, Tensor) and i.dtype.kind == "b" and i.shape == t.shape[:len(i.shape)] and k == 0:
            mask = reshape(i, tuple(i.shape) + (1,) * (len(t.shape) - len(i.shape)))
            mv = bget(mask, t.shape)
            if all(x.is_const() for x in mv) and v.numel() != 1:
                old = t.get()
                cnt = sum(1 for x in mv if x.cval())
                src = castl(v.get(), v.dtype, t.dtype)
                if len(src) != cnt:
                    raise Unmodelled("mask assignment broadcast")
                it = iter(src)
                write(t, [next(it) if x.cval() else o for x, o in zip(mv, old)], op)
                return
            if v.numel() != 1:
                raise Unmodelled("mask assignment of a tensor")
            x = castl(v.get(), v.dtype, t.dtype)[0]
            write(t, [T.ite(m, x, o) for m, o in zip(mv, t.get())], op)
            return
        if isinstance(i, Tensor) and i.dtype.kind == "i":
            idx = i.get()
            n = t.shape[k]
            rest = t.shape[:k] + i.shape + t.shape[k + 1:]
            vv = bget(new(castl(v.get(), v.dtype, t.dtype), v.shape, t.dtype), rest)
            outer, inner, m = numel(t.shape[:k]), numel(t.shape[k + 1:]), i.numel()
            cur = t.get()
            for o in range(outer):
                for j in range(m):
                    p = idx[j]
                    if p.is_const() and not -n <= p.cval() < n:
                        raise AbsRaise("IndexError", "index out of range")
                    for r in range(inner):
                        x = vv[(o * m + j) * inner + r]
                        for q in range(n):
                            at = (o * n + q) * inner + r
                            if p.is_const():
                                if p.cval() % n == q:
                                    cur[at] = x
                            else:
                                c = T.eq(p, P(q))
                                if T.interval(p)[0] < 0:
                                    c = T.add(c, T.eq(p, P(q - n)))
                                cur[at] = T.ite(c, x, cur[at])
            write(t, cur, op)
            return
    raise Unmodelled("indexed assignment")
