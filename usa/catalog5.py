"""Variants of scenarios: the same unit and reference, used differently.

eval    the unit is switched to evaluation mode before its first call
strided every caller tensor is a view into a larger storage (column-major, every second element)
alias   one tensor object is passed for both operands
mixed   a stateless unit (or one that restarts when the size changes) is called with tensors of different sizes in turn
"""
from . import terms as T
from . import tensor as TT
from .tensor import Tensor, Storage, DT
from .scen import Scn, In
from .catalog2 import Pure


class Strided(In):
    def tensor(self):
        vals = self.atoms()
        strides, step = [0] * len(self.shape), 2
        for d in range(len(self.shape)):
            strides[d] = step
            step *= max(1, self.shape[d])
        lo, hi = (0, 1) if self.kind == "bit" else (-64, 64)
        n = step + 1
        data = [T.var("junk:%s:%d" % (self.name, i), lo, hi, self.dtype[0] != "f" or self.kind == "bit") for i in range(n)]
        t = Tensor(Storage(data), self.shape, DT[self.dtype], strides, 1)
        for p, v in zip(t.positions(), vals):
            data[p] = v
        t.owner = t.st.owner = "caller:%s" % self.name
        return t


def renamed(s, name, **kw):
    d = dict(ins=s.ins, call=s._call, ref=s.ref, tags=s.tags, info=s.info, build=s.build)
    d.update(kw)
    return Scn("%s{%s}" % (s.name, name), s.unit, d.pop("build"), d.pop("ins"), **d)


def as_(how, mk):
    def f(**kw):
        return HOW[how](mk(**kw))
    f.__name__ = "%s_%s" % (mk.__name__, how)
    f.base = mk
    return f


def eval_(s):
    def build(env):
        o = s.build(env)
        env.method(o, "eval")
        return o
    return renamed(s, "eval", build=build)


def strided(s):
    return renamed(s, "strided", ins=[Strided(i.name, i.shape, i.dtype, i.kind, i.lo, i.hi, i.value) if i.kind != "const" else i for i in s.ins])


def alias(s):
    a, b = s.ins
    ref = s.ref

    class R(type(ref)):
        def __init__(self):
            self.__dict__.update(vars(ref))

        def step(self, st, ins):
            return ref.step(st, {a.name: ins[a.name], b.name: ins[a.name]})

    def call(env, o, x):
        return s.call(env, o, [x[0], x[0]])
    return renamed(s, "alias", ins=[a], call=call, ref=R())


HOW = {"eval": eval_, "strided": strided, "alias": alias}


def mixed(mk, sizes, **kw):
    """calls in turn with the sizes of each entry of `sizes` (the unit itself does not depend on them)"""
    ss = [mk(**dict(kw, **s)) for s in sizes]
    ins = []
    for k, s in enumerate(ss):
        for i in s.ins:
            ins.append(In("%s%d" % (i.name, k), i.shape, i.dtype, i.kind, i.lo, i.hi, i.value))

    def call(env, o, a):
        r, a = [], list(a)
        for s in ss:
            x, a = a[:len(s.ins)], a[len(s.ins):]
            r.append(s.call(env, o, x))
        return tuple(r)

    def f(d):
        r = []
        for k, s in enumerate(ss):
            o, _ = s.ref.step(s.ref.init(None) or {}, {i.name: d["%s%d" % (i.name, k)] for i in s.ins})
            r += o
        return r
    return Scn("%s{%s}" % (ss[0].name, " then ".join(str(s) for s in sizes)), ss[0].unit, ss[0].build, ins, call=call, ref=Pure(f), tags=ss[0].tags, info=ss[0].info)


def mixed_(mk, *sizes):
    def f(**kw):
        return mixed(mk, sizes, **kw)
    f.__name__ = "%s_mixed[%s]" % (mk.__name__, ";".join(",".join("%s=%s" % x for x in s.items()) for s in sizes))
    f.base = mk
    return f
