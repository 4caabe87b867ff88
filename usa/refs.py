"""Reference automata, written from the documented behaviour of the units (element lists of normal
forms).  They share no code with the repository."""
import math
from fractions import Fraction
from . import terms as T
from . import tensor as TT
from .terms import P, ZERO, ONE
from .compare import Ref
from .torchmodel import sobol_points

HALF = Fraction(1, 2)


def rng_table(kind, width, dim):
    kind = kind.lower()
    n = 2 ** width
    if kind in ("sobol", "rc"):
        return tuple(P(math.floor(x * n)) for x in sobol_points(dim, n))
    if kind in ("race", "tc"):
        return tuple(P(i) for i in range(n))
    if kind in ("race10", "tc10"):
        return tuple(P(n - 1 - i) for i in range(n))
    raise KeyError(kind)


TEMPORAL = ("race", "tc", "race10", "tc10")


WRAPPED = set()


def adv(key, p, n):
    """advance of an index that is only ever used modulo n: the reduced and the unreduced counter
    are the same automaton; the comparison picks, per index, the one the code uses"""
    return T.mod(p, n) if key in WRAPPED else p


def at(table, idx):
    """table[idx mod len]"""
    return T.sel(tuple(table), T.mod(P(idx), len(table)))


def encode(p, width, mode):
    """value -> integer in 0..2^width"""
    p = P(p)
    if mode == "bipolar":
        p = T.scale(T.add(p, ONE), HALF)
    return T.pround(T.scale(p, 2 ** width))


def groups(shape, dim):
    """reduce `dim`: output shape and, per output element, the input positions"""
    dim %= len(shape)
    oshape = tuple(s for i, s in enumerate(shape) if i != dim)
    st = TT.contig(shape)
    ost = [st[i] for i in range(len(shape)) if i != dim]
    pos = [0]
    for s, k in zip(oshape, ost):
        pos = [b + i * k for b in pos for i in range(s)]
    return oshape, [[b + i * st[dim] for i in range(shape[dim])] for b in pos]


# ------------------------------------------------------------------------ blocks
# every block: key prefix, init() -> {key: [Poly]}, step(st, new, inputs) -> outputs
class Block:
    def __init__(self, key, n):
        self.key, self.n = key, n
        self.kinds, self.mods = {}, {}

    def index(self, k, n):
        self.mods[self.k(k)] = n

    def k(self, s):
        return self.key + "." + s


class AddB(Block):
    """counter that absorbs `delta` per cycle and emits a 1 whenever it holds >= scale"""

    def __init__(self, key, n, depth, scale, offset):
        super().__init__(key, n)
        self.hi = P(2 ** (depth - 2))
        self.lo = P(-2 ** (depth - 2))
        self.scale, self.offset = P(scale), P(offset)
        if not (T.is_int(self.scale) and T.is_int(self.offset)):
            self.kinds = {self.k("acc"): "real"}

    def init(self):
        return {self.k("acc"): [ZERO] * self.n}

    def step(self, st, new, delta):
        out, acc = [], []
        for a, d in zip(st[self.k("acc")], delta):
            a = T.clamp(a + d - self.offset, self.lo, self.hi)
            o = T.ge(a, self.scale)
            out.append(o)
            acc.append(T.clamp(a - o * self.scale, self.lo, self.hi))
        new[self.k("acc")] = acc
        return out


class Bi2UniB(Block):
    def __init__(self, key, n, depth):
        super().__init__(key, n)
        self.hi, self.lo = P(2 ** (depth - 2)), P(-2 ** (depth - 2))

    def init(self):
        return {self.k("acc"): [ZERO] * self.n}

    def step(self, st, new, x):
        out, acc = [], []
        for a, b in zip(st[self.k("acc")], x):
            a = T.clamp(a + b * 2 - 1, self.lo, self.hi)
            o = T.ge(a, ONE)
            out.append(o)
            acc.append(a - o)
        new[self.k("acc")] = acc
        return out


class Uni2BiB(Bi2UniB):
    def step(self, st, new, x):
        out, acc = [], []
        for a, b in zip(st[self.k("acc")], x):
            a = T.clamp(a + b + 1, self.lo, self.hi)
            o = T.ge(a, P(2))
            out.append(o)
            acc.append(a - o * 2)
        new[self.k("acc")] = acc
        return out


class SyncB(Block):
    def __init__(self, key, n, depth):
        super().__init__(key, n)
        self.up = P(2 ** depth - 1)

    def init(self):
        return {self.k("cnt"): [ZERO] * self.n}

    def step(self, st, new, x, y):
        out, cnt = [], []
        for c, a, b in zip(st[self.k("cnt")], x, y):
            one = a * (1 - b)          # only input 1 is 1
            two = (1 - a) * b          # only input 2 is 1
            full = T.ge(c, self.up)
            empty = T.le(c, ZERO)
            out.append(a * b + one * full + two * (1 - empty))
            cnt.append(T.clamp(c + one - two, ZERO, self.up))
        new[self.k("cnt")] = cnt
        return out, list(y)


class ShiftB(Block):
    """entry-deep shift register; contents element-wise per entry"""

    def __init__(self, key, n, entry):
        super().__init__(key, n)
        self.entry = entry

    def init(self):
        return {self.k("sr%d" % i): [P(i % 2)] * self.n for i in range(self.entry)}

    def regs(self, st):
        return [st[self.k("sr%d" % i)] for i in range(self.entry)]

    def step(self, st, new, x, mask=None):
        r = self.regs(st)
        nxt = r[1:] + [list(x)]
        for i in range(self.entry):
            if mask is None:
                new[self.k("sr%d" % i)] = nxt[i]
            else:
                new[self.k("sr%d" % i)] = [T.ite(m, a, b) for m, a, b in zip(mask, nxt[i], r[i])]
        cnt = [sum((r[i][j] for i in range(self.entry)), ZERO) for j in range(self.n)]
        return r, cnt


class CordivB(Block):
    def __init__(self, key, n, entry, rng, dimr):
        super().__init__(key, n)
        self.entry = entry
        self.sr = ShiftB(key + ".sr", n, entry)
        self.tab = rng_table(rng, int(math.log2(entry)), dimr)
        self.index("idx", entry)

    def init(self):
        d = self.sr.init()
        d[self.k("idx")] = [ZERO]
        return d

    def step(self, st, new, dividend, divisor):
        r = self.sr.regs(st)
        idx = st[self.k("idx")][0]
        pick = T.mod(idx, self.entry)
        q = []
        for j in range(self.n):
            h = T.sel(tuple(r[int(t.cval())][j] for t in self.tab), pick)
            q.append(T.ite(divisor[j], dividend[j], h))
        new[self.k("idx")] = [adv(self.k("idx"), idx + 1, self.entry)]
        self.sr.step(st, new, q, mask=divisor)
        return q


class SignAbsB(Block):
    def __init__(self, key, n, depth):
        super().__init__(key, n)
        self.half, self.max = P(2 ** (depth - 1)), P(2 ** depth - 1)

    def init(self):
        return {self.k("acc"): [self.half] * self.n}

    def step(self, st, new, x):
        s, o, acc = [], [], []
        for a, b in zip(st[self.k("acc")], x):
            a = T.clamp(a + b * 2 - 1, ZERO, self.max)
            g = T.lt(a, self.half)
            s.append(g)
            o.append(T.bxor(g, b))
            acc.append(a)
        new[self.k("acc")] = acc
        return s, o


class ReLUB(SignAbsB):
    def step(self, st, new, x):
        o, acc = [], []
        for a, b in zip(st[self.k("acc")], x):
            neg = T.lt(a, self.half)
            y = T.bor(b, neg)
            o.append(y)
            acc.append(T.clamp(a + y * 2 - 1, ZERO, self.max))
        new[self.k("acc")] = acc
        return o


class JKB(Block):
    def init(self):
        return {self.k("q"): [ZERO] * self.n}

    def step(self, st, new, j, k):
        q = [a * (1 - c) + (1 - a) * b for a, b, c in zip(st[self.k("q")], j, k)]
        new[self.k("q")] = q
        return q


class MulStaticB(Block):
    """src: encoded values; rate coded second operand generated on demand"""

    def __init__(self, key, n, width, mode, rng, dimr, src):
        super().__init__(key, n)
        self.mode, self.tab, self.src = mode, rng_table(rng, width, dimr), src
        self.index("i1", len(self.tab))
        self.index("i0", len(self.tab))

    def init(self):
        d = {self.k("i1"): [ZERO] * self.n}
        if self.mode == "bipolar":
            d[self.k("i0")] = [ZERO] * self.n
        return d

    def step(self, st, new, x):
        out = []
        for j in range(self.n):
            b1 = T.gt(self.src[j], at(self.tab, st[self.k("i1")][j]))
            y = x[j] * b1
            if self.mode == "bipolar":
                b0 = T.gt(self.src[j], at(self.tab, st[self.k("i0")][j]))
                y = y + (1 - x[j]) * (1 - b0)
            out.append(y)
        new[self.k("i1")] = [adv(self.k("i1"), a + b, len(self.tab)) for a, b in zip(st[self.k("i1")], x)]
        if self.mode == "bipolar":
            new[self.k("i0")] = [adv(self.k("i0"), a + 1 - b, len(self.tab)) for a, b in zip(st[self.k("i0")], x)]
        return out


class MulStreamB(Block):
    def __init__(self, key, n, width, mode, rng, dimr):
        super().__init__(key, n)
        self.mode, self.tab = mode, rng_table(rng, width, dimr)
        self.N = 2 ** width
        self.index("i1", self.N)
        self.index("i0", self.N)
        self.sr = ShiftB(key + ".sr", n, self.N)

    def init(self):
        d = self.sr.init()
        d[self.k("i1")] = [ZERO] * self.n
        if self.mode == "bipolar":
            d[self.k("i0")] = [ZERO] * self.n
        return d

    def step(self, st, new, x, y):
        r, cnt = self.sr.step(st, new, y)
        out = []
        for j in range(self.n):
            z = x[j] * T.gt(cnt[j], at(self.tab, st[self.k("i1")][j]))
            if self.mode == "bipolar":
                z = z + (1 - x[j]) * (1 - T.gt(cnt[j], at(self.tab, st[self.k("i0")][j])))
            out.append(z)
        new[self.k("i1")] = [adv(self.k("i1"), a + b, self.N) for a, b in zip(st[self.k("i1")], x)]
        if self.mode == "bipolar":
            new[self.k("i0")] = [adv(self.k("i0"), a + 1 - b, self.N) for a, b in zip(st[self.k("i0")], x)]
        return out


class DivB(Block):
    def __init__(self, key, n, mode, depth_sa, depth_ss, entry_kn, rng, dimr):
        super().__init__(key, n)
        self.mode = mode
        self.sync = SyncB(key + ".ss", n, depth_ss)
        self.kn = CordivB(key + ".kn", n, entry_kn, rng, dimr)
        self.sub = [self.sync, self.kn]
        if mode == "bipolar":
            self.sa1, self.sa2 = SignAbsB(key + ".sa1", n, depth_sa), SignAbsB(key + ".sa2", n, depth_sa)
            self.b1, self.b2 = Bi2UniB(key + ".b1", n, 3), Bi2UniB(key + ".b2", n, 3)
            self.u = Uni2BiB(key + ".u", n, 4)
            self.sub += [self.sa1, self.sa2, self.b1, self.b2, self.u]

    def init(self):
        d = {}
        for s in self.sub:
            d.update(s.init())
        return d

    def step(self, st, new, x, y):
        if self.mode == "bipolar":
            s1, x = self.sa1.step(st, new, x)
            s2, y = self.sa2.step(st, new, y)
            x, y = self.b1.step(st, new, x), self.b2.step(st, new, y)
        a, b = self.sync.step(st, new, x, y)
        q = self.kn.step(st, new, a, b)
        if self.mode == "bipolar":
            q = self.u.step(st, new, q)
            q = [T.bxor(T.bxor(a, b), c) for a, b, c in zip(s1, s2, q)]
        return q


class SqrtB(Block):
    def __init__(self, key, n, mode, jk, emit, entry_sr, rng):
        super().__init__(key, n)
        self.mode, self.jk, self.emit = mode, jk, emit
        self.sub = []
        if emit:
            self.add = AddB(key + ".add", n, 10, 1, 0)
            self.sr = ShiftB(key + ".sr", n, entry_sr)
            self.sub += [self.add, self.sr]
        elif jk:
            self.ff = JKB(key + ".jk", n)
            self.sub += [self.ff]
        else:
            self.kn = CordivB(key + ".kn", n, 4, rng, 4)
            self.sub += [self.kn]
        if mode == "bipolar":
            self.b2u = Bi2UniB(key + ".b2u", n, 3)
            self.sub.append(self.b2u)

    def init(self):
        d = {}
        for s in self.sub:
            d.update(s.init())
        if self.emit:
            d[self.k("fb")] = [ZERO] * self.n
        else:
            d[self.k("tr")] = [ZERO] * self.n
            if not self.jk:
                d[self.k("dff")] = [ZERO]
        return d

    def step(self, st, new, x):
        if self.emit:
            out = self.add.step(st, new, [a + b for a, b in zip(x, st[self.k("fb")])])
            r, _ = self.sr.step(st, new, [1 - o for o in out])
            o = self.b2u.step(st, new, out) if self.mode == "bipolar" else out
            new[self.k("fb")] = [a * b for a, b in zip(r[0], o)]
            return out
        tr = st[self.k("tr")]
        out = [t + (1 - t) * a for t, a in zip(tr, x)]
        o = self.b2u.step(st, new, out) if self.mode == "bipolar" else out
        if self.jk:
            new[self.k("tr")] = self.ff.step(st, new, o, [ONE] * self.n)
        else:
            d = st[self.k("dff")][0]
            dividend = [(1 - d) * a for a in o]
            divisor = [d + a for a in dividend]
            new[self.k("tr")] = self.kn.step(st, new, dividend, divisor)
            new[self.k("dff")] = [1 - d]
        return out


class LinPCB(Block):
    """bits of every product of a batch x in input with an out x in weight, counted per output"""

    def __init__(self, key, batch, nin, nout, width, mode, rng, dimr, w, b):
        super().__init__(key, batch * nout)
        self.B, self.I, self.O, self.mode = batch, nin, nout, mode
        self.tab = rng_table(rng, width, dimr)
        self.tc = rng.lower() in TEMPORAL
        self.w, self.b = w, b
        for k in ("t", "i1", "i0"):
            self.index(k, len(self.tab))

    def init(self):
        d = {}
        if self.tc:
            d[self.k("t")] = [ZERO]
        else:
            d[self.k("i1")] = [ZERO] * (self.B * self.I)
            if self.mode == "bipolar":
                d[self.k("i0")] = [ZERO] * (self.B * self.I)
        if self.b is not None and not self.tc:
            d[self.k("t")] = [ZERO]
        return d

    def step(self, st, new, x):
        out = []
        for n in range(self.B):
            for o in range(self.O):
                s = ZERO
                for i in range(self.I):
                    a = x[n * self.I + i]
                    w = self.w[o * self.I + i]
                    if self.tc:
                        b1 = b0 = T.gt(w, at(self.tab, st[self.k("t")][0]))
                    else:
                        b1 = T.gt(w, at(self.tab, st[self.k("i1")][n * self.I + i]))
                        if self.mode == "bipolar":
                            b0 = T.gt(w, at(self.tab, st[self.k("i0")][n * self.I + i]))
                    s = s + a * b1
                    if self.mode == "bipolar":
                        s = s + (1 - a) * (1 - b0)
                if self.b is not None:
                    s = s + T.gt(self.b[o], at(self.tab, st[self.k("t")][0]))
                out.append(s)
        if self.k("t") in st:
            new[self.k("t")] = [adv(self.k("t"), st[self.k("t")][0] + 1, len(self.tab))]
        if not self.tc:
            new[self.k("i1")] = [adv(self.k("i1"), a + b, len(self.tab)) for a, b in zip(st[self.k("i1")], x)]
            if self.mode == "bipolar":
                new[self.k("i0")] = [adv(self.k("i0"), a + 1 - b, len(self.tab)) for a, b in zip(st[self.k("i0")], x)]
        return out


# ------------------------------------------------------------------------ reference wrappers
class BlockRef(Ref):
    """init/step from a function of the block outputs"""

    def __init__(self, blocks, run, extra_init=None, kinds=None):
        self.blocks, self.run = blocks, run
        self.extra = extra_init or {}
        self.kinds = dict(kinds or {})
        self.mods = {}
        self.delay = 0          # longest shift register: cells behind it need that many steps to differ
        todo = list(blocks)
        while todo:
            b = todo.pop()
            self.kinds.update(b.kinds)
            self.mods.update(b.mods)
            self.delay = max(self.delay, getattr(b, "entry", 0) or 0)
            todo += [x for x in vars(b).values() if isinstance(x, Block)]

    def init(self, params):
        d = {}
        for b in self.blocks:
            d.update(b.init())
        d.update(self.extra)
        return d

    def step(self, st, ins):
        new = {}
        outs = self.run(st, new, ins)
        for k in st:
            new.setdefault(k, st[k])
        return outs, new
