"""Value-numbering term domain.

Every scalar the analysed program can hold is abstracted by a *normal form*: a
polynomial (rational coefficients) over hash-consed atoms.  Atoms are
  var   an abstract input / state cell, with an interval and integrality,
  ge/gt a predicate  p >= 0  /  p > 0  (a 0/1 atom),
  fn    an interpreted function application (floor, round, mod, sel, inv, ...).
Two program fragments that compute the same function of their inputs get the same
normal form in the fragment of the language the repository uses: bits are
idempotent, comparisons that only depend on bits are expanded into multilinear
polynomials, clamps are piecewise linear forms over comparison atoms, and
comparisons of univariate piecewise forms are reduced to comparisons of the base.
"""
from fractions import Fraction
from itertools import product as iproduct
from math import gcd, inf, floor as mfloor, log2, sqrt, ldexp, frexp
import math

NUM = (int, Fraction)


class TermTooBig(Exception):
    pass


class Budget:
    max_monos = 6000


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "data", "isint", "lo", "hi", "isbit", "base", "cst")

    def __repr__(self):
        return show_atom(self)


_atoms = []
_index = {}


def _mk(kind, data, isint, lo, hi, base=None, cst=None):
    key = (kind, data)
    a = _index.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.data, a.isint, a.lo, a.hi = kind, data, isint, lo, hi
        a.isbit = isint and lo >= 0 and hi <= 1
        a.base, a.cst = base, cst
        _atoms.append(a)
        _index[key] = a
    return a


def atom(i):
    return _atoms[i]


class Poly:
    """Immutable polynomial.  t: dict mono -> coef, mono: tuple of atom ids (sorted)."""
    __slots__ = ("t", "_key", "_h", "_iv", "_int", "_at")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._h = None
        self._iv = None
        self._int = None
        self._at = None

    @property
    def key(self):
        k = self._key
        if k is None:
            k = self._key = tuple(sorted(self.t.items()))
        return k

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(self.key)
        return h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), 0)

    def __repr__(self):
        return show(self)

    # python operators, convenient for the reference models
    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, P(o))

    def __rsub__(self, o):
        return sub(P(o), self)

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, -1)

    def __truediv__(self, o):
        return div(self, P(o))

    def __rtruediv__(self, o):
        return div(P(o), self)


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def num(x):
    """python number -> exact rational (decimal literals are read exactly)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _norm(x)
    if isinstance(x, float):
        if x != x or x in (inf, -inf):
            raise ValueError("non finite")
        if x == int(x):
            return int(x)
        f = Fraction(x)
        g = f.limit_denominator(10 ** 6)
        if abs(float(g) - x) <= 1e-15 * max(1.0, abs(x)):
            return _norm(g)
        return _norm(f)
    raise TypeError(x)


_consts = {}


def const(c):
    c = num(c)
    p = _consts.get(c)
    if p is None:
        p = _consts[c] = Poly({(): c} if c != 0 else {})
    return p


ZERO, ONE = const(0), const(1)


def P(x):
    return x if isinstance(x, Poly) else const(x)


def from_atom(a):
    return Poly({(a.id,): 1})


def var(name, lo=-inf, hi=inf, isint=False):
    """An abstract cell.  The bounds are part of the identity."""
    return from_atom(_mk("var", (name, lo, hi, isint), isint, lo, hi))


def bit(name):
    return var(name, 0, 1, True)


def add(a, b):
    if not b.t:
        return a
    if not a.t:
        return b
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v == 0:
                del t[m]
            else:
                t[m] = _norm(v)
    if len(t) > Budget.max_monos:
        raise TermTooBig()
    return Poly(t)


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return Poly({m: _norm(c * k) for m, c in a.t.items()})


def sub(a, b):
    return add(a, scale(b, -1))


_mono_cache = {}


def _mono_mul(m1, m2):
    """product of two monomials -> (coef, mono) or None for a product that is not a
    single monomial (handled through Poly)."""
    if not m1:
        return 1, m2
    if not m2:
        return 1, m1
    k = (m1, m2)
    r = _mono_cache.get(k)
    if r is None:
        r = _mono_cache[k] = _mono_mul0(m1, m2)
    return r


def _mono_mul0(m1, m2):
    ids = sorted(m1 + m2)
    out = []
    seen = set()
    preds = {}
    invs = []
    plain = True
    for i in ids:
        a = _atoms[i]
        if a.isbit:
            if i in seen:
                continue
            seen.add(i)
        if a.kind in ("ge", "gt"):
            preds.setdefault(a.base, []).append(a)
        elif a.kind == "fn" and a.data[0] == "pow2":
            plain = False
        elif a.kind == "fn" and a.data[0] == "inv":
            invs.append(i)
        out.append(i)
    coef = 1
    for i in invs:
        # x * (1/x) = 1 where x cannot be 0
        q = _atoms[i].data[1][0]
        if len(q.t) != 1:
            continue
        (mm, cc), = q.t.items()
        if cc != 1 or any(out.count(j) < mm.count(j) for j in mm):
            continue
        lo, hi = interval(q)
        if lo > 0 or hi < 0:
            out.remove(i)
            for j in mm:
                out.remove(j)
    # predicates over the same base: the stronger one absorbs the weaker
    for base, lst in preds.items():
        if len(lst) > 1:
            # a: base + cst >= 0 ; larger cst is weaker ; on a tie ge is weaker
            best = min(lst, key=lambda a: (a.cst, 0 if a.kind == "gt" else 1))
            for a in lst:
                if a is not best:
                    out.remove(a.id)
    if not plain:
        e = ZERO
        rest = []
        n = 0
        for i in out:
            a = _atoms[i]
            if a.kind == "fn" and a.data[0] == "pow2":
                e = add(e, a.data[1][0])
                n += 1
            else:
                rest.append(i)
        if n > 1:
            q = pow2(e)
            if len(q.t) == 1:
                (mm, cc), = q.t.items()
                return cc, tuple(sorted(tuple(rest) + mm))
    return coef, tuple(out)


_mul_cache = {}


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) == 1 and () in a.t:
        return scale(b, a.t[()])
    if len(b.t) == 1 and () in b.t:
        return scale(a, b.t[()])
    if len(a.t) * len(b.t) > 4 * Budget.max_monos:
        raise TermTooBig()
    big = len(a.t) * len(b.t) > 16
    if big:
        ck = (a, b)
        r = _mul_cache.get(ck)
        if r is not None:
            return r
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            k, m = _mono_mul(m1, m2)
            c = c1 * c2
            if k != 1:
                c = c * k
            v = t.get(m)
            t[m] = c if v is None else v + c
    t = {m: _norm(c) for m, c in t.items() if c != 0}
    if len(t) > Budget.max_monos:
        raise TermTooBig()
    r = Poly(t)
    if big:
        _mul_cache[ck] = r
    return r


def div(a, b):
    if b.is_const():
        c = b.cval()
        if c == 0:
            return mul(a, fn("inv", (ZERO,)))
        return scale(a, Fraction(1) / c)
    return mul(a, inv(b))


def inv(p):
    if p.is_const() and p.cval() != 0:
        return const(Fraction(1) / Fraction(p.cval()))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1:
            a = _atoms[m[0]]
            if a.kind == "fn" and a.data[0] == "pow2":
                return scale(pow2(scale(a.data[1][0], -1)), Fraction(1) / Fraction(c))
            if a.kind == "fn" and a.data[0] == "inv":
                return scale(a.data[1][0], Fraction(1) / Fraction(c))
    g, q = content(p)
    return scale(fn("inv", (q,)), Fraction(1) / g)


# ----------------------------------------------------------------------------- facts
def atoms_of(p):
    """ids of the atoms directly occurring in p"""
    s = p._at
    if s is None:
        s = set()
        for m in p.t:
            s.update(m)
        p._at = s = frozenset(s)
    return s


def is_int(p):
    r = p._int
    if r is None:
        r = all(isinstance(c, int) for c in p.t.values()) and all(_atoms[i].isint for i in atoms_of(p))
        if not r and all(_atoms[i].isint for i in atoms_of(p)):
            # half coefficients can still sum up to an integer on bits; decide by table
            bits = [i for i in atoms_of(p) if _atoms[i].isbit]
            if len(bits) == len(atoms_of(p)) and len(bits) <= 6:
                r = all(isinstance(v, int) for v in _table(p, bits).values())
        p._int = r
    return r


def _table(p, bits):
    pos = {b: k for k, b in enumerate(bits)}
    res = {}
    monos = [(sum(1 << pos[i] for i in m), c) for m, c in p.t.items()]
    for v in range(1 << len(bits)):
        s = 0
        for mask, c in monos:
            if mask & v == mask:
                s += c
        res[v] = _norm(s)
    return res


def _from_table(vals, bits):
    """multilinear polynomial with the given value for each assignment (Moebius)"""
    n = len(bits)
    f = [vals[v] for v in range(1 << n)]
    for k in range(n):
        for v in range(1 << n):
            if v >> k & 1:
                f[v] -= f[v ^ (1 << k)]
    t = {}
    for v in range(1 << n):
        if f[v] != 0:
            t[tuple(sorted(bits[k] for k in range(n) if v >> k & 1))] = _norm(f[v])
    # monomials may merge further through predicate absorption
    if any(_atoms[b].kind in ("ge", "gt") for b in bits):
        r = ZERO
        for m, c in t.items():
            q = const(c)
            for i in m:
                q = mul(q, Poly({(i,): 1}))
            r = add(r, q)
        return r
    return Poly(t)


def _imul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def mono_interval(m):
    lo, hi = 1, 1
    i = 0
    n = len(m)
    while i < n:
        a = _atoms[m[i]]
        j = i
        while j < n and m[j] == m[i]:
            j += 1
        e = j - i
        l, h = a.lo, a.hi
        if e > 1:
            if e % 2 == 0:
                c = [l ** e if l not in (inf, -inf) else inf, h ** e if h not in (inf, -inf) else inf]
                nl = 0 if l <= 0 <= h else min(c)
                l, h = nl, max(c)
            else:
                l, h = (l ** e if l not in (inf, -inf) else l), (h ** e if h not in (inf, -inf) else h)
        c = (_imul(lo, l), _imul(lo, h), _imul(hi, l), _imul(hi, h))
        lo, hi = min(c), max(c)
        i = j
    return lo, hi


def interval(p):
    r = p._iv
    if r is not None:
        return r
    lo = hi = 0
    for m, c in p.t.items():
        l, h = mono_interval(m)
        a, b = _imul(c, l), _imul(c, h)
        if a > b:
            a, b = b, a
        lo += a
        hi += b
    r = (lo, hi)
    # refine by splitting on the bit atoms
    bits = [i for i in atoms_of(p) if _atoms[i].isbit]
    if lo != hi and 0 < len(bits) <= 7 and any(len(m) > 1 for m in p.t):
        nlo, nhi = inf, -inf
        for vals in iproduct((0, 1), repeat=len(bits)):
            asg = dict(zip(bits, vals))
            if not _consistent(asg):
                continue
            l2 = h2 = 0
            part = {}
            for m, c in p.t.items():
                rm = []
                z = False
                for i in m:
                    v = asg.get(i)
                    if v is None:
                        rm.append(i)
                    elif v == 0:
                        z = True
                        break
                if not z:
                    rm = tuple(rm)
                    part[rm] = part.get(rm, 0) + c
            q = Poly({m: _norm(c) for m, c in part.items() if c != 0})
            l2, h2 = _interval_under(q, asg)
            if l2 > h2:
                continue
            nlo, nhi = min(nlo, l2), max(nhi, h2)
        if nlo <= nhi:
            r = (max(lo, nlo), min(hi, nhi))
    p._iv = r
    return r


def _interval0(p):
    lo = hi = 0
    for m, c in p.t.items():
        l, h = mono_interval(m)
        a, b = _imul(c, l), _imul(c, h)
        if a > b:
            a, b = b, a
        lo += a
        hi += b
    return lo, hi


def _consistent(asg):
    """predicates over one base are ordered"""
    byb = {}
    for i, v in asg.items():
        a = _atoms[i]
        if a.kind in ("ge", "gt"):
            byb.setdefault(a.base, []).append((a.cst, 0 if a.kind == "gt" else 1, v))
    for lst in byb.values():
        lst.sort()
        # increasing cst = weaker: values must be non decreasing
        last = 0
        for _, _, v in lst:
            if v < last:
                return False
            last = max(last, v)
    return True


def _interval_under(q, asg):
    """interval of q given the predicate values in asg (uses q = k*base + rest)"""
    lo, hi = _interval0(q)
    if lo == hi:
        return lo, hi
    bases = {}
    for i, v in asg.items():
        a = _atoms[i]
        if a.kind in ("ge", "gt"):
            b = bases.setdefault(a.base, [-inf, inf])
            # v=1: base >= -cst ; v=0: base < -cst
            # the base may mention bits fixed by asg
            if v:
                b[0] = max(b[0], -a.cst)
            else:
                lim = -a.cst
                if a.kind == "ge" and is_int(Poly(dict(a.base))):
                    lim = math.ceil(lim) - 1
                b[1] = min(b[1], lim)
    for bk, (bl, bh) in bases.items():
        base = Poly(dict(bk))
        bb = subst_bits(base, asg)
        l0, h0 = _interval0(bb)
        l1, h1 = max(bl, l0), min(bh, h0)
        if l1 > h1:
            return 1, 0
        # q = k*bb + rest
        if bb.t:
            m0 = max((m for m in bb.t if m), default=None)
            if m0 is not None and m0 in q.t:
                k = Fraction(q.t[m0]) / bb.t[m0]
                rest = sub(q, scale(bb, k))
                rl, rh = _interval0(rest)
                a, b = _imul(k, l1), _imul(k, h1)
                if a > b:
                    a, b = b, a
                lo, hi = max(lo, a + rl), min(hi, b + rh)
    return lo, hi


def is_bit(p):
    if not p.t:
        return True
    if not is_int(p):
        return False
    lo, hi = interval(p)
    if lo >= 0 and hi <= 1:
        return True
    bits = [i for i in atoms_of(p) if _atoms[i].isbit]
    if len(bits) == len(atoms_of(p)) and len(bits) <= 10:
        tab = _table(p, bits)
        return all(v in (0, 1) or not _consistent({b: (k >> j) & 1 for j, b in enumerate(bits)})
                   for k, v in tab.items())
    return False


def content(p):
    """positive g and q with p = g*q, q primitive integer"""
    n, d = 0, 1
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            d = d * c.denominator // gcd(d, c.denominator)
    for m, c in p.t.items():
        n = gcd(n, int(c * d))
    if n == 0:
        return 1, p
    g = Fraction(n, d)
    return _norm(g), scale(p, Fraction(d, n))


def _lead(p):
    return max((m for m in p.t if m), key=lambda m: (len(m), m))


def _mkpred(kind, p):
    """p oriented & normalised"""
    c = p.t.get((), 0)
    base = Poly({m: v for m, v in p.t.items() if m})
    return from_atom(_mk(kind, p.key, True, 0, 1, base.key, c))


_ge_cache = {}


def ge0(p):
    r = _ge_cache.get(p)
    if r is None:
        r = _ge_cache[p] = _ge0(p, False)
    return r


_gt_cache = {}


def gt0(p):
    r = _gt_cache.get(p)
    if r is None:
        if is_int(p):
            r = ge0(sub(p, ONE))
        else:
            r = _ge0(p, True)
        _gt_cache[p] = r
    return r


def _ge0(p, strict):
    if p.is_const():
        c = p.cval()
        return ONE if (c > 0 if strict else c >= 0) else ZERO
    lo, hi = interval(p)
    if (lo > 0) if strict else (lo >= 0):
        return ONE
    if (hi <= 0) if strict else (hi < 0):
        return ZERO
    ats = atoms_of(p)
    bits = sorted(i for i in ats if _atoms[i].isbit)
    if len(bits) == len(ats) and len(bits) <= 8 and all(_atoms[i].kind == "var" for i in bits):
        tab = _table(p, bits)
        return _from_table({k: (1 if (v > 0 if strict else v >= 0) else 0) for k, v in tab.items()}, bits)
    r = _piecewise(p, bits, strict)
    if r is not None:
        return r
    if len(bits) == len(ats) and len(bits) <= 6:
        tab = _table(p, bits)
        return _from_table({k: (1 if (v > 0 if strict else v >= 0) else 0) for k, v in tab.items()}, bits)
    # single bit atom times positive etc. are covered above; split a bit factor that multiplies
    # everything:  b*q >= 0
    g, q = content(p)
    integral = is_int(q)
    if integral:
        if strict:
            q = sub(q, ONE)
            strict = False
        nz = [c for m, c in q.t.items() if m]
        g2 = 0
        for c in nz:
            g2 = gcd(g2, c)
        if g2 > 1:
            c0 = q.t.get((), 0)
            t = {m: c // g2 for m, c in q.t.items() if m}
            c1 = c0 // g2
            if c1:
                t[()] = c1
            q = Poly(t)
            return ge0(q)
        if q.t[_lead(q)] < 0:
            return sub(ONE, _mkpred("ge", sub(scale(q, -1), ONE)))
        return _mkpred("ge", q)
    if q.t[_lead(q)] < 0:
        return sub(ONE, _mkpred("ge" if strict else "gt", scale(q, -1)))
    return _mkpred("gt" if strict else "ge", q)


def subst_bits(p, asg):
    """replace top level bit atoms by constants"""
    t = {}
    ch = False
    for m, c in p.t.items():
        rm = None
        z = False
        for k, i in enumerate(m):
            v = asg.get(i)
            if v is None:
                if rm is not None:
                    rm.append(i)
            else:
                ch = True
                if v == 0:
                    z = True
                    break
                if rm is None:
                    rm = list(m[:k])
        if z:
            continue
        mm = m if rm is None else tuple(rm)
        v = t.get(mm)
        t[mm] = c if v is None else v + c
    if not ch:
        return p
    return Poly({m: _norm(c) for m, c in t.items() if c != 0})


def _piecewise(p, bits, strict):
    """p is, on every region cut out by predicate atoms over ONE base B, of the form a*B+b:
    the comparison is again a union of intervals of B."""
    preds = [_atoms[i] for i in bits if _atoms[i].kind in ("ge", "gt")]
    if not preds:
        return None
    base = preds[0].base
    if any(a.base != base for a in preds) or len(preds) > 8:
        return None
    B = Poly(dict(base))
    integral = is_int(B)
    order = sorted(preds, key=lambda a: (-a.cst, 0 if a.kind == "ge" else 1))
    # thresholds increasing: B >= -cst
    bl, bh = interval(B)
    lead = _lead(B)
    res = ZERO
    n = len(order)
    for k in range(n + 1):
        asg = {a.id: (1 if j < k else 0) for j, a in enumerate(order)}
        q = subst_bits(p, asg)
        # q = a*B + b ?
        a = Fraction(q.t.get(lead, 0)) / B.t[lead]
        rest = sub(q, scale(B, a)) if a else q
        if not rest.is_const():
            return None
        b = rest.cval()
        # region: lower bound by order[k-1], upper bound by not order[k]
        region = ONE
        if k > 0:
            region = from_atom(order[k - 1])
        if k < n:
            region = sub(region, mul(region, from_atom(order[k])))
        # condition a*B+b >= 0 on region
        if a == 0:
            cond = ONE if (b > 0 if strict else b >= 0) else ZERO
        else:
            thr = -Fraction(b) / a
            # a>0: B >= thr ; a<0: B <= thr
            if a > 0:
                cond = (_gtB if strict else _geB)(B, thr, integral)
            else:
                cond = sub(ONE, (_geB if strict else _gtB)(B, thr, integral))
        res = add(res, mul(region, cond))
    return res


def _geB(B, thr, integral):
    """B >= thr, B free of predicates on itself"""
    return ge0(sub(B, const(math.ceil(thr) if integral else thr)))


def _gtB(B, thr, integral):
    if integral:
        return ge0(sub(B, const(math.floor(thr) + 1)))
    return gt0(sub(B, const(thr)))


def eq0(p):
    if p.is_const():
        return ONE if p.cval() == 0 else ZERO
    lo, hi = interval(p)
    if lo > 0 or hi < 0:
        return ZERO
    ats = atoms_of(p)
    bits = sorted(i for i in ats if _atoms[i].isbit)
    if len(bits) == len(ats) and len(bits) <= 8:
        tab = _table(p, bits)
        return _from_table({k: (1 if v == 0 else 0) for k, v in tab.items()}, bits)
    if is_int(p):
        q = p
        if q.t[_lead(q)] < 0:
            q = scale(q, -1)
        g, q2 = content(Poly({m: c for m, c in q.t.items() if m}))
        c0 = q.t.get((), 0)
        if Fraction(c0) / g != int(Fraction(c0) / g):
            return ZERO
        return sub(ge0(q), ge0(sub(q, ONE)))
    q = p
    if q.t[_lead(q)] < 0:
        q = scale(q, -1)
    return sub(ge0(q), gt0(q))


def ge(a, b):
    return ge0(sub(P(a), P(b)))


def gt(a, b):
    return gt0(sub(P(a), P(b)))


def lt(a, b):
    return gt(b, a)


def le(a, b):
    return ge(b, a)


def eq(a, b):
    return eq0(sub(P(a), P(b)))


def ne(a, b):
    return sub(ONE, eq(a, b))


def ite(c, a, b):
    """c is a 0/1 term"""
    a, b = P(a), P(b)
    if a == b:
        return a
    return add(b, mul(c, sub(a, b)))


def pmax(a, b):
    a, b = P(a), P(b)
    d = sub(a, b)
    if not d.t:
        return a
    if d.is_const():
        k = d.cval()
        return a if k > 0 else b
    if not is_int(d) and d.t[_lead(d)] < 0:
        a, b, d = b, a, scale(d, -1)
    return add(b, mul(d, ge0(d)))


def pmin(a, b):
    a, b = P(a), P(b)
    d = sub(a, b)
    if not d.t:
        return a
    if d.is_const():
        k = d.cval()
        return b if k > 0 else a
    if not is_int(d) and d.t[_lead(d)] < 0:
        a, b, d = b, a, scale(d, -1)
    return sub(a, mul(d, ge0(d)))


def clamp(x, lo=None, hi=None):
    x = P(x)
    if lo is not None:
        x = pmax(x, lo)
    if hi is not None:
        x = pmin(x, hi)
    return x


def pabs(x):
    g = ge0(x)
    return sub(scale(mul(x, g), 2), x)


def psign(x):
    return sub(gt0(x), gt0(scale(x, -1)))


def band(a, b):
    if is_bit(a) and is_bit(b):
        return mul(a, b)
    if a.is_const() and b.is_const():
        return const(int(a.cval()) & int(b.cval()))
    for x, y in ((a, b), (b, a)):
        if y.is_const() and is_int(x) and y.cval() >= 0 and not (int(y.cval()) + 1) & int(y.cval()):
            return mod(x, int(y.cval()) + 1)
        if is_bit(x) and is_int(y):
            return mul(x, mod(y, 2))
    return fn("band", (a, b))


def bor(a, b):
    if is_bit(a) and is_bit(b):
        return sub(add(a, b), mul(a, b))
    if a.is_const() and b.is_const():
        return const(int(a.cval()) | int(b.cval()))
    return fn("bor", (a, b))


def bxor(a, b):
    if is_bit(a) and is_bit(b):
        return sub(add(a, b), scale(mul(a, b), 2))
    if a.is_const() and b.is_const():
        return const(int(a.cval()) ^ int(b.cval()))
    return fn("bxor", (a, b))


# ----------------------------------------------------------------------------- functions
def _split_int(p):
    """p = i + r with i integer valued"""
    ti, tr = {}, {}
    for m, c in p.t.items():
        if all(_atoms[i].isint for i in m):
            f = math.floor(c)
            if f:
                ti[m] = f
            if c - f:
                tr[m] = _norm(c - f)
        else:
            tr[m] = c
    return Poly(ti), Poly(tr)


def floor(p):
    if is_int(p):
        return p
    i, r = _split_int(p)
    if r.is_const():
        return add(i, const(math.floor(r.cval())))
    lo, hi = interval(r)
    if lo not in (inf, -inf) and hi not in (inf, -inf) and math.floor(lo) == math.floor(hi):
        return add(i, const(math.floor(lo)))
    return add(i, fn("floor", (r,)))


def ceil(p):
    return scale(floor(scale(p, -1)), -1)


def _py_round(v):
    """round half to even on rationals"""
    f = math.floor(v)
    d = v - f
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and f % 2 == 1):
        return f + 1
    return f


def pround(p):
    if is_int(p):
        return p
    if p.is_const():
        return const(_py_round(Fraction(p.cval())))
    if p.t[_lead(p)] < 0:
        return scale(fn("round", (scale(p, -1),)), -1)
    return fn("round", (p,))


def _py_trunc(v):
    return math.floor(v) if v >= 0 else -math.floor(-v)


def trunc(p):
    if is_int(p):
        return p
    lo, hi = interval(p)
    if lo >= 0:
        return floor(p)
    if hi <= 0:
        return ceil(p)
    if p.t[_lead(p)] < 0:
        return scale(fn("trunc", (scale(p, -1),)), -1)
    return fn("trunc", (p,))


def mod(p, n):
    """python/torch remainder by a positive integer constant"""
    n = P(n)
    if not n.is_const():
        return fn("modv", (p, n))
    n = n.cval()
    if not isinstance(n, int) or n <= 0:
        if p.is_const() and n != 0:
            return const(p.cval() - n * math.floor(Fraction(p.cval()) / n))
        return fn("modv", (p, const(n)))
    if n == 1 and is_int(p):
        return ZERO
    if is_int(p):
        # flatten nested remainders and reduce coefficients
        t = {}
        q = ZERO
        for m, c in p.t.items():
            if len(m) == 1 and _atoms[m[0]].kind == "fn" and _atoms[m[0]].data[0] == "mod" \
                    and _atoms[m[0]].data[2] % n == 0:
                q = add(q, scale(_atoms[m[0]].data[1][0], c))
            else:
                q = add(q, Poly({m: c}))
        q = Poly({m: c % n for m, c in q.t.items() if c % n})
        lo, hi = interval(q)
        if lo >= 0 and hi < n:
            return q
        lo, hi = interval(p)
        if lo >= 0 and hi < n:
            return p
        if q.is_const():
            return const(q.cval() % n)
        ats = atoms_of(q)
        bits = sorted(i for i in ats if _atoms[i].isbit)
        if len(bits) == len(ats) and len(bits) <= 6:
            tab = _table(q, bits)
            return _from_table({k: v % n for k, v in tab.items()}, bits)
        return fn("mod", (q,), n)
    lo, hi = interval(p)
    if lo >= 0 and hi < n:
        return p
    return fn("modv", (p, const(n)))


def pow2(p):
    p = P(p)
    if p.is_const():
        c = p.cval()
        if isinstance(c, int):
            return const(Fraction(2) ** c)
        return fn("pow2", (p,))
    c = p.t.get((), 0)
    k = math.floor(c)
    if k:
        return scale(pow2(sub(p, const(k))), Fraction(2) ** k)
    return fn("pow2", (p,))


def sel(table, idx):
    """table[idx]; table: tuple of Poly"""
    if idx.is_const():
        c = idx.cval()
        n = len(table)
        if isinstance(c, int) and -n <= c < n:
            return table[c]
        return fn("err", (idx,), "index")
    if all(x == table[0] for x in table):
        lo, hi = interval(idx)
        if lo >= -len(table) and hi < len(table):
            return table[0]
    if is_bit(idx) and len(table) >= 2:
        return ite(idx, table[1], table[0])
    if len(idx.t) == 1:
        (m, c), = idx.t.items()
        if c == 1 and len(m) == 1:
            a = _atoms[m[0]]
            if a.kind == "fn" and a.data[0] == "sel":
                inner = a.data[1]
                n = len(table)
                if all(q.is_const() and isinstance(q.cval(), int) and -n <= q.cval() < n for q in inner[1:]):
                    return sel(tuple(table[q.cval()] for q in inner[1:]), inner[0])
    return fn("sel", (idx,) + tuple(table))


def nary(name, args):
    """symmetric n-ary functions: max, min"""
    u = []
    for a in args:
        if a not in u:
            u.append(a)
    if all(a.is_const() for a in u):
        v = [a.cval() for a in u]
        return const(max(v) if name == "max" else min(v))
    if len(u) == 1:
        return u[0]
    if len(u) == 2:
        return pmax(*u) if name == "max" else pmin(*u)
    common = {m: c for m, c in u[0].t.items() if all(a.t.get(m) == c for a in u[1:])}
    if common:
        # max(a + c, b + c) = max(a, b) + c
        k = Poly(common)
        return add(nary(name, [sub(a, k) for a in u]), k)
    if all(is_bit(a) for a in u) and len(u) <= 6:
        r = ONE
        for a in u:
            r = mul(r, sub(ONE, a) if name == "max" else a)
        return sub(ONE, r) if name == "max" else r
    return fn(name, tuple(sorted(u, key=lambda q: q.key)))


def _fi_floor(args, par):
    l, h = interval(args[0])
    return True, (math.floor(l) if abs(l) != inf else l), (math.floor(h) if abs(h) != inf else h)


def _fi_round(args, par):
    l, h = interval(args[0])
    return True, (_py_round(Fraction(l)) if abs(l) != inf else l), (_py_round(Fraction(h)) if abs(h) != inf else h)


def _fi_trunc(args, par):
    l, h = interval(args[0])
    return True, (_py_trunc(Fraction(l)) if abs(l) != inf else l), (_py_trunc(Fraction(h)) if abs(h) != inf else h)


def _fi_mod(args, par):
    return True, 0, par - 1


def _fi_modv(args, par):
    isint = is_int(args[0]) and is_int(args[1])
    l, h = interval(args[1])
    return isint, (0 if l > 0 else -inf), (h if l > 0 else inf)


def _fi_sel(args, par):
    ivs = [interval(a) for a in args[1:]]
    return all(is_int(a) for a in args[1:]), min(i[0] for i in ivs), max(i[1] for i in ivs)


def _fi_inv(args, par):
    l, h = interval(args[0])
    if l > 0 or h < 0:
        a = Fraction(1) / Fraction(l) if abs(l) != inf else 0
        b = Fraction(1) / Fraction(h) if abs(h) != inf else 0
        return False, min(a, b), max(a, b)
    return False, -inf, inf


def _fi_pow2(args, par):
    l, h = interval(args[0])

    def e(x, d):
        if x == inf:
            return inf
        if x == -inf:
            return 0
        return Fraction(2) ** (math.floor(x) if d < 0 else math.ceil(x))
    isint = is_int(args[0]) and l >= 0
    lo, hi = e(l, -1), e(h, 1)
    return isint, lo, hi


def _fi_mm(args, par):
    ivs = [interval(a) for a in args]
    return all(is_int(a) for a in args), ivs, None


def _fi_max(args, par):
    ivs = [interval(a) for a in args]
    return all(is_int(a) for a in args), max(i[0] for i in ivs), max(i[1] for i in ivs)


def _fi_min(args, par):
    ivs = [interval(a) for a in args]
    return all(is_int(a) for a in args), min(i[0] for i in ivs), min(i[1] for i in ivs)


def _fi_sqrt(args, par):
    return False, 0, inf


def _fi_quant(args, par):
    ivs = [interval(a) for a in args]
    return False, min(i[0] for i in ivs), max(i[1] for i in ivs)


def _fi_unit(args, par):
    return False, -1, 1


def _fi_01(args, par):
    return False, 0, 1


def _fi_any(args, par):
    return False, -inf, inf


def _fi_anyint(args, par):
    return True, -inf, inf


def _fi_wrap(args, par):
    lo, hi = par
    return True, lo, hi


class EvalError(Exception):
    pass


def _ev_sel(v, par):
    i = v[0]
    if i != int(i):
        raise EvalError("index")
    i = int(i)
    if not -(len(v) - 1) <= i < len(v) - 1:
        raise EvalError("index out of range")
    return v[1 + i] if i >= 0 else v[len(v) + i]


def _ev_inv(v, par):
    if v[0] == 0:
        raise EvalError("division by zero")
    return Fraction(1) / Fraction(v[0]) if isinstance(v[0], NUM) else 1.0 / v[0]


def _ev_pow2(v, par):
    if isinstance(v[0], NUM) and v[0] == int(v[0]) and abs(v[0]) < 4096:
        return Fraction(2) ** int(v[0])
    return 2.0 ** float(v[0])


def _ev_quant(v, par):
    s = sorted(v)
    q = Fraction(par) * (len(s) - 1)
    lo = math.floor(q)
    hi = math.ceil(q)
    return s[lo] + (s[hi] - s[lo]) * (q - lo)


def _ev_log2(v, par):
    if v[0] <= 0:
        raise EvalError("log2")
    return log2(v[0])


def _ev_frexp_m(v, par):
    return Fraction(frexp(float(v[0]))[0])


def _ev_err(v, par):
    raise EvalError(par)


def _ev_wrap(v, par):
    lo, hi = par
    return (int(v[0]) - lo) % (hi - lo + 1) + lo


def _ev_sigmoid(v, par):
    return 1.0 / (1.0 + math.exp(-float(v[0])))


FN = {
    "floor": (_fi_floor, lambda v, p: math.floor(v[0])),
    "round": (_fi_round, lambda v, p: _py_round(v[0]) if isinstance(v[0], NUM) else _py_round(Fraction(v[0]))),
    "trunc": (_fi_trunc, lambda v, p: _py_trunc(v[0])),
    "mod": (_fi_mod, lambda v, p: int(v[0]) % p),
    "modv": (_fi_modv, lambda v, p: _ev_modv(v)),
    "sel": (_fi_sel, _ev_sel),
    "inv": (_fi_inv, _ev_inv),
    "pow2": (_fi_pow2, _ev_pow2),
    "max": (_fi_max, lambda v, p: max(v)),
    "min": (_fi_min, lambda v, p: min(v)),
    "sqrt": (_fi_sqrt, lambda v, p: _ev_sqrt(v)),
    "log2": (_fi_any, _ev_log2),
    "quantile": (_fi_quant, _ev_quant),
    "sigmoid": (_fi_01, _ev_sigmoid),
    "tanh": (_fi_unit, lambda v, p: math.tanh(float(v[0]))),
    "exp": (_fi_sqrt, lambda v, p: math.exp(min(float(v[0]), 500.0))),
    "frexp_m": (_fi_unit, _ev_frexp_m),
    "frexp_e": (_fi_anyint, lambda v, p: frexp(float(v[0]))[1]),
    "band": (_fi_anyint, lambda v, p: int(v[0]) & int(v[1])),
    "bor": (_fi_anyint, lambda v, p: int(v[0]) | int(v[1])),
    "bxor": (_fi_anyint, lambda v, p: int(v[0]) ^ int(v[1])),
    "err": (_fi_any, _ev_err),
    "wrap": (_fi_wrap, _ev_wrap),
    "pow": (_fi_any, lambda v, p: _ev_pow(v)),
    "opaque": (_fi_any, None),
}


def _ev_modv(v):
    if v[1] == 0:
        raise EvalError("mod 0")
    return v[0] - v[1] * math.floor(v[0] / v[1] if not isinstance(v[0], NUM) else Fraction(v[0]) / v[1])


def _ev_sqrt(v):
    if v[0] < 0:
        raise EvalError("sqrt")
    return sqrt(v[0])


def _ev_pow(v):
    try:
        r = v[0] ** v[1]
    except Exception:
        raise EvalError("pow")
    if isinstance(r, complex):
        raise EvalError("pow")
    return r


def fn(name, args, par=None):
    args = tuple(args)
    key = ("fn", (name, args, par))
    a = _index.get(key)
    if a is None:
        isint, lo, hi = FN[name][0](args, par)
        a = _mk("fn", (name, args, par), isint, lo, hi)
    return from_atom(a)


def frexp2(v):
    if v.is_const():
        m, e = frexp(float(v.cval()))
        return const(Fraction(m)), const(e)
    return fn("frexp_m", (v,)), fn("frexp_e", (v,))


def sqrt_(p):
    if p.is_const():
        c = Fraction(p.cval())
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    return fn("sqrt", (p,))


# ----------------------------------------------------------------------------- deep traversal
_deep_cache = {}


def children(a):
    if a.kind == "var":
        return ()
    if a.kind in ("ge", "gt"):
        return (Poly(dict(a.data)),)
    return a.data[1]


def deep_vars(p):
    """all var atoms p depends on (ids)"""
    r = set()
    for i in atoms_of(p):
        r |= _deep_atom(i)
    return r


def _deep_atom(i):
    r = _deep_cache.get(i)
    if r is None:
        a = _atoms[i]
        if a.kind == "var":
            r = frozenset((i,))
        else:
            s = set()
            for c in children(a):
                s |= deep_vars(c)
            r = frozenset(s)
        _deep_cache[i] = r
    return r


def rebuild(a, args):
    """the atom with its arguments replaced, renormalised -> Poly"""
    if a.kind == "ge":
        return ge0(args[0])
    if a.kind == "gt":
        return gt0(args[0])
    name, _, par = a.data
    if name == "floor":
        return floor(args[0])
    if name == "round":
        return pround(args[0])
    if name == "trunc":
        return trunc(args[0])
    if name == "mod":
        return mod(args[0], par)
    if name == "modv":
        return mod(args[0], args[1])
    if name == "sel":
        return sel(tuple(args[1:]), args[0])
    if name == "inv":
        return inv(args[0])
    if name == "pow2":
        return pow2(args[0])
    if name in ("max", "min"):
        return nary(name, args)
    if name == "sqrt":
        return sqrt_(args[0])
    if name == "band":
        return band(*args)
    if name == "bor":
        return bor(*args)
    if name == "bxor":
        return bxor(*args)
    if name == "wrap":
        return wrap(args[0], par)
    if name in ("frexp_m", "frexp_e") and args[0].is_const():
        return const(Fraction(frexp(float(args[0].cval()))[0]) if name == "frexp_m" else frexp(float(args[0].cval()))[1])
    return fn(name, args, par)


def wrap(p, rng):
    lo, hi = interval(p)
    if lo >= rng[0] and hi <= rng[1]:
        return p
    if p.is_const():
        n = rng[1] - rng[0] + 1
        return const((p.cval() - rng[0]) % n + rng[0])
    return fn("wrap", (p,), rng)


def substitute(p, sub_map, memo=None):
    """replace atoms (by id -> Poly) everywhere, renormalising"""
    if memo is None:
        memo = {}

    def at(i):
        r = memo.get(i)
        if r is None:
            if i in sub_map:
                r = sub_map[i]
            else:
                a = _atoms[i]
                if a.kind == "var":
                    r = from_atom(a)
                else:
                    ch = children(a)
                    nch = tuple(go(c) for c in ch)
                    r = from_atom(a) if all(x == y for x, y in zip(ch, nch)) else rebuild(a, nch)
            memo[i] = r
        return r

    pm = {}

    def go(q):
        r = pm.get(q)
        if r is not None:
            return r
        out = ZERO
        same = {}
        for m, c in q.t.items():
            rep = [at(i) for i in m]
            if all(len(x.t) == 1 and x.t.get((i,)) == 1 for x, i in zip(rep, m)):
                same[m] = c
                continue
            y = const(c)
            for x in rep:
                y = mul(y, x)
            out = add(out, y)
        r = add(out, Poly(same)) if same else out
        pm[q] = r
        return r
    return go(p)


def loosen(p):
    """write a strict comparison [d > 0] as [d >= 0] wherever its factor vanishes at d == 0"""
    for i in sorted(i for i in atoms_of(p) if _atoms[i].kind == "gt"):
        d = Poly(dict(_atoms[i].data))
        k = next((m[0] for m in d.t if len(m) == 1 and all(m[0] not in n for n in d.t if n != m)), None)
        if k is None:
            continue
        u = Poly({tuple(x for x in m if x != i): c for m, c in p.t.items() if i in m})
        c = d.t[(k,)]
        at0 = scale(sub(d, Poly({(k,): c})), Fraction(-1) / c)
        z = ZERO
        for m, cc in u.t.items():
            y = const(cc)
            for x in m:
                y = mul(y, at0 if x == k else from_atom(_atoms[x]))
            z = add(z, y)
        if not z.t:
            rest = Poly({m: c for m, c in p.t.items() if i not in m})
            p = add(rest, mul(u, ge0(d)))
    return p


# ----------------------------------------------------------------------------- evaluation
def evaluate(p, env, memo):
    """env: var atom id -> number"""
    s = 0
    for m, c in p.t.items():
        v = c
        for i in m:
            x = memo.get(i)
            if x is None:
                x = _eval_atom(i, env, memo)
                memo[i] = x
            if x == 0:
                v = 0
                break
            v = v * x
        s = s + v
    return s


def _eval_atom(i, env, memo):
    a = _atoms[i]
    k = a.kind
    if k == "var":
        return env[i]
    if k == "ge":
        return 1 if evaluate(Poly(dict(a.data)), env, memo) >= 0 else 0
    if k == "gt":
        return 1 if evaluate(Poly(dict(a.data)), env, memo) > 0 else 0
    name, args, par = a.data
    f = FN[name][1]
    if f is None:
        raise EvalError("opaque")
    v = [evaluate(q, env, memo) for q in args]
    try:
        return f(v, par)
    except (OverflowError, ValueError, ZeroDivisionError):
        raise EvalError(name)


# ----------------------------------------------------------------------------- printing
def show_atom(a, depth=0):
    if a.kind == "var":
        return str(a.data[0])
    if depth > 4:
        return "..."
    if a.kind in ("ge", "gt"):
        return "[%s %s 0]" % (show(Poly(dict(a.data)), depth + 1), ">=" if a.kind == "ge" else ">")
    name, args, par = a.data
    if name == "sel":
        return "tab(%s..)[%s]" % (show(args[1], depth + 1), show(args[0], depth + 1))
    return "%s(%s%s)" % (name, ", ".join(show(x, depth + 1) for x in args), "" if par is None else "; %s" % (par,))


def show(p, depth=0):
    if not p.t:
        return "0"
    out = []
    for n, (m, c) in enumerate(p.key):
        if n > 12:
            out.append("...")
            break
        f = "*".join(show_atom(_atoms[i], depth) for i in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append("-" + f)
        else:
            out.append("%s*%s" % (c, f))
    return " + ".join(out).replace("+ -", "- ")
